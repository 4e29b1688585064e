import json
P=[]
def add(id,title,st,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    assert len(title)<=80,(id,len(title))
    P.append(d)
I='include/efp/'
add('C01','Vector is a growable list for every history of operations',
 'After any sequence of construction, push/emplace/pop, insert, erase, resize, reserve, shrink, clear, element writes, copy, move, swap and (self-)assignment on any number of Vectors, each Vector holds exactly the elements the same operations give on an abstract list, seen alike through indexing, iteration, data, length/nth, size/empty and equality; capacity is never below size, and values passed in may be elements of the same Vector or parts of them. Out-of-range insert/erase, pop on an empty Vector and a size no memory can hold are rejected with an error and change nothing. Copies are independent of their source, and a moved-from Vector remains usable, whatever stateless allocator is used, in hosted and freestanding builds, and also for elements that can only be moved.',
 ['histories','inputs'],'all operation sequences up to the stated depth on two interacting Vectors, for trivially copyable, lifetime-tracked and heap-owning element types, the default allocator and a block-checking user allocator, including aliased arguments',
 'Tests run a few fixed sequences on int vectors; growth, aliasing and assignment between vectors of different capacity only go wrong for particular size/capacity combinations.',
 [I+'sequence.hpp'],[('amortised growth, one spare slot','VectorBase::push_back/reserve'),('shifts','VectorBase::insert/erase'),('rule of five','VectorBase special members')],
 [('_data,_size,_capacity','buffer, live prefix, allocated slots','VectorBase')],['operator[]','begin/end','size','capacity','operator=='])
add('C02','Array and ArrVec are fixed-capacity lists that reject overflow',
 'For every history of operations an ArrVec holds exactly the elements of the corresponding abstract list and never more than its compile-time capacity, and an Array always holds exactly its compile-time number of elements; both are copied, moved, assigned, compared and converted (to a Vector, or an ArrVec to one of at least its capacity) by value. An operation that would exceed the capacity, pop from empty, or use an out-of-range insert/erase position, and a list or resize of the wrong length, is rejected with an error and leaves the contents unchanged.',
 ['histories','configurations'],'all operation sequences up to the stated depth on two containers for capacities 1-4, int / lifetime-tracked / heap-owning elements, and all conversions between the capacities',
 'Tests touch one capacity and one history per method; the failing cases are at the capacity boundary, for partially filled sources of conversions and for non-trivial elements.',
 [I+'sequence.hpp'],[('capacity checks','ArrVec::push_back/insert/resize/reserve'),('conversion constructors','ArrVec(const ArrVec<Element,m>&), VectorBase(const Array/ArrVec&)')],
 [('_data,_size','inline storage and live prefix','ArrVec')])
add('C03','Every stored element is constructed once, destroyed once, used only alive',
 'For every history of operations on Array, ArrVec, Vector, String, Vcb, Vcq, Enum, Maybe, Tuple, the thread queues and the results of the list functions, every element object is constructed before it is read, assigned or moved, is destroyed exactly once, and nothing (objects or memory) is left over once all containers are gone. No operation reads or writes outside the storage of its container, and every block of memory goes back, whole, to the allocator it came from.',
 ['histories'],'all operation sequences up to the stated depth on every container kind with lifetime-tracked elements and nested containers',
 'Violations (assigning to raw memory, destroying twice, leaking the last element) are invisible with the int elements and few histories used by the tests.',
 [I+'sequence.hpp',I+'string.hpp',I+'cyclic.hpp',I+'enum.hpp',I+'maybe.hpp',I+'meta.hpp',I+'prelude.hpp',I+'concurrency.hpp'],
 [('placement construction / explicit destruction','all containers'),('RawStorage','meta.hpp')],None,['element constructors/destructors','allocator'])
add('C04','String and StringView agree with a reference string; c_str is terminated',
 'After any sequence of construction (literal, pointer+length, fill, range, copy, move), append, +=, assign, insert, push/pop, resize, clear, substr, copy and assignment, a String has exactly the characters a reference string has, where arguments may be parts of the string itself; compare returns the sign of the lexicographic order, == agrees with content, and out-of-range positions and sizes no memory can hold are rejected with an error without changing the string. c_str() is always NUL-terminated right after the last character, even for a never-filled string, and conversions to string views or std::string preserve the content. This holds for every character type and stateless allocator.',
 ['histories','inputs'],'all operation sequences up to the stated depth over a two-letter-plus-NUL alphabet, for char, wchar_t, char16_t, char32_t, and all pairs of short strings for compare/==/substr/copy',
 'Tests use single calls on "Hello"; terminator space, comparison of different lengths, aliasing and empty strings are reached only by particular histories.',
 [I+'string.hpp',I+'sequence.hpp'],[('reserve one extra slot','VectorBase::push_back/resize, String::insert'),('lazy terminator','String::c_str')])
add('C05','Vcb always shows the last n pushed values, oldest first, contiguously',
 'For every history of pushes, element writes, copies, moves and (self-)assignments, a Vcb of size n exposes exactly n elements: the last n values pushed (default values before that), oldest first, with modifications made through it kept until the element is pushed out. Index access, data(), iteration and length/nth show this same contiguous window, and copies are independent.',
 ['histories','configurations'],'all operation sequences up to the stated depth (several wraps) for n = 1..5 and two interacting buffers',
 'Tests push a handful of values at one size and never copy, move or modify a wrapped buffer.',
 [I+'cyclic.hpp'],[('mirrored double buffer and wrap','Vcb::push_back'),('offset-preserving copy','Vcb special members')],
 [('_data','start of the window within the doubled buffer','Vcb')])
add('C06','Vcq is a bounded FIFO that drops the oldest element when full',
 'For every history of push, pop, element writes, copy, move and (self-)assignment, a Vcq of capacity n holds exactly the last min(n, remaining) values in FIFO order: pop returns the oldest remaining value, a push into a full queue drops exactly the oldest one. size, empty, indexing, data and iteration (also of an empty queue) all show this same sequence, contiguous in memory, and copies are independent.',
 ['histories','configurations'],'all operation sequences up to the stated depth (several wraps) for n = 1..4 and two interacting queues',
 'Tests never copy, move or iterate a queue whose front has advanced; wrap arithmetic fails only at particular read/write offsets.',
 [I+'cyclic.hpp'],[('mirrored double buffer and wrap','Vcq::push_back/pop_front'),('special members','Vcq copy/move')],
 [('_read,_write,_size','front and back cursors','Vcq')])
add('C07','Enum holds exactly one alternative and dispatches to exactly its branch',
 'For every number (up to the documented 256) and mix of alternatives and every history of construction, copy, move and (self-)assignment, an Enum reports the index and gives back the value of the alternative last stored; access to any other alternative, by type or by index, is rejected with an error. match invokes exactly one branch, the one for the stored alternative (or the trailing wildcard when no branch takes it), passes it the stored value, and returns its result. Two Enums are equal iff they hold the same alternative with equal values.',
 ['histories','configurations'],'alternative counts from 1 up to 256 around every power of two, every stored/accessed pair of alternatives, and all assignment histories up to the stated depth over alternatives of different size, alignment and ownership',
 'Tests use three or four alternatives; the switch tables for other counts, cross-alternative assignment and wrong accesses are never run.',
 [I+'enum.hpp'],[('switch stamping','detail::_EnumSwitch/EnumSwitch'),('type to index','AltIndex/Find'),('overload set','Overloaded/WildCardWrapper')],
 [('_index,_storage','tag and aligned storage','EnumBase')])
add('C08','Maybe obeys the functor, applicative and monad laws and never invents values',
 'A Maybe is either nothing or exactly one value, has_value / is_nothing / bool conversion always agree, and taking the value of nothing is rejected with an error. fmap, ap, bind and >>=, as members and as free functions, return nothing for nothing without calling the function, otherwise apply the function exactly once to the value, and so satisfy the functor, applicative and monad laws. Equality, copy, move and assignment follow the held value.',
 ['inputs','histories'],'all functions over a small finite domain (total and partial), all Maybe values over it, all assignment histories up to the stated depth',
 'Tests check two or three concrete values; laws quantify over all functions and values.',
 [I+'maybe.hpp',I+'enum.hpp'],[('Enum<Nothing, A>','maybe.hpp'),('free fmap/ap/bind/pure','maybe.hpp')])
add('C09','List functions equal their mathematical definitions on every Sequence type',
 'map, filter, foldl, foldr, for_each, append, concat, intercalate, from_function, map_with_index, for_index, cartesian_map, cartesian_for_each/_for_index and their indexed and mutable variants return (or visit, in order, each combination exactly once) what the corresponding functions on plain lists do, over the shortest length of several arguments. This holds for every combination of Array, ArrVec, Vector, Vcb, Vcq, views, strings, the std array/vector/string adapters and user types that implement the Sequence trait, for every length including empty and for element types that own memory; inputs are not modified except through the _mut functions, which modify the actual elements.',
 ['inputs','configurations'],'all sequence-kind combinations (pairs and triples) times all lengths 0..3/4 times all contents over a small domain, with int and heap-owning elements',
 'Tests check a few literal arrays; length mismatch, empty inputs, partially filled ArrVecs and mixed kinds are mostly unreached.',
 [I+'prelude.hpp',I+'sequence.hpp',I+'trait.hpp'],[('min length','_min_length'),('result sizing','map/append/concat/intercalate/cartesian_map'),('trait functions length/nth/data','sequence.hpp, cyclic.hpp')])
add('C10','Sub-sequence views and searches select the right elements and stay in bounds',
 'head, last, tail, init, is_null, take, drop, slice, take_while, drop_while and the _unsafe variants within their range give exactly the corresponding elements of the source, as views into its storage (no copies), for any run-time or compile-time bound: bounds beyond the end are cut off, and head/last/tail/init of an empty sequence are rejected with an error. elem, elem_index, elem_indices, find, find_index and find_indices agree with a linear scan (first match, ascending indices, nothing if absent). Two views are equal iff they show the same range of the same storage.',
 ['inputs','configurations'],'all sequence kinds, all lengths 0..5, all contents over a small domain, all bounds 0..length+2 (run-time and compile-time) and all predicates over the domain',
 'Tests use one array per function and bounds inside the sequence.',
 [I+'prelude.hpp',I+'sequence.hpp'],[('bounds clamping','take/drop/slice'),('view types','ArrayView/ArrVecView/VectorView')])
add('C11','Result containers are heap-free when bounds are static and always big enough',
 'Results of list functions are Arrays when all inputs have static size, fixed-capacity ArrVecs when all have static capacity, and Vectors otherwise; a static size or capacity is exactly the bound implied by the inputs, so no input within the inputs\' capacities can overflow the result. Operations on static-size and static-capacity sequences never allocate heap memory of their own.',
 ['configurations','inputs'],'all combinations of sequence kinds and capacities in the stated range, each filled to every admissible length up to its capacity; allocations are counted on every call',
 'Return types are asserted in the tests for a few combinations; that the chosen capacity suffices for every fill, and absence of allocation, are not.',
 [I+'prelude.hpp',I+'trait.hpp',I+'meta.hpp'],[('NAryReturn, MapReturn, FilterReturn, AppendReturn, ConcatReturn, IntercalateReturn, CartesianMapReturn','prelude.hpp'),('_minimum/_sum/_product','meta.hpp')])
add('C12','Every sort yields the ordered permutation; sort and sort_by are stable',
 'For every input and strict weak order, every sorting function (sort, sort_by, sort_unstable(_by), and the named merge, heap, insertion, quick, intro and tim sorts) leaves the vector ordered and a permutation of its original elements, never reading or writing outside it, whatever its length and initial order (the stack needed does not grow with the length). sort, sort_by, timsort, insertion sort and merge sort keep equal elements in their original order.',
 ['inputs'],'all sequences over a small key domain up to the stated length for every algorithm, and all block-structured, rotated, reversed and single-exchange inputs for lengths across the internal run boundaries (31..130)',
 'Tests sort arrays of ten elements; run merging only starts above 32 elements, and stability needs equal keys with identities.',
 [I+'sort.hpp'],[('run insertion and merges','timsort_by/timsort_merge'),('partition','partition_by'),('heap','max_heapify_by')])
add('C13','BlockingQ is a linearizable FIFO whose waiting consumers always wake up',
 'Under every schedule of concurrent enqueue and dequeue calls, including spurious wakeups, all calls take effect atomically in an order consistent with real time as on a FIFO queue (which drops its oldest element when a capacity is given and exceeded): no element is lost, duplicated, torn or reordered. A dequeue returns as soon as it can get the lock while the queue is non-empty; it stays blocked only while the queue is empty. There are no data races or deadlocks.',
 ['schedules'],'all interleavings at synchronisation operations (unbounded where stated, else preemption-bounded) of 2-4 threads with 1-3 operations each, all choices of the waiter to wake, and spurious wakeups, for fixed and dynamic capacity',
 'The tests run a single producer/consumer pair once under whatever schedule the OS picks.',
 [I+'concurrency.hpp',I+'cyclic.hpp'],[('mutex and condition variable','BlockingQ::enqueue/dequeue')],
 [('_q,_m,_c','buffer, lock, not-empty signal','BlockingQ')])
add('C14','NonBlockingQ is a linearizable FIFO that never blocks on emptiness',
 'Under every schedule of concurrent enqueue, dequeue and is_empty calls, all calls take effect atomically in an order consistent with real time as on a FIFO queue (which drops its oldest element when a capacity is given and exceeded). dequeue returns nothing exactly when the queue is empty at that moment and never waits for an element. There are no data races or deadlocks.',
 ['schedules'],'all interleavings at synchronisation operations of 2-4 threads with 1-3 operations each, for fixed and dynamic capacity',
 'Tests exercise it single-threadedly or under one OS schedule.',
 [I+'concurrency.hpp',I+'cyclic.hpp'],[('mutex','NonBlockingQ::enqueue/dequeue/is_empty')])
add('C15','DoubleBuffer hands producers\' items to the consumer intact, without races',
 'Under every schedule with any number of producers calling enqueue and one consumer calling swap_buffer, empty and dequeue, every call acts atomically on a pair of bounded FIFO buffers: enqueue appends to the write side, swap exchanges the sides, dequeue takes the oldest item of the read side. Items published by a swap are complete and in order for the consumer, nothing is lost except the oldest items of an over-full side, and there are no data races, deadlocks or endless spins.',
 ['schedules'],'all interleavings at synchronisation operations of 1-3 producers and one consumer with 1-3 operations each, for capacities 1-3',
 'No test runs the buffer under concurrency; a missing acquire/release or lock shows only under particular interleavings.',
 [I+'concurrency.hpp'],[('spinlock with acquire/release','DoubleBuffer::Spinlock'),('pointer swap under lock','DoubleBuffer::swap_buffer')])
add('C16','format of integers, characters, bools and strings matches the format spec',
 'For every combination of fill, alignment, sign, alternate form, zero padding, width, precision (also dynamic and positional arguments) and presentation type, format() of integral, char, bool, pointer, C string and String arguments yields exactly the text prescribed by the standard format specification, for every value including type extremes. Argument indexes, brace escapes and literal text are reproduced faithfully.',
 ['inputs'],'the full cross product of specification options over representative widths/precisions times boundary and small values of all integral types and short strings',
 'Tests check a few literal format strings with one value each.',
 [I+'format.hpp',I+'fmt/core.h',I+'fmt/format.h'],[('spec parser','fmt/core.h parse_format_specs'),('writers','fmt/format.h write_int, write_padded')])
add('C17','Floating-point formatting is exact, correctly rounded and round-trips',
 'Default formatting of any float or double yields the fewest digits that read back to the identical value; fixed, scientific, general and hexadecimal (with 0x prefix) presentations with any precision, sign, alternate and padding option yield the correctly rounded text of the standard format specification. Zeros, subnormals, extremes, infinities and NaN are included.',
 ['inputs'],'all option combinations over a structured enumeration of values (every binary exponent with boundary mantissas, powers of ten and their neighbours, all half-way cases of short decimals)',
 'Tests print a couple of ordinary doubles.',
 [I+'fmt/format.h',I+'fmt/format-inl.h'],[('shortest algorithm','dragonbox in format-inl.h'),('fixed precision','format_float / bigint')])
add('C18','Sequence formatting, printing and error reporting are consistent',
 'A formatted Array, ArrVec, Vector, Vcb or Vcq of any length is "[e1, e2, ...]" with each element formatted as it would be alone, nested containers included. print writes exactly the bytes format returns and println the same plus one newline. A malformed format string, a wrong presentation type or a missing argument is always reported as an error and never yields output or undefined behaviour.',
 ['inputs','configurations'],'all container kinds and lengths in the stated range, nested one level; all format strings up to the stated length over an alphabet of braces, colon, digits and specification characters',
 'Tests check one container of each kind and no malformed string.',
 [I+'format.hpp',I+'fmt/core.h',I+'fmt/format.h'],[('formatter specialisations','format.hpp'),('parser error paths','fmt/core.h')])
add('C19','File reads and writes exactly the given bytes and reports every I/O failure',
 'For every history of open, write, read_line(s), seek, tell, flush, close, move and destruction, and every pattern of short or failing I/O underneath, what a File stores is exactly the sequence of bytes successfully written, lines are returned complete and in order without their newline (nothing at the end), a failed operation is reported by a false/nothing/error result by the time of close, and a failing read never yields a truncated line. Each opened stream is closed exactly once; operations on a closed or moved-from File fail cleanly; opening an unavailable path gives nothing.',
 ['fault_sequences','histories'],'all operation histories up to the stated length over text and binary modes, with every placement of up to the stated number of faults (short transfer, error, failing close/seek/open) in the stream calls underneath',
 'There are no I/O tests; faults never occur in ordinary runs.',
 [I+'io.hpp'],[('FILE ownership','File special members, close'),('write/read loops','File::write/read_line/read_lines')])
add('C20','Numeric reductions and statistics equal their definitions',
 'sum, product, max_elem, min_elem, max_min, mean, rms, sse, mse, rmse, nrmse, variance, standard deviation, covariance, correlation (with and without Bessel correction), autocovariance/autocorrelation, remove_dc, linear regression, detrend, abs, square and is_approx (a difference of at most one machine epsilon of the common type) agree with their textbook definitions on every sequence, up to floating-point rounding. This holds for every sequence type, length, lag (negative or beyond the length, too), sign mix and element type, infinities included in the extremes, as long as the sums and squares involved fit the element and result type.',
 ['inputs','configurations'],'all sequences over a small set of positive, negative and zero values up to the stated length for several kinds and element types, all pairs of them for two-sequence statistics, all admissible lags, and long ramps',
 'Tests use one or two literal arrays per function.',
 [I+'numeric.hpp',I+'scientific.hpp'],[('folds','numeric.hpp'),('moments','scientific.hpp')])
add('C21','Tuples, composition, swap and captured-function pointers keep every component',
 'A Tuple/Pair gives back at each position, by get, p, fst, snd or match, exactly the value stored there, copies by value, and compares equal iff all components do. compose(f, ..., g) called with any arguments returns f(...(g(args))) also when the functions are temporaries; swap exchanges two values exactly; func_ptr(f) calls the given callable (the last one given of its type) with the given arguments. clamp, min, max, the operator functions and the compile-time constants compute their mathematical results.',
 ['inputs','configurations'],'tuple arities 1..6 over mixed component types with every position and every differing subset of components; all compositions up to length 4 of all functions over a small domain; all argument combinations over small domains',
 'Tests check one tuple and one composition of named lambdas.',
 [I+'meta.hpp',I+'prelude.hpp',I+'c_utility.hpp'],[('TupleLeaf/TupleImpl','meta.hpp'),('Composed','prelude.hpp'),('LambdaPointer','c_utility.hpp')])
add('C22','Pattern matches compile exactly when every alternative is handled',
 'A match on an Enum or Maybe whose branches, together with an optional trailing wildcard, take every alternative compiles; a match that leaves an alternative unhandled, contains a branch that can take no alternative, or has a wildcard before the last branch is rejected at compile time, and among several branches the one C++ overload resolution chooses is run, the wildcard counting as an overload for anything. The format string of a call is likewise checked against its arguments at compile time from C++20 on.',
 ['programs','configurations'],'all match expressions over 1-3 alternatives with branch subsets, orders and wildcard positions in the stated range, branches with convertible, base class and generic parameters included, compiled (and run) with each supported standard',
 'A test suite consists of programs that compile; rejection can only be observed by compiling programs that must not.',
 [I+'enum.hpp',I+'maybe.hpp',I+'format.hpp'],[('PatternCheck, BadParam, Overloaded','enum.hpp'),('consteval format_string','fmt/core.h')])
add('C23','Type-level utilities answer as the language does, in every standard',
 'In every language standard, the reference/const/volatile/pointer transformations, Decay, IsSame, Common, IsConstructible, IsDefaultConstructible, IsInvocable, IsInvocableR (any result can be discarded for void), InvokeResult, Arguments, FuncToFuncPtr, forward and move give for any types exactly what the language rules give. PackAt, TupleAt, EnumAt, Find, index sequences, All, Any, Mininum, Maximum, Prepend and arithmetic on compile-time constants compute their mathematical result for every pack and value. Element, CtSize, CtCapacity and the derived predicates describe every sequence type, its references and its const forms alike.',
 ['inputs','configurations'],'all type terms of a grammar (base types under const, volatile, pointers and references), all pairs of a list of types, all calls of a list of callables with up to two arguments from a list, all signatures over a list of parameter types, all bit lists up to length 5, packs up to length 33',
 'Tests ask about a few types with one standard and one compiler; a wrong answer selects another overload somewhere else.',
 [I+'meta.hpp',I+'trait.hpp'],[('traits','meta.hpp IsInvocable, Arguments, FuncToFuncPtr'),('packs','meta.hpp PackAt, Find, MakeIndexSequence'),('sequence traits','trait.hpp and the Impl specialisations beside each sequence')])
add('C24','The headers of the library compose in any program',
 'Every public header can be included on its own, repeatedly, and together with the others in any order, in each supported language standard, hosted or (where it supports it) freestanding, in any number of files of one program: the files compile, and link into one program. What a header offers gives the same results whichever headers stand around it, and objects can be passed between files that include different ones. The values, the sequences and the iterators of the library work in the containers, algorithms and wrappers of the standard library (sorting, swapping, copying, storing) as plain values do.',
 ['programs','configurations'],'all two-file programs over single headers, ordered pairs of headers and the complete list in both directions, hosted and freestanding, and all pairs of a type of the library and a program of the standard library, over the stated compilers and standards',
 'The test suite is one program in which every file includes all of efp.hpp first.',
 [I+'cpp_core.hpp',I+'sequence.hpp',I+'prelude.hpp','include/efp.hpp'],[('include lists','head of each header'),('linkage of the non-template functions','cpp_core.hpp, fmt/format-inl.h'),('configuration switches','__STDC_HOSTED__ in cpp_core.hpp, sequence.hpp, string.hpp, numeric.hpp, concurrency.hpp, io.hpp')])
import os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(ROOT+'/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,sc)
for p in P:
    import re
    n=len(re.findall(r'[.](\s|$)',p['statement']))
    if n>3: print(p['id'],n)
