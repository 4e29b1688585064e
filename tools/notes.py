SEQ = "every state and history within the bound is executed on the real code (ASan/UBSan, gcc and clang, C++11 to C++20); "
TRUST = " Trusts the compilers, sanitizers, libstdc++ and the reference model in the harness; histories, sizes and values beyond the bounds are not covered."
CONC = "every schedule up to a preemption bound is executed on the real code under an own scheduler (happens-before races, lost wakeups, deadlock, livelock, use after free, linearizability); "
TRUSTC = " Memory model: sequentially consistent values plus happens-before race detection with the actual memory orders (weak-memory outcomes of racy atomics are not enumerated). More threads, operations and preemptions than the bound are not covered."
NOTES = {
 "C01": ("explicit-state and all-histories exploration of the real Vector against a list model", SEQ + "operation histories over up to three Vectors, from fresh and grown states." + TRUST),
 "C02": ("explicit-state and all-histories exploration of the real ArrVec and Array against a list model", SEQ + "capacities 0..3 and larger prefilled ones, overflow and misuse included." + TRUST),
 "C03": ("all-histories exploration with lifetime-tracked elements and heap accounting", SEQ + "every element operation is checked against a registry of live objects; leftovers are checked after every history." + TRUST),
 "C04": ("explicit-state and all-histories exploration of the real String against std::basic_string", SEQ + "char, wchar_t and char32_t alphabets, self-aliasing arguments, positions in and out of range." + TRUST),
 "C05": ("explicit-state and all-histories exploration of the real Vcb against a window model", SEQ + "sizes 1..4, complete rotations and long default histories with up to k deviations." + TRUST),
 "C06": ("explicit-state and all-histories exploration of the real Vcq against a FIFO model", SEQ + "capacities 1..4, complete rotations and long default histories with up to k deviations." + TRUST),
 "C07": ("exhaustive enumeration of Enum states, histories and match shapes on the real code", SEQ + "1 to 255 alternatives, every stored index, every accessor." + TRUST),
 "C08": ("exhaustive enumeration of Maybe values, histories and function tables on the real code", SEQ + "all functions over a small domain, as members and free functions, all value categories." + TRUST),
 "C09": ("exhaustive enumeration of inputs of the list functions on the real code against list definitions", SEQ + "all contents up to a length for every pair of sequence kinds." + TRUST),
 "C10": ("exhaustive enumeration of inputs, bounds and searches of the real views against list slices", SEQ + "every content up to a length, every bound around it, run-time and compile-time, for every sequence kind." + TRUST),
 "C11": ("exhaustive enumeration of input fillings under heap accounting, with the result types fixed at compile time", SEQ + "every combination of static-size, static-capacity and dynamic inputs, filled to every length up to capacity." + TRUST),
 "C12": ("exhaustive enumeration of inputs and orders of the real sort functions", SEQ + "all key sequences up to a length, all weak orders of a small domain, structured long inputs around every run/threshold boundary with up to k deviations, extreme orders of thousands of elements on a small stack." + TRUST),
 "C13": ("stateless model checking of the real BlockingQ: all schedules up to a preemption bound", CONC + "two to four threads, spurious wakeups included." + TRUSTC),
 "C14": ("stateless model checking of the real NonBlockingQ: all schedules up to a preemption bound", CONC + "two to four threads." + TRUSTC),
 "C15": ("stateless model checking of the real DoubleBuffer: all schedules up to a preemption bound", CONC + "one consumer, up to three producers." + TRUSTC),
 "C16": ("exhaustive enumeration of format specifications and values on the real formatter against std::format", SEQ + "every combination of options per type, all 8- and 16-bit values, every power of two and ten, all argument counts up to the packing limit and beyond, all output lengths across the buffer sizes." + TRUST),
 "C17": ("exhaustive enumeration of floating-point specifications and structured values on the real formatter against printf, to_chars and strtod", SEQ + "every exponent with structured significands, all decimals of few digits, ties and borders at every precision (thorough: all floats)." + TRUST),
 "C18": ("exhaustive enumeration of sequences, prints and of all short format strings on the real formatter", SEQ + "captured output is compared byte by byte; acceptance of every short format string is compared with std::format (documented extensions excepted)." + TRUST),
 "C19": ("stateless exploration of all File histories over a scripted stream with every pattern of failing transfers", SEQ + "open/write/read/seek/flush/close/move histories, one and two files, up to two injected failures at every possible call, several buffer sizes, positions beyond 2 and 4 GB in real sparse files. The C library's stream layer is real." + TRUST),
 "C20": ("exhaustive enumeration of inputs of the real statistics against their definitions in long double", SEQ + "all contents over a few signed values up to a length, all lags of either sign and beyond the length, infinities and other element types for the extremes, every length up to a bound with several shapes." + TRUST),
 "C21": ("exhaustive enumeration of inputs and operation sequences of the real code", SEQ + "all component values of tuples of arity 0-6, all compositions up to length 3 of all 27 maps on three points (length 4 of generators; thorough: all), all callable kinds, all func_ptr call sequences up to a depth, all value pairs and triples of small domains." + TRUST),
 "C22": ("exhaustive enumeration of a bounded space of programs, each decided by the compiler", "All match expressions of the stated shapes and a table of format strings by argument types are generated; a small model (for the choice between branches: a plain overload set) says which must compile and which branch runs; every program is given to g++ and clang++ in several standards." ),
 "C23": ("exhaustive enumeration of a bounded grammar of type terms, instantiated with the real headers and compared with the language's own answer", "Every utility is instantiated for every type (pair, call, signature, pack) of the stated lists, with two compilers and several standards; the oracle is the language itself (decltype of the call, the standard library's traits, integer arithmetic) or the way the type was built." ),
 "C24": ("exhaustive enumeration of a bounded space of programs (include orders, files, standards, configurations), each compiled, linked and run", "Every ordered pair of public headers, every header alone and all together are included in the two files of a program, which pass objects to each other and print what each header computes; a table holds the results. Every listed type of the library is put through every listed container, algorithm and wrapper of the standard library; the same program with a plain structure is the reference. Trusts the compilers and the freestanding build being imitated with a hosted standard library; three or more headers in other orders than the two stated are not covered."),
}
NOT_APPLICABLE = {}
FIXED = {
 "sort_unstable and quicksort overflow the stack on long sorted or constant sequences": "C12",
 "File::tell truncates positions beyond INT_MAX": "C19",
 "is_approx compares a floating-point value with an integer of the same or a greater size as integers": "C20",
 "autocovariance reads outside of the sequence for a negative lag and one beyond the length": "C20",
 "max_elem and min_elem give a finite limit for sequences of infinities and a default value for other types": "C20",
 "assigning a Vector a part of one of its own elements reads destroyed elements": "C01",
 "append and assign of more characters than memory can hold exhaust the memory": "C04",
 "sequence.hpp does not compile in a freestanding build that has not included <array> and <vector>": "C24",
 "resizing a Vector or building a String beyond the address space writes out of bounds": "C01 C04",
 "swapping values of the library in standard algorithms is ambiguous": "C24",
 "two files of a freestanding program that include the library do not link": "C24",
 "the freestanding allocator copies elements that are to be moved": "C01 C07",
 "the freestanding allocator hands out too little memory when the size overflows": "C01 C04",
 "assigning to an Enum from a part of its own value reads a destroyed object": "C07 C08",
 "moving a part of an element of a Vector into the Vector reads a destroyed object": "C01",
 "equality of two strings ignores their character traits": "C04",
 "IsInvocableR rejects discarding a result before C++17": "C23",
 "copies of elements with an initializer_list constructor are wrapped in a list instead of copied": "C02 C05 C06 C07 C08",
 "func_ptr does not compile for callables with rvalue reference or move-only parameters": "C21",
 "Arguments does not recognise noexcept callables in C++17 (match wildcards, func_ptr)": "C21 C22",
 "Enum with 256 alternatives does not compile": "C07",
 "Vector returns memory it never obtained (a null pointer) to its allocator": "C03 C01 C04",
 "Vector and String with a non-default allocator do not compile": "C01 C04",
 "head and autocovariance reject sequences of user types (they need members beyond the Sequence trait)": "C10 C20",
 "IsInvocableR is false for every callable before C++17": "C21",
 "IsDefaultConstructible is false for every type": "C21",
 "noexcept functions are not turned into function pointers": "C21",
 "_sum and _product accumulate in int whatever the element type": "C21",
 "compositions cannot be called with arguments of std types": "C21",
 "infinities and NaN are padded on the wrong side and ignore an explicit fill of 0": "C17",
 "hexadecimal format of zero shows the exponent of subnormals": "C17",
 "hexadecimal floating-point format rounds ties up instead of to even": "C17",
 "zero padding of the hexadecimal floating-point format goes before the 0x prefix": "C17",
 "fixed format with more than 767 digits loses trailing zeros": "C17",
 "formatting a sequence of Strings does not compile (ambiguous formatter)": "C18",
 "formatting nested sequences does not compile (format is not const)": "C18",
 "a precision without digits is accepted in format strings": "C18",
 "a read error in the middle of a line returns the truncated line": "C19",
 "linear_regression_with_index and detrend do not compile for float results": "C20",
 "detrend squeezes the index into the element type": "C20",
 "views of a non-const std::string do not compile before C++17": "C10",
 "unstable sorts of elements such as Vectors do not compile (ambiguous swap)": "C12",
 "DoubleBuffer of a std element type does not compile (ambiguous swap)": "C15",
 "comparing nested containers or tuples of containers does not compile before C++20": "C01 C02 C21",
 "Maybe member functions cannot be chained or called on a const Maybe": "C08",
 "moving an ArrVec leaves its moved-from elements undestroyed": "C03",
 "comparing two Maybes does not compile": "C08",
 "const move out of an Enum or Maybe does not compile": "C07 C08",
 "Enum with more than 128 alternatives does not compile": "C07",
 "flush, seek and tell on a closed File use a null stream": "C19",
 "writing a String in text mode stops at an embedded NUL": "C19",
 "a File whose close failed closes the same stream again on destruction": "C19",
 "moving a File loses its mode and leaks the file it is assigned over": "C19",
 "modifications of Vcb and Vcq elements are lost when the buffer wraps around": "C05 C06",
 "pushing the oldest element of a full Vcq copies from a destroyed element": "C06",
 "iterating an empty Vcq visits ct_capacity dead elements": "C06",
 "self assignment of Vcb and Vcq copies from destroyed elements": "C05 C06",
 "copying or moving a Vcq reads the wrong slots once its front has advanced": "C06",
 "slice with bounds beyond the sequence yields a view outside of its storage": "C10",
 "NonBlockingQ::is_empty races with enqueue and dequeue": "C14",
 "merge sort is not stable on equal elements": "C12",
 "timsort skips exactly the merges that are needed": "C12",
 "linear_regression_with_index overflows int for more than 1290 elements": "C20",
 "_maximum of negative floating point values returns the smallest positive value": "C20",
 "max_elem of negative floating point elements returns the smallest positive value": "C20",
 "cartesian_for_each_mut hands out a const copy of the outer elements": "C09",
 "take_while and drop_while do not compile for any sequence": "C10",
 "compose keeps references to temporary callables": "C21",
 "append relies on the unspecified evaluation order of function arguments": "C09",
 "equality of StringViews built from strings depends on the default capacity": "C10",
 "c_str of a String without storage dereferences a null pointer": "C04",
 "String compare takes both lengths into account": "C04",
 "String append/assign/insert/+= accept their own contents; insert leaves room for the terminator": "C04",
 "an empty String or StringView without storage compares equal to \"\"": "C04",
 "String range constructor does not compile for any iterator": "C04",
 "String fill constructor allocates with its allocator and leaves room for the terminator": "C04",
 "VectorView built from another view leaves its capacity uninitialized": "C10",
 "Vector push_back/emplace_back of an own element survive reallocation": "C01",
 "Vector insert/erase respect element lifetimes; inserting an own element is safe": "C01 C03",
 "Vector copy assignment takes over the size and does not move destroyed elements": "C01",
 "copying a Vector that never allocated leaves the copy's data pointer uninitialized": "C01",
 "ArrVec/Vector resize constructs new elements and destroys removed ones": "C03",
 "ArrVec conversion from a smaller-capacity ArrVec copies its size, not its capacity": "C02",
}
