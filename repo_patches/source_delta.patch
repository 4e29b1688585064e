From 7d9a7a6b65df17800f418f734d0d7f19ccb66f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:33 +0000
Subject: [PATCH 01/83] fix: ArrVec conversion from a smaller-capacity ArrVec
 copies its size, not its capacity

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index e8ab096..bbd5f50 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -306,8 +306,8 @@ public:
 
     // Constructor from array
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
-    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(ct_size_) {
-        for (size_t i = 0; i < ct_size_; ++i) {
+    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
+        for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {as[i]};
         }
     }
-- 
2.43.0


From 7d9a365fdb53ecc71ab14d27cc871eca56cbca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:45 +0000
Subject: [PATCH 02/83] fix: ArrVec/Vector resize constructs new elements and
 destroys removed ones

---
 include/efp/sequence.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index bbd5f50..a2b8a43 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -360,7 +360,14 @@ public:
             throw RuntimeError("ArrVec::resize: length must be less than or equal to ct_capacity");
         }
 
-        _size = length;
+        // Elements beyond the new size die, elements beyond the old size are value-initialized
+        while (_size > length) {
+            (_data + --_size)->~Element();
+        }
+
+        for (; _size < length; ++_size) {
+            new (_data + _size) Element {};
+        }
     }
 
     void reserve(size_t capacity) {
@@ -710,7 +717,14 @@ namespace detail {
                 reserve(new_size + 1);
             }
 
-            _size = new_size;
+            // Elements beyond the new size die, elements beyond the old size are value-initialized
+            while (_size > new_size) {
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + --_size);
+            }
+
+            for (; _size < new_size; ++_size) {
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, Element());
+            }
         }
 
         void reserve(size_t new_capacity) {
-- 
2.43.0


From e987a00d43750fe5ea8a385a10a56af7a34cdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:46 +0000
Subject: [PATCH 03/83] fix: copying a Vector that never allocated leaves the
 copy's data pointer uninitialized

---
 include/efp/sequence.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index a2b8a43..d280b32 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -564,7 +564,8 @@ namespace detail {
         VectorBase() : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(0) {}
 
         VectorBase(const VectorBase& other)
-            : _allocator(other._allocator), _size(other._size), _capacity(other._capacity) {
+            : _allocator(other._allocator), _data(nullptr), _size(other._size),
+              _capacity(other._capacity) {
             if (other._data) {
                 // Member function call in not allowed in member initializer list
                 // _data = _allocator.allocate(_capacity);
-- 
2.43.0


From 0e6540e4cfe1ac4e74ef29cb12efdb0abdb15d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:46 +0000
Subject: [PATCH 04/83] fix: Vector copy assignment takes over the size and
 does not move destroyed elements

---
 include/efp/sequence.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index d280b32..fc9df4e 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -581,19 +581,18 @@ namespace detail {
         // todo copy_and_swap
         VectorBase& operator=(const VectorBase& other) noexcept {
             if (this != &other) {
-                for (size_t i = 0; i < _size; ++i) {
-                    // _allocator.destroy(_data + i);
-                    AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
-                }
+                clear();
 
                 if (_capacity < other._size + 1) {
-                    resize(other._size);
+                    reserve(other._size + 1);
                 }
 
                 for (size_t i = 0; i < other._size; ++i) {
                     // _allocator.construct(_data + i, other._data[i]);
                     AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
                 }
+
+                _size = other._size;
             }
 
             return *this;
-- 
2.43.0


From 3f6375904e8493684bbf1e644fe50c25362919ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:46 +0000
Subject: [PATCH 05/83] fix: Vector insert/erase respect element lifetimes;
 inserting an own element is safe

---
 include/efp/sequence.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index fc9df4e..7fb1068 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -400,12 +400,14 @@ public:
             );
         }
 
+        Element copy(value);  // value may be an element of this ArrVec
+
         for (size_t i = _size; i > index; --i) {
             new (_data + i) Element(efp::move(_data[i - 1]));
             (_data + i - 1)->~Element();
         }
 
-        new (_data + index) Element(value);
+        new (_data + index) Element(efp::move(copy));
 
         ++_size;
     }
@@ -832,16 +834,23 @@ namespace detail {
                 throw RuntimeError("VectorBase::insert: index must be less than or equal to size");
             }
 
+            Element copy(value);  // value may be an element of this vector
+
             if (_size + 1 >= _capacity) {
                 reserve(_capacity == 0 ? 2 : 2 * _capacity);
             }
 
             for (size_t i = _size; i > index; --i) {
-                _data[i] = efp::move(_data[i - 1]);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + i,
+                    efp::move(_data[i - 1])
+                );
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i - 1);
             }
 
             // _allocator.construct(_data + index, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + index, value);
+            AllocatorTraits<Allocator>::construct(_allocator, _data + index, efp::move(copy));
             ++_size;
         }
 
@@ -854,7 +863,12 @@ namespace detail {
             AllocatorTraits<Allocator>::destroy(_allocator, _data + index);
 
             for (size_t i = index; i < _size - 1; ++i) {
-                _data[i] = efp::move(_data[i + 1]);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + i,
+                    efp::move(_data[i + 1])
+                );
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i + 1);
             }
 
             --_size;
-- 
2.43.0


From 7a6cfcaa5f77e82d2715c37ab95458fe7f4a2e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:46 +0000
Subject: [PATCH 06/83] fix: Vector push_back/emplace_back of an own element
 survive reallocation

---
 include/efp/sequence.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 7fb1068..e1ebb51 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -786,27 +786,33 @@ namespace detail {
         }
 
         void push_back(const Element& value) {
+            Element copy(value);  // value may be an element of this vector
+
             if (_size + 1 >= _capacity) {
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
             }
 
             // _allocator.construct(_data + _size, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, value);
+            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(copy));
             ++_size;
         }
 
         void push_back(Element&& value) {
+            Element moved(efp::move(value));  // value may be an element of this vector
+
             if (_size + 1 >= _capacity) {
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
             }
 
             // _allocator.construct(_data + _size, efp::move(value));
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(value));
+            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(moved));
             ++_size;
         }
 
         template<typename... Args>
         void emplace_back(Args&&... args) {
+            Element element(efp::forward<Args>(args)...);  // args may refer into this vector
+
             if (_size + 1 >= _capacity) {
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
             }
@@ -815,7 +821,7 @@ namespace detail {
             AllocatorTraits<Allocator>::construct(
                 _allocator,
                 _data + _size,
-                efp::forward<Args>(args)...
+                efp::move(element)
             );
             ++_size;
         }
-- 
2.43.0


From dd71c3522dca6c67e9ac0bbcb16b7c464f3646b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:46 +0000
Subject: [PATCH 07/83] fix: VectorView built from another view leaves its
 capacity uninitialized

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index e1ebb51..4b236f8 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1331,12 +1331,12 @@ namespace detail {
         // Constructor from ArrayView
         template<size_t ct_size_>
         VectorViewBase(const ArrayView<Element, ct_size_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         // Constructor from ArrVecView
         template<size_t ct_cap_>
         VectorViewBase(const ArrVecView<Element, ct_cap_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         const Element& operator[](size_t index) {
             return _data[index];
-- 
2.43.0


From 5d651f8402cd8369cab426c5479477d3b5505f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:52 +0000
Subject: [PATCH 08/83] fix: String fill constructor allocates with its
 allocator and leaves room for the terminator

---
 include/efp/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index b566f49..2e5f36c 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -44,8 +44,8 @@ public:
     }
 
     Vector(size_t size, Char c) {
-        Base::_capacity = size;
-        Base::_data = static_cast<Char*>(::operator new[](Base::_capacity * sizeof(Char)));
+        Base::_capacity = size + 1;
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
         Base::_size = size;
         for (size_t i = 0; i < size; ++i) {
             Base::_data[i] = c;
-- 
2.43.0


From 4e127541bb88f745b5451d0dfc057a67c0aafc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:52 +0000
Subject: [PATCH 09/83] fix: String range constructor does not compile for any
 iterator

---
 include/efp/string.hpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 2e5f36c..927412f 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -61,22 +61,9 @@ public:
 
     // Not using iterator
     template<typename InputIt>
-    Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator())
-        : Base::allocator_(alloc), Base::size_(0), Base::capacity_(0) {
-        // First pass: Count the number of elements to determine size
+    Vector(InputIt first, InputIt last) {
         for (InputIt it = first; it != last; ++it) {
-            ++Base::size_;
-        }
-        Base::capacity_ = Base::size_ + 1;
-
-        // Allocate memory for the elements
-        // Base::data_ = Base::allocator_.allocate(Base::capacity_);
-        Base::data_ = AllocatorTraits<Allocator>::allocate(Base::allocator_, Base::capacity_);
-
-        // Second pass: Copy-construct elements from the range
-        size_t i = 0;
-        for (InputIt it = first; it != last; ++it, ++i) {
-            Base::allocator_.construct(Base::data_ + i, *it);
+            Base::push_back(*it);
         }
     }
 
-- 
2.43.0


From f2c83af81eaa2b13c5118c1e428a1cf30a947761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:52 +0000
Subject: [PATCH 10/83] fix: an empty String or StringView without storage
 compares equal to ""

---
 include/efp/string.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 927412f..395e213 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -73,12 +73,8 @@ public:
 
     // Specialized equality comparison operator with const char *
     bool operator==(const Char* c_str) const {
-        if (Base::_data == nullptr && c_str == nullptr) {
-            return true;
-        }
-
-        if (Base::_data == nullptr || c_str == nullptr) {
-            return false;
+        if (c_str == nullptr) {
+            return Base::_data == nullptr;
         }
 
         size_t c_str_len = Traits::length(c_str);
@@ -293,12 +289,8 @@ public:
 
     // Specialized equality comparison operator with const char *
     bool operator==(const Char* c_str) const {
-        if (Base::_data == nullptr && c_str == nullptr) {
-            return true;
-        }
-
-        if (Base::_data == nullptr || c_str == nullptr) {
-            return false;
+        if (c_str == nullptr) {
+            return Base::_data == nullptr;
         }
 
         size_t c_str_len = Traits::length(c_str);
-- 
2.43.0


From 9c19d4c0fc4d5862798034e2f359bb49cc7c624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:52 +0000
Subject: [PATCH 11/83] fix: String append/assign/insert/+= accept their own
 contents; insert leaves room for the terminator

---
 include/efp/string.hpp | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 395e213..7ecd4b4 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -102,7 +102,9 @@ public:
     }
 
     Vector& operator+=(const Vector& other) {
-        for (size_t i = 0; i < other.size(); ++i) {
+        const size_t len = other.size();  // other may be this string
+
+        for (size_t i = 0; i < len; ++i) {
             Base::push_back(other[i]);
         }
 
@@ -110,13 +112,7 @@ public:
     }
 
     Vector& append(const Char* c_str) {
-        const size_t len = Traits::length(c_str);
-
-        for (size_t i = 0; i < len; ++i) {
-            Base::push_back(c_str[i]);
-        }
-
-        return *this;
+        return *this += Vector(c_str);  // c_str may point into this string
     }
 
     Vector& append(size_t n, Char c) {
@@ -128,8 +124,7 @@ public:
     }
 
     Vector& assign(const Char* c_str) {
-        Base::clear();
-        return append(c_str);
+        return *this = Vector(c_str);  // c_str may point into this string
     }
 
     Vector& assign(size_t n, Char c) {
@@ -142,20 +137,7 @@ public:
             throw RuntimeError("Index out of range");
         }
 
-        const size_t len = Traits::length(c_str);
-        Base::reserve(Base::_size + len);
-
-        for (size_t i = Base::_size; i > pos; --i) {
-            Base::_data[i + len - 1] = Base::_data[i - 1];
-        }
-
-        for (size_t i = 0; i < len; ++i) {
-            Base::_data[pos + i] = c_str[i];
-        }
-
-        Base::_size += len;
-
-        return *this;
+        return insert(pos, c_str, Traits::length(c_str));
     }
 
     Vector& insert(size_t pos, const Char* c_str, size_t n) {
@@ -163,6 +145,8 @@ public:
             throw RuntimeError("Index out of range");
         }
 
+        const Vector copy(c_str, n);  // c_str may point into this string
+
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + n + 1);
 
@@ -171,7 +155,7 @@ public:
         }
 
         for (size_t i = 0; i < n; ++i) {
-            Base::_data[pos + i] = c_str[i];
+            Base::_data[pos + i] = copy[i];
         }
 
         Base::_size += n;
-- 
2.43.0


From 686a85827ad16de244f531dcc3709000f4ca60cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:52 +0000
Subject: [PATCH 12/83] fix: String compare takes both lengths into account

---
 include/efp/string.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 7ecd4b4..298be2d 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -197,7 +197,7 @@ public:
     // todo find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of
 
     int compare(const Vector& other) const {
-        return Traits::compare(Base::_data, other.data(), Base::_size);
+        return compare(0, Base::_size, other);
     }
 
     int compare(size_t pos, size_t len, const Vector& other) const {
@@ -209,7 +209,10 @@ public:
             len = Base::_size - pos;
         }
 
-        return Traits::compare(Base::_data + pos, other.data(), len);
+        const int order =
+            Traits::compare(Base::_data + pos, other.data(), len < other.size() ? len : other.size());
+
+        return order != 0 ? order : (len > other.size()) - (len < other.size());
     }
 
     const Char* c_str() const {
-- 
2.43.0


From 4f74be847cb047cca648c9f2ee54cd5c434c3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:52 +0000
Subject: [PATCH 13/83] fix: c_str of a String without storage dereferences a
 null pointer

---
 include/efp/string.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 298be2d..148eddd 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -216,6 +216,12 @@ public:
     }
 
     const Char* c_str() const {
+        static const Char empty_c_str = Char();
+
+        if (Base::_data == nullptr) {
+            return &empty_c_str;
+        }
+
         Base::_data[Base::_size] = '\0';
         return Base::_data;
     }
-- 
2.43.0


From f2828f45ec7019c5c7bdfa2a6137a2d478abe0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:52 +0000
Subject: [PATCH 14/83] fix: equality of StringViews built from strings depends
 on the default capacity

---
 include/efp/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 148eddd..f87dc95 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -267,12 +267,14 @@ public:
 
     VectorView(const Char* c_str) {
         Base::_size = Traits::length(c_str);
+        Base::_capacity = Base::_size;
         Base::_data = c_str;
     }
 
     // todo basic_string_view(const efp::BasicString<Char>& s) noexcept
     VectorView(const Vector<Char>& s) noexcept {
         Base::_size = s.size();
+        Base::_capacity = s.size();
         Base::_data = s.data();
     }
 
-- 
2.43.0


From 335035035ad3ab4020c48a554a283003f9c3decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:41 +0000
Subject: [PATCH 15/83] fix: append relies on the unspecified evaluation order
 of function arguments

---
 include/efp/prelude.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 8a9fc99..660f73d 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -241,7 +241,9 @@ auto append(const As& as, const Ass&... ass) -> AppendReturn<As, Ass...> {
     }
 
     size_t idx = 0;
-    execute_pack(detail::append_impl(idx, res, as), detail::append_impl(idx, res, ass)...);
+    // Elements of a braced list are evaluated in order, function arguments are not
+    const Unit in_order[] {detail::append_impl(idx, res, as), detail::append_impl(idx, res, ass)...};
+    (void)in_order;
 
     return res;
 }
-- 
2.43.0


From 848691b3840c2dc437edfacc67c7005fc0b74449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:41 +0000
Subject: [PATCH 16/83] fix: compose keeps references to temporary callables

---
 include/efp/prelude.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 660f73d..28e663f 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -26,7 +26,7 @@ struct Composed {};
 
 template<typename F>
 struct Composed<F> {
-    const F& f;
+    const FuncToFuncPtr<F> f;
 
     Composed(const F& f) : f(f) {}
 
@@ -38,7 +38,7 @@ struct Composed<F> {
 
 template<typename F, typename... Fs>
 struct Composed<F, Fs...> {
-    const F& f;
+    const FuncToFuncPtr<F> f;
     const Composed<Fs...> fs;
 
     Composed(const F& f, const Fs&... fs) : f(f), fs(Composed<Fs...>(fs...)) {}
-- 
2.43.0


From 4134837f8aaf8ae55b197c70fe673a2e8a5f2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:41 +0000
Subject: [PATCH 17/83] fix: take_while and drop_while do not compile for any
 sequence

---
 include/efp/prelude.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 28e663f..03dfdca 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -877,8 +877,8 @@ auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
 template<typename As>
 using TakeWhileReturn = Conditional<
     IsStaticCapacity<As>::value,
-    ArrVecView<Element<As>, CtCapacity<As>::value>,
-    VectorView<Element<As>>>;
+    ArrVecView<const Element<As>, CtCapacity<As>::value>,
+    VectorView<const Element<As>>>;
 
 template<typename As, typename F = bool (*)(const Element<As>&)>
 auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
@@ -897,8 +897,8 @@ auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
 template<typename As>
 using DropWhileReturn = Conditional<
     IsStaticCapacity<As>::value,
-    ArrVecView<Element<As>, CtCapacity<As>::value>,
-    VectorView<Element<As>>>;
+    ArrVecView<const Element<As>, CtCapacity<As>::value>,
+    VectorView<const Element<As>>>;
 
 template<typename As, typename F = bool (*)(const Element<As>&)>
 auto drop_while(const F& f, const As& as) -> DropWhileReturn<As> {
-- 
2.43.0


From 0dc47bbfc07d72a8d86704d5a16935e18fdf84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:41 +0000
Subject: [PATCH 18/83] fix: cartesian_for_each_mut hands out a const copy of
 the outer elements

---
 include/efp/prelude.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 03dfdca..6d40c7d 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -427,7 +427,7 @@ void cartesian_for_each_mut(const F& f, As& as, Ass&... ass) {
     const auto as_len = length(as);
 
     for (size_t i = 0; i < as_len; ++i) {
-        const auto a = nth(i, as);
+        auto& a = nth(i, as);
         const auto inner = [&](Element<Ass>&... xs) { f(a, xs...); };
 
         cartesian_for_each_mut(inner, ass...);
-- 
2.43.0


From 1e7315d0b9ac4694580f9bb511af2724e10e12a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:41 +0000
Subject: [PATCH 19/83] fix: max_elem of negative floating point elements
 returns the smallest positive value

---
 include/efp/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 26dc0bc..3b08601 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -113,7 +113,7 @@ namespace efp {
 
 template<typename As>
 constexpr Element<As> max_elem(const As& as) {
-    return foldl(max, NumericLimits<Element<As>>::min(), as);
+    return foldl(max, NumericLimits<Element<As>>::lowest(), as);
 }
 
 template<typename As>
-- 
2.43.0


From d62732e253a81a7aa051790d1f6dd01f8a61460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:41 +0000
Subject: [PATCH 20/83] fix: _maximum of negative floating point values returns
 the smallest positive value

---
 include/efp/meta.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 6e531f7..aa866d7 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -798,7 +798,7 @@ constexpr bool _any(const bool (&bs)[n]) {
 // _maximum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _maximum(const A (&as)[n]) {
-    return _foldl(max<A>, NumericLimits<A>::min(), as);
+    return _foldl(max<A>, NumericLimits<A>::lowest(), as);
 }
 
 // _minimum :: [A] -> A
-- 
2.43.0


From 11d9e5ebd904dd095b98c898262458193aca1a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:41 +0000
Subject: [PATCH 21/83] fix: linear_regression_with_index overflows int for
 more than 1290 elements

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index a5a4ad9..06c5a7f 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -152,7 +152,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     };
 
     const auto ss_ia = sum(map_with_index(get_ss_ia, as));
-    const auto ss_ii = n * (n * n - 1) / 12.;
+    const auto ss_ii = (double)n * ((double)n * n - 1) / 12.;
 
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
-- 
2.43.0


From a4f76fecd5cbb523604927bb12161f355dec16b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:41 +0000
Subject: [PATCH 22/83] fix: timsort skips exactly the merges that are needed

---
 include/efp/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index afb6be4..7efddd0 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -156,7 +156,7 @@ void timsort_merge(Vector<A>& arr, size_t start, size_t mid, size_t end, const F
     size_t start2 = mid + 1;
 
     // If the direct merge is already sorted
-    if (!comp(arr[mid], arr[start2]))
+    if (!comp(arr[start2], arr[mid]))
         return;
 
     // Two posize_ters to masize_tain start of both arrays to merge
-- 
2.43.0


From 255fa2f85978dc3d443ebf2d766e0ed81c1fb787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:41 +0000
Subject: [PATCH 23/83] fix: merge sort is not stable on equal elements

---
 include/efp/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index 7efddd0..3522ea3 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -24,7 +24,7 @@ void merge(Vector<A>& arr, size_t left, size_t middle, size_t right, const F& co
 
     size_t i = 0, j = 0, k = left;
     while (i < n1 && j < n2) {
-        if (comp(lefts[i], rights[j])) {
+        if (!comp(rights[j], lefts[i])) {
             arr[k] = lefts[i++];
         } else {
             arr[k] = rights[j++];
-- 
2.43.0


From e53964a3b64478b10a1f46b229115e826aae8570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:41 +0000
Subject: [PATCH 24/83] fix: NonBlockingQ::is_empty races with enqueue and
 dequeue

---
 include/efp/concurrency.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 5f137bb..2205c71 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -128,6 +128,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
@@ -169,6 +170,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
-- 
2.43.0


From caedc408771740f625506d9b5c32b2019f6a238e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:10 +0000
Subject: [PATCH 25/83] fix: slice with bounds beyond the sequence yields a
 view outside of its storage

---
 include/efp/prelude.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 6d40c7d..e054db3 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -864,12 +864,20 @@ using SliceReturn = TakeReturn<
 // todo Optimization
 template<typename S, typename E, typename As>
 auto slice(S start, E end, const As& as) -> SliceReturn<S, E, As, true> {
-    return SliceReturn<S, E, As, true>(data(as) + start, end - start);
+    const size_t as_len = length(as);
+    const size_t bound_end = min(static_cast<size_t>(end), as_len);
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, true>(data(as) + bound_start, bound_end - bound_start);
 }
 
 template<typename S, typename E, typename As>
 auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
-    return SliceReturn<S, E, As, false>(data(as) + start, end - start);
+    const size_t as_len = length(as);
+    const size_t bound_end = min(static_cast<size_t>(end), as_len);
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, false>(data(as) + bound_start, bound_end - bound_start);
 }
 
 // take_while
-- 
2.43.0


From cae8c47c5b2bacdce7242c545773c9964a7145cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:10 +0000
Subject: [PATCH 26/83] fix: copying or moving a Vcq reads the wrong slots once
 its front has advanced

---
 include/efp/cyclic.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index efb6db3..777b7a9 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -183,8 +183,8 @@ class Vcq {
         for (size_t i = 0; i < other._size; ++i) {
             const auto j =
                 read_offset + i < ct_capacity ? read_offset + i : read_offset + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._buffer[j]);
+            new (_buffer + ct_capacity + j) A(other._buffer[ct_capacity + j]);
         }
 
         _size = other._size;
@@ -206,8 +206,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._buffer[j]);
+            new (_buffer + ct_capacity + j) A(other._buffer[ct_capacity + j]);
         }
 
         _size = other._size;
@@ -222,8 +222,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
@@ -245,8 +245,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
-- 
2.43.0


From 52053f2f2dd9eda0817e2fcca4efed05f958b883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:10 +0000
Subject: [PATCH 27/83] fix: self assignment of Vcb and Vcq copies from
 destroyed elements

---
 include/efp/cyclic.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 777b7a9..97fca09 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -31,6 +31,10 @@ class Vcb {
     }
 
     Vcb& operator=(const Vcb& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(other._buffer[i]);
@@ -47,7 +51,11 @@ class Vcb {
         _data = _buffer + (other._data - other._buffer);
     }
 
-    Vcb operator=(Vcb&& other) noexcept {
+    Vcb& operator=(Vcb&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(efp::move(other._buffer[i]));
@@ -193,6 +201,10 @@ class Vcq {
     }
 
     Vcq& operator=(const Vcq& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
@@ -232,6 +244,10 @@ class Vcq {
     }
 
     Vcq& operator=(Vcq&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
-- 
2.43.0


From 67fd7b7012d35a6f0bcb2fddef5365bee627c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:10 +0000
Subject: [PATCH 28/83] fix: iterating an empty Vcq visits ct_capacity dead
 elements

---
 include/efp/cyclic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 97fca09..529a88d 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -349,11 +349,11 @@ class Vcq {
     }
 
     const A* end() const {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
     A* end() {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
   private:
-- 
2.43.0


From d5a3dfab30d3acb5898e7763b749230822138beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:10 +0000
Subject: [PATCH 29/83] fix: pushing the oldest element of a full Vcq copies
 from a destroyed element

---
 include/efp/cyclic.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 529a88d..8ebcfe4 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -290,13 +290,15 @@ class Vcq {
     }
 
     void push_back(const A& value) {
+        const A copy(value);  // value may be the oldest element, which is about to be destroyed
+
         if (_size == ct_capacity) {  // Has to destroy the oldest element if the buffer is full
             _write->~A();
             (_write + ct_capacity)->~A();
         }
 
-        new (_write) A {value};
-        new (_write + ct_capacity) A {value};
+        new (_write) A {copy};
+        new (_write + ct_capacity) A {copy};
 
         ++_write;
         _write -= ct_capacity * (_write == _buffer + ct_capacity);
-- 
2.43.0


From d239f1c88856de4ac8bdf12b9ec06cf10936e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:10 +0000
Subject: [PATCH 30/83] fix: modifications of Vcb and Vcq elements are lost
 when the buffer wraps around

---
 include/efp/cyclic.hpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 8ebcfe4..6500803 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -87,7 +87,14 @@ class Vcb {
         new (_data + ct_size) A {value};
 
         ++_data;
-        _data -= ct_size * (_data == _buffer + ct_capacity);
+        if (_data == _buffer + ct_capacity) {
+            // The window moves to the first half, elements may have been modified in the second
+            for (size_t i = 0; i < ct_size; ++i) {
+                (_buffer + i)->~A();
+                new (_buffer + i) A(_buffer[ct_size + i]);
+            }
+            _data = _buffer;
+        }
     }
 
     constexpr SizeType size() const {
@@ -307,7 +314,7 @@ class Vcq {
             ++_size;
         } else {
             _read++;
-            _read -= ct_capacity * (_read == _buffer + ct_capacity);
+            _wrap_read();
         }
     }
 
@@ -321,7 +328,7 @@ class Vcq {
         _size--;
 
         _read++;
-        _read -= ct_capacity * (_read == _buffer + ct_capacity);
+        _wrap_read();
 
         return value;
     }
@@ -359,6 +366,17 @@ class Vcq {
     }
 
   private:
+    void _wrap_read() {
+        if (_read == _buffer + ct_capacity) {
+            // Elements move to the first half, they may have been modified in the second
+            for (size_t i = 0; i < _size; ++i) {
+                (_buffer + i)->~A();
+                new (_buffer + i) A(_buffer[ct_capacity + i]);
+            }
+            _read = _buffer;
+        }
+    }
+
     RawStorage<A, 2 * ct_capacity> _buffer;
 
     size_t _size = 0;
-- 
2.43.0


From 411400ce48f8c050a5e079ea429daa014ea13ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 31/83] fix: moving a File loses its mode and leaks the file it
 is assigned over

---
 include/efp/io.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 82daea1..97d05e0 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -38,12 +38,17 @@ public:
     File& operator=(const File&) = delete;
 
     File(File&& other) noexcept : _file(other._file) {
+        std::memcpy(_mode, other._mode, sizeof(_mode));
         other._file = nullptr;
     }
 
     File& operator=(File&& other) noexcept {
         if (this != &other) {
+            if (_file)
+                std::fclose(_file);
+
             _file = other._file;
+            std::memcpy(_mode, other._mode, sizeof(_mode));
             other._file = nullptr;
         }
         return *this;
-- 
2.43.0


From 507b87fb5b7277f0ff9e95d8ce72e7210b8d7b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 32/83] fix: a File whose close failed closes the same stream
 again on destruction

---
 include/efp/io.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 97d05e0..d5c99e2 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -150,9 +150,10 @@ public:
     }
 
     bool close() {
-        if (_file && std::fclose(_file) != EOF) {
-            _file = nullptr;
-            return true;
+        if (_file) {
+            FILE* file = _file;
+            _file = nullptr;  // The stream is gone even if closing it fails
+            return std::fclose(file) != EOF;
         }
 
         return false;
-- 
2.43.0


From b2e79e8751b26db071ebc318e645e9c6920b1583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 33/83] fix: writing a String in text mode stops at an embedded
 NUL

---
 include/efp/io.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index d5c99e2..a936502 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -128,13 +128,7 @@ public:
         if (_file == nullptr)
             return false;
 
-        if (std::strchr(_mode, 'b')) {
-            // Write binary data
-            size_t written = std::fwrite(data.data(), sizeof(char), data.size(), _file);
-            return written == data.size();
-        } else {
-            return std::fputs(data.c_str(), _file) != EOF;
-        }
+        return write(data.data(), data.size());
     }
 
     int flush() {
-- 
2.43.0


From 87e60cc0d1f1b993041377e9c396c93c1d040163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 34/83] fix: flush, seek and tell on a closed File use a null
 stream

---
 include/efp/io.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index a936502..90a3b82 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -132,15 +132,15 @@ public:
     }
 
     int flush() {
-        return std::fflush(_file);
+        return _file ? std::fflush(_file) : EOF;
     }
 
     bool seek(long offset) {
-        return std::fseek(_file, offset, SEEK_SET) == 0;
+        return _file && std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
     int tell() {
-        return std::ftell(_file);
+        return _file ? std::ftell(_file) : -1;
     }
 
     bool close() {
-- 
2.43.0


From 447c83b624df68364eb0950d1837e8417ea54792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 35/83] fix: Enum with more than 128 alternatives does not
 compile

---
 include/efp/enum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index e81e4f3..32838aa 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -8,8 +8,8 @@ namespace efp {
 namespace detail {
 
     // Use bit operation and recursion
-    constexpr uint8_t power_2_ceiling(uint8_t n, uint8_t power = 2) {
-        return (power >= n) ? power - 1 : power_2_ceiling(n, power << 1);
+    constexpr uint8_t power_2_ceiling(uint8_t n, size_t power = 2) {
+        return (power >= n) ? static_cast<uint8_t>(power - 1) : power_2_ceiling(n, power << 1);
     }
 
     // clang-format off
-- 
2.43.0


From f119284324a9d124d15d64654bf63c3a4cedb296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 36/83] fix: const move out of an Enum or Maybe does not
 compile

---
 include/efp/enum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index 32838aa..bfe9636 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -358,7 +358,7 @@ namespace detail {
                 throw RuntimeError("Invalid alternative index");
             }
 
-            return efp::move(*reinterpret_cast<Alt*>(&_storage));
+            return efp::move(*reinterpret_cast<const Alt*>(&_storage));
         }
 
         template<typename Alt>
@@ -376,7 +376,7 @@ namespace detail {
                 throw RuntimeError("Invalid alternative index");
             }
 
-            return efp::move(*reinterpret_cast<PackAt<i, A, As...>*>(&_storage));
+            return efp::move(*reinterpret_cast<const PackAt<i, A, As...>*>(&_storage));
         }
 
         template<uint8_t i>
-- 
2.43.0


From da97b391d70d80e791cc0c9e1d680b23ffc06e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:08 +0000
Subject: [PATCH 37/83] fix: comparing two Maybes does not compile

---
 include/efp/maybe.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/efp/maybe.hpp b/include/efp/maybe.hpp
index d6d04a5..e10d401 100644
--- a/include/efp/maybe.hpp
+++ b/include/efp/maybe.hpp
@@ -7,7 +7,15 @@
 
 namespace efp {
 
-struct Nothing {};
+struct Nothing {
+    constexpr bool operator==(const Nothing&) const noexcept {
+        return true;
+    }
+
+    constexpr bool operator!=(const Nothing&) const noexcept {
+        return false;
+    }
+};
 
 constexpr Nothing nothing;
 
-- 
2.43.0


From 9d7fdf9b35c136e0b70e9f5c4c4fdb0e21ef0a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:02 +0000
Subject: [PATCH 38/83] fix: moving an ArrVec leaves its moved-from elements
 undestroyed

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 4b236f8..bda5950 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -273,10 +273,10 @@ public:
     }
 
     ArrVec(ArrVec&& other) noexcept : _size {other._size} {
-        other._size = 0;
         for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {efp::move(other._data[i])};
         }
+        other.clear();  // The moved-from elements still have to be destroyed
     }
 
     ArrVec& operator=(ArrVec&& other) noexcept {
@@ -293,7 +293,7 @@ public:
             }
 
             // Reset the source object
-            other._size = 0;
+            other.clear();
         }
         return *this;
     }
-- 
2.43.0


From e350c9add1d99e789f0ce894b65baebd369f2c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:52 +0000
Subject: [PATCH 39/83] fix: Maybe member functions cannot be chained or called
 on a const Maybe

---
 include/efp/maybe.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/efp/maybe.hpp b/include/efp/maybe.hpp
index e10d401..9d8147e 100644
--- a/include/efp/maybe.hpp
+++ b/include/efp/maybe.hpp
@@ -67,7 +67,7 @@ public:
     }
 
     template<typename F>
-    auto fmap(const F& f) -> Enum<Nothing, InvokeResult<F, A>> const {
+    auto fmap(const F& f) const -> Enum<Nothing, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
@@ -75,7 +75,7 @@ public:
     }
 
     template<typename F>
-    auto ap(const Enum<Nothing, F>& mf) -> Enum<Nothing, InvokeResult<F, A>> const {
+    auto ap(const Enum<Nothing, F>& mf) const -> Enum<Nothing, InvokeResult<F, A>> {
         if (has_value() && mf.has_value())
             return mf.value()(value());
         else
@@ -83,8 +83,8 @@ public:
     }
 
     template<typename F>
-    auto bind(const F& f)
-        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> const {
+    auto bind(const F& f) const
+        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
@@ -92,8 +92,8 @@ public:
     }
 
     template<typename F>
-    auto operator>>=(const F& f)
-        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> const {
+    auto operator>>=(const F& f) const
+        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
-- 
2.43.0


From e6277423ce7dae4e6d21f05e0499a7e1bfcef84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:49 +0000
Subject: [PATCH 40/83] fix: DoubleBuffer of a std element type does not
 compile (ambiguous swap)

---
 include/efp/concurrency.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 2205c71..5433e77 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -221,7 +221,7 @@ public:
 
     void swap_buffer() {
         _spinlock.lock();
-        swap(_write_buffer, _read_buffer);
+        efp::swap(_write_buffer, _read_buffer);
         _spinlock.unlock();
     }
 
-- 
2.43.0


From b8eb0687a88487de4603358634942aa533147236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:49 +0000
Subject: [PATCH 41/83] fix: comparing nested containers or tuples of
 containers does not compile before C++20

---
 include/efp/meta.hpp     | 2 +-
 include/efp/sequence.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index aa866d7..82f83ab 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -650,7 +650,7 @@ namespace detail {
     struct TupleLeafComparatorImpl {
         template<typename... As>
         static bool compare(const Tuple<As...>& lhs, const Tuple<As...>& rhs) {
-            if (lhs.template get<index>() != rhs.template get<index>())
+            if (!(lhs.template get<index>() == rhs.template get<index>()))
                 return false;
             return TupleLeafComparatorImpl<index - 1>::compare(lhs, rhs);
         }
diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index bda5950..a3c77ad 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -116,7 +116,7 @@ public:
 
     bool operator==(const Array& other) const {
         for (size_t i = 0; i < ct_size; ++i) {
-            if (_data[i] != other._data[i]) {
+            if (!(_data[i] == other._data[i])) {
                 return false;
             }
         }
@@ -339,7 +339,7 @@ public:
         }
 
         for (size_t i = 0; i < _size; ++i) {
-            if (_data[i] != other._data[i]) {
+            if (!(_data[i] == other._data[i])) {
                 return false;
             }
         }
@@ -692,7 +692,7 @@ namespace detail {
             }
 
             for (size_t i = 0; i < _size; ++i) {
-                if (_data[i] != other._data[i]) {
+                if (!(_data[i] == other._data[i])) {
                     return false;
                 }
             }
-- 
2.43.0


From 86795ac92177805fc6a97cb4f36e5b2c8a9a4ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:28 +0000
Subject: [PATCH 42/83] fix: unstable sorts of elements such as Vectors do not
 compile (ambiguous swap)

---
 include/efp/sort.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index 3522ea3..608ec6e 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -65,7 +65,7 @@ void max_heapify_by(Vector<A>& arr, size_t n, size_t i, const F& comp) {
         largest = right;
 
     if (largest != i) {
-        swap(arr[i], arr[largest]);
+        efp::swap(arr[i], arr[largest]);
         max_heapify_by(arr, n, largest, comp);
     }
 }
@@ -84,7 +84,7 @@ void heapsort_by(Vector<A>& arr, const F& comp) {
 
     // One by one extract an element from heap
     for (size_t i = n; i-- > 1;) {  // Start from n and decrement; stop at 1 to avoid underflow
-        swap(arr[0], arr[i]);       // Move current root to end
+        efp::swap(arr[0], arr[i]);       // Move current root to end
         max_heapify_by(arr, i, 0, comp);  // call max heapify on the reduced heap
     }
 }
@@ -122,10 +122,10 @@ size_t partition_by(Vector<A>& arr, size_t low, size_t high, const F& comp) {
     for (size_t j = low; j < high; j++) {
         if (comp(arr[j], pivot)) {
             i++;
-            swap(arr[i], arr[j]);
+            efp::swap(arr[i], arr[j]);
         }
     }
-    swap(arr[i + 1], arr[high]);
+    efp::swap(arr[i + 1], arr[high]);
     return (i + 1);
 }
 
-- 
2.43.0


From d4072a9e4250314db9bcf768f415241ac2257b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:18 +0000
Subject: [PATCH 43/83] fix: views of a non-const std::string do not compile
 before C++17

---
 include/efp/sequence.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index a3c77ad..3899f48 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1593,7 +1593,8 @@ constexpr auto data(const std::basic_string<A>& as) -> const A* {
 
 template<typename A>
 constexpr auto data(std::basic_string<A>& as) -> A* {
-    return as.data();
+    // The non-const data() exists from C++17 on only
+    return &as[0];
 }
 
 };  // namespace efp
-- 
2.43.0


From 8dc22ddd11248a56ecb3fb3384903f5ba43dedf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:11 +0000
Subject: [PATCH 44/83] fix: linear_regression_with_index and detrend do not
 compile for float results

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index 06c5a7f..3454adb 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -157,7 +157,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
 
-    return tuple(beta_1, beta_2);
+    return tuple(static_cast<R>(beta_1), static_cast<R>(beta_2));
 }
 
 template<typename R, typename As>
-- 
2.43.0


From 6d47d6cc284bce964dc44524dec12f436ceb7a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:11 +0000
Subject: [PATCH 45/83] fix: detrend squeezes the index into the element type

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index 3454adb..47eddec 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -166,7 +166,7 @@ NAryReturn<R, As> detrend(const As& as) {
     const auto beta_1 = get<0>(betas);
     const auto beta_2 = get<1>(betas);
 
-    const auto detrend_elem = [&](const Element<As>& i, const Element<As>& x) {
+    const auto detrend_elem = [&](const size_t& i, const Element<As>& x) {
         return (R)x - (beta_1 * (R)i + beta_2);
     };
 
-- 
2.43.0


From 9bad7ca0e46d9754149d2e3a5d2567f587a624f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:08 +0000
Subject: [PATCH 46/83] fix: infinities and NaN are padded on the wrong side
 and ignore an explicit fill of 0

---
 include/efp/fmt/format.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index 4e3c797..f77ec0e 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -2705,11 +2705,11 @@ write_nonfinite(OutputIt out, bool isnan, format_specs<Char> specs, const float_
     auto sign = fspecs.sign;
     auto size = str_size + (sign ? 1 : 0);
     // Replace '0'-padding with space for non-finite values.
-    const bool is_zero_fill =
-        specs.fill.size() == 1 && *specs.fill.data() == static_cast<Char>('0');
+    const bool is_zero_fill = specs.align == align::numeric && specs.fill.size() == 1
+        && *specs.fill.data() == static_cast<Char>('0');
     if (is_zero_fill)
         specs.fill[0] = static_cast<Char>(' ');
-    return write_padded(out, specs, size, [=](reserve_iterator<OutputIt> it) {
+    return write_padded<align::right>(out, specs, size, [=](reserve_iterator<OutputIt> it) {
         if (sign)
             *it++ = detail::sign<Char>(sign);
         return copy_str<Char>(str, str + str_size, it);
-- 
2.43.0


From 98b7700f9ac4b418dac6fcc0fc7998fd67e32d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:08 +0000
Subject: [PATCH 47/83] fix: hexadecimal format of zero shows the exponent of
 subnormals

---
 include/efp/fmt/format.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index f77ec0e..6b9af4a 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -3501,6 +3501,8 @@ format_hexfloat(Float value, int precision, float_specs specs, buffer<char>& buf
     f.e += num_float_significand_bits;
     if (!has_implicit_bit<Float>())
         --f.e;
+    if (f.f == 0)
+        f.e = 0;
 
     constexpr auto num_fraction_bits =
         num_float_significand_bits + (has_implicit_bit<Float>() ? 1 : 0);
-- 
2.43.0


From 260217d03649e93b43eab52fd421c8c57d9994bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:08 +0000
Subject: [PATCH 48/83] fix: hexadecimal floating-point format rounds ties up
 instead of to even

---
 include/efp/fmt/format.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index 6b9af4a..fae71e3 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -3520,8 +3520,12 @@ format_hexfloat(Float value, int precision, float_specs specs, buffer<char>& buf
         const auto mask = carrier_uint(0xF) << shift;
         const auto v = static_cast<uint32_t>((f.f & mask) >> shift);
 
-        if (v >= 8) {
-            const auto inc = carrier_uint(1) << (shift + 4);
+        const auto inc = carrier_uint(1) << (shift + 4);
+        const auto rest = f.f & (inc - 1);
+        const bool is_tie = rest == inc / 2;
+
+        // Round half to even
+        if (is_tie ? (f.f & inc) != 0 : v >= 8) {
             f.f += inc;
             f.f &= ~(inc - 1);
         }
-- 
2.43.0


From c79698cc59710be8d25046412bd84e3aec5d9ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:08 +0000
Subject: [PATCH 49/83] fix: zero padding of the hexadecimal floating-point
 format goes before the 0x prefix

---
 include/efp/fmt/format.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index fae71e3..76f1114 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -3928,6 +3928,15 @@ EFP_FMT_CONSTEXPR20 auto write_float(OutputIt out, T value, format_specs<Char> s
         if (fspecs.sign)
             buffer.push_back(detail::sign<char>(fspecs.sign));
         format_hexfloat(convert_float(value), specs.precision, fspecs, buffer);
+        if (specs.align == align::numeric) {
+            // The zeros go between the 0x prefix and the digits
+            auto it = reserve(out, 2);
+            *it++ = static_cast<Char>(buffer[0]);
+            *it++ = static_cast<Char>(buffer[1]);
+            out = base_iterator(out, it);
+            specs.width = specs.width > 2 ? specs.width - 2 : 0;
+            return write_bytes<align::right>(out, {buffer.data() + 2, buffer.size() - 2}, specs);
+        }
         return write_bytes<align::right>(out, {buffer.data(), buffer.size()}, specs);
     }
     int precision =
-- 
2.43.0


From a32a4d65f6c282ea7e22ecfe4790c53e30e26775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:33 +0000
Subject: [PATCH 50/83] fix: fixed format with more than 767 digits loses
 trailing zeros

---
 include/efp/fmt/format.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index 76f1114..730ccc6 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -3883,9 +3883,17 @@ EFP_FMT_CONSTEXPR20 auto format_float(Float value, int precision, float_specs sp
         // Limit precision to the maximum possible number of significant digits in
         // an IEEE754 double because we don't need to generate zeros.
         const int max_double_digits = 767;
-        if (precision > max_double_digits)
+        int num_omitted_zeros = 0;
+        if (precision > max_double_digits) {
+            num_omitted_zeros = precision - max_double_digits;
             precision = max_double_digits;
+        }
         format_dragon(f, dragon_flags, precision, buf, exp);
+        // The exponent format adds them on its own.
+        if (fixed || (specs.showpoint && specs.format == float_format::general)) {
+            for (exp -= num_omitted_zeros; num_omitted_zeros > 0; --num_omitted_zeros)
+                buf.push_back('0');
+        }
     }
     if (!fixed && !specs.showpoint) {
         // Remove trailing zeros.
-- 
2.43.0


From e33c7ee9ac23618276376d8b10b7ae4a5a51a9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:44 +0000
Subject: [PATCH 51/83] fix: formatting a sequence of Strings does not compile
 (ambiguous formatter)

---
 include/efp/format.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/format.hpp b/include/efp/format.hpp
index 42e2b7d..6116d0c 100644
--- a/include/efp/format.hpp
+++ b/include/efp/format.hpp
@@ -82,16 +82,16 @@ struct efp_fmt::formatter<efp::ArrVec<T, ct_cap>> {
     }
 };
 
-// Specialize efp_fmt::formatter for efp::Vector
-template<typename T, typename Allocator, typename Traits>
-struct efp_fmt::formatter<efp::Vector<T, Allocator, Traits>> {
+// Specialize efp_fmt::formatter for efp::Vector, strings have a formatter of their own
+template<typename T, typename Allocator>
+struct efp_fmt::formatter<efp::Vector<T, Allocator, void>> {
     template<typename ParseContext>
     constexpr auto parse(ParseContext& ctx) const -> format_parse_context::iterator {
         return ctx.begin();
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vector<T, Allocator, Traits>& vec, FormatContext& ctx)
+    auto format(const efp::Vector<T, Allocator, void>& vec, FormatContext& ctx)
         -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vec.begin(), vec.end(), ", "));
     }
-- 
2.43.0


From 37d88fc2ceb5181e960c723ce189c8336713676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:10 +0000
Subject: [PATCH 52/83] fix: formatting nested sequences does not compile
 (format is not const)

---
 include/efp/format.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/efp/format.hpp b/include/efp/format.hpp
index 6116d0c..c29a77c 100644
--- a/include/efp/format.hpp
+++ b/include/efp/format.hpp
@@ -58,7 +58,7 @@ struct efp_fmt::formatter<efp::Array<T, ct_size>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Array<T, ct_size>& arr, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Array<T, ct_size>& arr, FormatContext& ctx) const -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(arr.begin(), arr.end(), ", "));
     }
 };
@@ -72,7 +72,7 @@ struct efp_fmt::formatter<efp::ArrVec<T, ct_cap>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::ArrVec<T, ct_cap>& arrvec, FormatContext& ctx)
+    auto format(const efp::ArrVec<T, ct_cap>& arrvec, FormatContext& ctx) const
         -> format_context::iterator {
         return efp_fmt::format_to(
             ctx.out(),
@@ -91,7 +91,7 @@ struct efp_fmt::formatter<efp::Vector<T, Allocator, void>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vector<T, Allocator, void>& vec, FormatContext& ctx)
+    auto format(const efp::Vector<T, Allocator, void>& vec, FormatContext& ctx) const
         -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vec.begin(), vec.end(), ", "));
     }
@@ -106,7 +106,7 @@ struct efp_fmt::formatter<efp::Vcb<T, ct_size>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vcb<T, ct_size>& vcb, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Vcb<T, ct_size>& vcb, FormatContext& ctx) const -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vcb.begin(), vcb.end(), ", "));
     }
 };
@@ -120,7 +120,7 @@ struct efp_fmt::formatter<efp::Vcq<T, ct_cap>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vcq<T, ct_cap>& vcq, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Vcq<T, ct_cap>& vcq, FormatContext& ctx) const -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vcq.begin(), vcq.end(), ", "));
     }
 };
-- 
2.43.0


From 3d7e945de29ddef164b1f880f48ff7d603a752ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:22 +0000
Subject: [PATCH 53/83] fix: a precision without digits is accepted in format
 strings

---
 include/efp/fmt/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/fmt/core.h b/include/efp/fmt/core.h
index 75db77d..d35a2eb 100644
--- a/include/efp/fmt/core.h
+++ b/include/efp/fmt/core.h
@@ -2564,7 +2564,7 @@ EFP_FMT_CONSTEXPR auto parse_precision(
     basic_format_parse_context<Char>& ctx
 ) -> const Char* {
     ++begin;
-    if (begin == end || *begin == '}') {
+    if (begin == end || !(*begin == '{' || ('0' <= *begin && *begin <= '9'))) {
         throw_format_error("invalid precision");
         return begin;
     }
-- 
2.43.0


From bc328b4189d9397db6e8642e6a230dc9751e5fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 54/83] fix: a read error in the middle of a line returns the
 truncated line

---
 include/efp/io.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 90a3b82..b017c5a 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -68,8 +68,8 @@ public:
                 buffer.push_back(static_cast<char>(ch));
             }
 
-            // Check for EOF condition
-            if (ch == EOF && buffer.empty())
+            // Check for EOF condition, a line cut off by an error is not a line
+            if (ch == EOF && (buffer.empty() || !std::feof(_file)))
                 return nothing;
 
             return buffer;
-- 
2.43.0


From 19cd7dbd8a738826f4a2a957b07c66baf4679972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:15 +0000
Subject: [PATCH 55/83] fix: compositions cannot be called with arguments of
 std types

---
 include/efp/prelude.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index e054db3..8d67bb2 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -31,8 +31,8 @@ struct Composed<F> {
     Composed(const F& f) : f(f) {}
 
     template<typename... Arg>
-    inline auto operator()(Arg&&... arg) const -> decltype(f(forward<Arg>(arg)...)) {
-        return f(forward<Arg>(arg)...);
+    inline auto operator()(Arg&&... arg) const -> decltype(f(efp::forward<Arg>(arg)...)) {
+        return f(efp::forward<Arg>(arg)...);
     }
 };
 
@@ -44,8 +44,8 @@ struct Composed<F, Fs...> {
     Composed(const F& f, const Fs&... fs) : f(f), fs(Composed<Fs...>(fs...)) {}
 
     template<typename... Arg>
-    inline auto operator()(Arg&&... arg) const -> decltype(f(fs(forward<Arg>(arg)...))) {
-        return f(fs(forward<Arg>(arg)...));
+    inline auto operator()(Arg&&... arg) const -> decltype(f(fs(efp::forward<Arg>(arg)...))) {
+        return f(fs(efp::forward<Arg>(arg)...));
     }
 };
 
-- 
2.43.0


From 4338b3fdd1d7ab104e2cb30f686d0447dffb3dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:15 +0000
Subject: [PATCH 56/83] fix: _sum and _product accumulate in int whatever the
 element type

---
 include/efp/meta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 82f83ab..6089f50 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -810,13 +810,13 @@ constexpr A _minimum(const A (&as)[n]) {
 // _sum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _sum(const A (&as)[n]) {
-    return _foldl(op_add<A>, 0, as);
+    return _foldl(op_add<A>, static_cast<A>(0), as);
 }
 
 // _product :: [A] -> A
 template<typename A, size_t n>
 constexpr A _product(const A (&as)[n]) {
-    return _foldl(op_mul<A>, 1, as);
+    return _foldl(op_mul<A>, static_cast<A>(1), as);
 }
 
 // All
-- 
2.43.0


From 528895ec0b56011fafed464475a0b482453fdcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 57/83] fix: noexcept functions are not turned into function
 pointers

---
 include/efp/meta.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 6089f50..fd4f9f2 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -466,7 +466,8 @@ namespace detail {
     // Base template
     template<typename A>
     struct FuncToFuncPtrImpl {
-        using Type = A;  // Leave non-function types unchanged
+        // Leave non-function types unchanged
+        using Type = Conditional<IsFunction<A>::value, typename std::add_pointer<A>::type, A>;
     };
 
     // Specialization for regular and constexpr free functions
-- 
2.43.0


From ca13608304c20387155ec7947bcba9c051d63a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 58/83] fix: IsDefaultConstructible is false for every type

---
 include/efp/meta.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index fd4f9f2..854aed3 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -764,7 +764,7 @@ template<typename A, typename = void>
 struct IsDefaultConstructible: False {};
 
 template<typename A>
-struct IsDefaultConstructible<A, decltype(A())>: True {};
+struct IsDefaultConstructible<A, Void<decltype(A())>>: True {};
 
 // InitializerList
 
-- 
2.43.0


From 3e2bfb21d1effc83b8478e8339ea93994568082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:25 +0000
Subject: [PATCH 59/83] fix: IsInvocableR is false for every callable before
 C++17

---
 include/efp/meta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 854aed3..d241a3a 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -418,8 +418,8 @@ private:
     // A helper to try invoking the function and check the return type
     template<typename U>
     static auto test(int)
-        -> decltype(std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::
-                        type());
+        -> typename std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::
+            type;
 
     // Fallback if the above test fails
     template<typename>
-- 
2.43.0


From c573a3847e595221bfda9725f91e7fc49d91aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:01 +0000
Subject: [PATCH 60/83] fix: head and autocovariance reject sequences of user
 types (they need members beyond the Sequence trait)

---
 include/efp/prelude.hpp    | 2 +-
 include/efp/scientific.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 8d67bb2..497298e 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -515,7 +515,7 @@ void cartesian_for_index(const F& f, size_t n, const Ints&... is) {
 
 template<typename As>
 auto head(const As& as) -> const Element<As>& {
-    if (as.empty()) {
+    if (length(as) == 0) {
         throw RuntimeError("Sequence should not be empty");
     }
 
diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index 47eddec..ee46133 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -94,7 +94,7 @@ R autocovariance(const As& as, const int& lag) {
     R summation = 0;
 
     for_index(
-        [&](const int& i) { summation += (nth(i, as) - as_mean) * (as[i + lag] - as_mean); },
+        [&](const int& i) { summation += (nth(i, as) - as_mean) * (nth(i + lag, as) - as_mean); },
         sum_length
     );
 
-- 
2.43.0


From 03a58ba6d473ed006b95cbe0f7c442fa889e9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:51 +0000
Subject: [PATCH 61/83] fix: Vector and String with a non-default allocator do
 not compile

---
 include/efp/sequence.hpp | 2 +-
 include/efp/string.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 3899f48..ec02adc 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -994,7 +994,7 @@ template<
     typename = void>
 class Vector: public detail::VectorBase<A, Allocator> {
 public:
-    using Base = detail::VectorBase<A>;
+    using Base = detail::VectorBase<A, Allocator>;
     using Base::Base;
 
     bool operator==(const Vector& other) const {
diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index f87dc95..ce6ca2a 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -21,7 +21,7 @@ template<typename Char, typename Traits, typename Allocator>
 class Vector<Char, Allocator, Traits, EnableIf<detail::IsCharType<Char>::value>>:
     public detail::VectorBase<Char, Allocator> {
 public:
-    using Base = detail::VectorBase<Char>;
+    using Base = detail::VectorBase<Char, Allocator>;
     using Base::Base;
 
     using traits_type = Traits;
-- 
2.43.0


From f48740e215f16fc5cbf17ec26545244a835cfb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:27 +0000
Subject: [PATCH 62/83] fix: Vector returns memory it never obtained (a null
 pointer) to its allocator

---
 include/efp/sequence.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index ec02adc..d6ec1a3 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -615,7 +615,8 @@ namespace detail {
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
                 }
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data)
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
 
                 _data = other._data;
                 _size = other._size;
@@ -749,7 +750,8 @@ namespace detail {
                 }
 
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data)
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
 
                 _data = new_data;
                 _capacity = new_capacity;
@@ -777,7 +779,8 @@ namespace detail {
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
                 }
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data)
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
 
                 // Update data pointer and capacity
                 _data = new_data;
-- 
2.43.0


From 96619a7f209bda744dc5dc9409073c6ef1e0d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:08 +0000
Subject: [PATCH 63/83] fix: Enum with 256 alternatives does not compile

---
 include/efp/enum.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index bfe9636..cba4c89 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -8,7 +8,7 @@ namespace efp {
 namespace detail {
 
     // Use bit operation and recursion
-    constexpr uint8_t power_2_ceiling(uint8_t n, size_t power = 2) {
+    constexpr uint8_t power_2_ceiling(size_t n, size_t power = 2) {
         return (power >= n) ? static_cast<uint8_t>(power - 1) : power_2_ceiling(n, power << 1);
     }
 
@@ -28,10 +28,10 @@ namespace detail {
 
     // clang-format on
 
-    template<uint8_t stamp_n, uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<uint8_t stamp_n, size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch {};
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<2 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -43,7 +43,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<4 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -55,7 +55,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<8 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -67,7 +67,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<16 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -79,7 +79,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<32 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -91,7 +91,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<64 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -103,7 +103,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<128 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -115,7 +115,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<256 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -138,7 +138,7 @@ namespace detail {
 #undef EFP_STAMP128
 #undef EFP_STAMP256
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     using EnumSwitch = _EnumSwitch<power_2_ceiling(alt_num), alt_num, Case, Args...>;
 
     // todo Maybe support more than 256 alternatives
@@ -237,7 +237,7 @@ namespace detail {
     template<typename A, typename... As>
     class EnumBase {
     public:
-        constexpr static uint8_t alt_num = sizeof...(As) + 1;
+        constexpr static size_t alt_num = sizeof...(As) + 1;
 
         // Default constructor initializes the first alternative with default constructor
         EnumBase() : _index {0} {
-- 
2.43.0


From 122bd8152e61ea08819584c9a7a50e92604bd34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:58 +0000
Subject: [PATCH 64/83] fix: Arguments does not recognise noexcept callables in
 C++17 (match wildcards, func_ptr)

---
 include/efp/meta.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index d241a3a..b51a0e9 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -735,6 +735,24 @@ namespace detail {
     struct ArgumentsImpl<R (A::*)(Args...) const, void> {
         using Type = Tuple<Args...>;
     };
+
+#if __cplusplus >= 201703L
+    // noexcept is a part of the function type since C++17
+    template<typename R, typename... Args>
+    struct ArgumentsImpl<R (*)(Args...) noexcept, void> {
+        using Type = Tuple<Args...>;
+    };
+
+    template<typename R, typename A, typename... Args>
+    struct ArgumentsImpl<R (A::*)(Args...) noexcept, void> {
+        using Type = Tuple<Args...>;
+    };
+
+    template<typename R, typename A, typename... Args>
+    struct ArgumentsImpl<R (A::*)(Args...) const noexcept, void> {
+        using Type = Tuple<Args...>;
+    };
+#endif
 }  // namespace detail
 
 template<typename F>
-- 
2.43.0


From ce91e9d786ef446950f0161465a1caa38d2c0afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:46 +0000
Subject: [PATCH 65/83] fix: func_ptr does not compile for callables with
 rvalue reference or move-only parameters

---
 include/efp/c_utility.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/efp/c_utility.hpp b/include/efp/c_utility.hpp
index 439f0f3..dcd3de7 100644
--- a/include/efp/c_utility.hpp
+++ b/include/efp/c_utility.hpp
@@ -29,7 +29,9 @@ struct LambdaPointer {
     template<typename... Args>
     struct Helper<Tuple<Args...>> {
         static InvokeResult<F, Args...> call(Args... args) {
-            return (InvokeResult<F, Args...>)(*(F*)inner_ptr)(args...);
+            return (InvokeResult<F, Args...>)(*(F*)inner_ptr)(
+                efp::forward<Args>(args)...
+            );
         }
     };
 
-- 
2.43.0


From 2987efa85cb5dd39543a7d0580283a1bad57a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:46 +0000
Subject: [PATCH 66/83] fix: copies of elements with an initializer_list
 constructor are wrapped in a list instead of copied

---
 include/efp/cyclic.hpp   | 10 +++++-----
 include/efp/enum.hpp     |  4 ++--
 include/efp/sequence.hpp | 28 ++++++++++++++--------------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 6500803..8197945 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -83,8 +83,8 @@ class Vcb {
         _data->~A();
         (_data + ct_size)->~A();
 
-        new (_data) A {value};
-        new (_data + ct_size) A {value};
+        new (_data) A(value);
+        new (_data + ct_size) A(value);
 
         ++_data;
         if (_data == _buffer + ct_capacity) {
@@ -304,8 +304,8 @@ class Vcq {
             (_write + ct_capacity)->~A();
         }
 
-        new (_write) A {copy};
-        new (_write + ct_capacity) A {copy};
+        new (_write) A(copy);
+        new (_write + ct_capacity) A(copy);
 
         ++_write;
         _write -= ct_capacity * (_write == _buffer + ct_capacity);
@@ -321,7 +321,7 @@ class Vcq {
     // ! Undefined if empty
 
     A pop_front() {
-        A value {efp::move(*_read)};
+        A value(efp::move(*_read));
 
         _read->~A();
         (_read + ct_capacity)->~A();
diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index cba4c89..6672c93 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -416,7 +416,7 @@ namespace detail {
             using Alt = PackAt<i, A, As...>;
 
             static inline void call(EnumBase* self, const EnumBase& other) {
-                new (self->_storage) Alt {*reinterpret_cast<const Alt*>(&other._storage)};
+                new (self->_storage) Alt(*reinterpret_cast<const Alt*>(&other._storage));
             }
         };
 
@@ -425,7 +425,7 @@ namespace detail {
             using Alt = PackAt<i, A, As...>;
 
             static inline void call(EnumBase* self, EnumBase&& other) {
-                new (self->_storage) Alt {efp::move(*reinterpret_cast<Alt*>(&other._storage))};
+                new (self->_storage) Alt(efp::move(*reinterpret_cast<Alt*>(&other._storage)));
             }
         };
 
diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index d6ec1a3..77267ac 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -59,7 +59,7 @@ public:
 
     Array(const Array& other) {
         for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {other._data[i]};
+            new (_data + i) Element(other._data[i]);
         }
     }
 
@@ -67,7 +67,7 @@ public:
         if (this != &other) {
             for (size_t i = 0; i < ct_size; ++i) {
                 (_data + i)->~Element();                   // Destroy each element
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
+                new (_data + i) Element(other._data[i]);  // Copy-construct each element
             }
         }
         return *this;
@@ -75,7 +75,7 @@ public:
 
     Array(Array&& other) noexcept {
         for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {efp::move(other._data[i])};  // Move-construct each element
+            new (_data + i) Element(efp::move(other._data[i]));  // Move-construct each element
         }
     }
 
@@ -83,7 +83,7 @@ public:
         if (this != &other) {
             for (size_t i = 0; i < ct_size; ++i) {
                 (_data + i)->~Element();                              // Destroy each element
-                new (_data + i) Element {efp::move(other._data[i])};  // Move-construct each element
+                new (_data + i) Element(efp::move(other._data[i]));  // Move-construct each element
             }
         }
         return *this;
@@ -102,7 +102,7 @@ public:
 
         size_t index = 0;
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            new (_data + index++) Element(e);
         }
     }
 
@@ -253,7 +253,7 @@ public:
 
     ArrVec(const ArrVec& other) : _size {other._size} {
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {other._data[i]};
+            new (_data + i) Element(other._data[i]);
         }
     }
 
@@ -266,7 +266,7 @@ public:
             _size = other._size;
 
             for (size_t i = 0; i < _size; ++i) {
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
+                new (_data + i) Element(other._data[i]);  // Copy-construct each element
             }
         }
         return *this;
@@ -274,7 +274,7 @@ public:
 
     ArrVec(ArrVec&& other) noexcept : _size {other._size} {
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {efp::move(other._data[i])};
+            new (_data + i) Element(efp::move(other._data[i]));
         }
         other.clear();  // The moved-from elements still have to be destroyed
     }
@@ -289,7 +289,7 @@ public:
             // Move data from the source object
             _size = other._size;
             for (size_t i = 0; i < _size; ++i) {
-                new (_data + i) Element {efp::move(other._data[i])};
+                new (_data + i) Element(efp::move(other._data[i]));
             }
 
             // Reset the source object
@@ -308,7 +308,7 @@ public:
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
     ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {as[i]};
+            new (_data + i) Element(as[i]);
         }
     }
 
@@ -321,7 +321,7 @@ public:
 
         size_t index = 0;
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            new (_data + index++) Element(e);
         }
     }
 
@@ -381,7 +381,7 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {value};
+            new (_data + _size++) Element(value);
         }
     }
 
@@ -389,7 +389,7 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {efp::move(value)};
+            new (_data + _size++) Element(efp::move(value));
         }
     }
 
@@ -435,7 +435,7 @@ public:
         (_data + index)->~Element();
 
         for (size_t i = index; i < _size - 1; ++i) {
-            new (_data + i) Element {efp::move(_data[i + 1])};
+            new (_data + i) Element(efp::move(_data[i + 1]));
             (_data + i + 1)->~Element();
         }
         --_size;
-- 
2.43.0


From 122d42373cd0bfbf52db5d1415e96355889da278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:07 +0000
Subject: [PATCH 67/83] fix: IsInvocableR rejects discarding a result before
 C++17

---
 include/efp/meta.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index b51a0e9..82ea2dc 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -415,11 +415,12 @@ using IsInvocableR = std::is_invocable_r<R, F, Args...>;
 template<typename R, typename F, typename... Args>
 struct IsInvocableR {
 private:
-    // A helper to try invoking the function and check the return type
+    // A helper to try invoking the function and check the return type. Any result can be discarded.
     template<typename U>
-    static auto test(int)
-        -> typename std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::
-            type;
+    static auto test(int) -> Conditional<
+        std::is_void<R>::value,
+        std::true_type,
+        std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>>;
 
     // Fallback if the above test fails
     template<typename>
-- 
2.43.0


From c439f0fdaf87ceff14f2836c1882b8dfafd5645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:32 +0000
Subject: [PATCH 68/83] fix: equality of two strings ignores their character
 traits

---
 include/efp/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index ce6ca2a..3234c58 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -68,7 +68,8 @@ public:
     }
 
     bool operator==(const Vector& other) const {
-        return Base::operator==(other);
+        return Base::_size == other._size
+            && Traits::compare(Base::_data, other._data, Base::_size) == 0;
     }
 
     // Specialized equality comparison operator with const char *
-- 
2.43.0


From 86d2364d4f3b071eb45092ac9de22ea8f8135f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:57 +0000
Subject: [PATCH 69/83] fix: assigning to an Enum from a part of its own value
 reads a destroyed object

---
 include/efp/enum.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index 6672c93..59ad1a8 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -250,13 +250,7 @@ namespace detail {
 
         EnumBase& operator=(const EnumBase& other) {
             if (this != &other) {
-                EnumSwitch<alt_num, DestroyCase, EnumBase*>::call(_index, this);
-                _index = other._index;
-                EnumSwitch<alt_num, CopyCase, EnumBase*, const EnumBase&>::call(
-                    _index,
-                    this,
-                    other
-                );
+                *this = EnumBase(other);
             }
             return *this;
         }
@@ -271,12 +265,14 @@ namespace detail {
 
         EnumBase& operator=(EnumBase&& other) {
             if (this != &other) {
+                EnumBase moved(efp::move(other));  // other may be a part of the value held here
+
                 EnumSwitch<alt_num, DestroyCase, EnumBase*>::call(_index, this);
-                _index = other._index;
+                _index = moved._index;
                 EnumSwitch<alt_num, MoveCase, EnumBase*, EnumBase&&>::call(
                     _index,
                     this,
-                    efp::move(other)
+                    efp::move(moved)
                 );
             }
             return *this;
-- 
2.43.0


From 63ac17a0d1dfedc003b9a8c80f5d33df91e43764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:45 +0000
Subject: [PATCH 70/83] fix: moving a part of an element of a Vector into the
 Vector reads a destroyed object

---
 include/efp/sequence.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 77267ac..a499960 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -610,6 +610,8 @@ namespace detail {
 
         VectorBase& operator=(VectorBase&& other) noexcept {
             if (this != &other) {
+                VectorBase moved(efp::move(other));  // other may be a part of an element of this
+
                 for (size_t i = 0; i < _size; ++i) {
                     // _allocator.destroy(_data + i);
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
@@ -618,13 +620,13 @@ namespace detail {
                 if (_data)
                     AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
 
-                _data = other._data;
-                _size = other._size;
-                _capacity = other._capacity;
+                _data = moved._data;
+                _size = moved._size;
+                _capacity = moved._capacity;
 
-                other._data = nullptr;
-                other._size = 0;
-                other._capacity = 0;
+                moved._data = nullptr;
+                moved._size = 0;
+                moved._capacity = 0;
             }
 
             return *this;
-- 
2.43.0


From 01ade1a50e32d1fdbd11be2712d72ef35295acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:09 +0000
Subject: [PATCH 71/83] fix: resizing a Vector or building a String beyond the
 address space writes out of bounds

---
 include/efp/sequence.hpp | 6 +++++-
 include/efp/string.hpp   | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index a499960..4d3cf03 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -718,7 +718,11 @@ namespace detail {
 
         void resize(size_t new_size) {
             // Always allocate one extra space for BasicString null terminator
-            if (new_size + 1 > _capacity) {
+            if (new_size >= _capacity) {
+                if (new_size >= max_size()) {
+                    throw RuntimeError("VectorBase::resize: size must be less than max_size");
+                }
+
                 reserve(new_size + 1);
             }
 
diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 3234c58..cf97a13 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -44,6 +44,10 @@ public:
     }
 
     Vector(size_t size, Char c) {
+        if (size >= Base::max_size()) {
+            throw RuntimeError("BasicString::BasicString: size must be less than max_size");
+        }
+
         Base::_capacity = size + 1;
         Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
         Base::_size = size;
-- 
2.43.0


From 5600cfde02fc1582dbbe337b697f0c5ddd73d5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:09 +0000
Subject: [PATCH 72/83] fix: two files of a freestanding program that include
 the library do not link

---
 include/efp/cpp_core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/cpp_core.hpp b/include/efp/cpp_core.hpp
index 43d226b..863d51e 100644
--- a/include/efp/cpp_core.hpp
+++ b/include/efp/cpp_core.hpp
@@ -31,7 +31,7 @@ inline void* _memcpy(void* dest, const void* src, size_t size) {
 namespace efp {
 // Custom memcpy implementation for freestanding environments.
 // Added extern "C" to ensure C linkage for compatibility with C libraries or code.
-extern "C" void* _memcpy(void* dest, const void* src, size_t size) {
+extern "C" inline void* _memcpy(void* dest, const void* src, size_t size) {
     auto* d = static_cast<char*>(dest);
     const auto* s = static_cast<const char*>(src);
     for (size_t i = 0; i < size; ++i) {
-- 
2.43.0


From 79e182f2a668f18a36fa04c33e15c0abd30669d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:09 +0000
Subject: [PATCH 73/83] fix: the freestanding allocator copies elements that
 are to be moved

---
 include/efp/allocator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/allocator.hpp b/include/efp/allocator.hpp
index 76c90f4..03cc976 100644
--- a/include/efp/allocator.hpp
+++ b/include/efp/allocator.hpp
@@ -77,8 +77,9 @@ public:
         return size_type(-1) / sizeof(T);
     }
 
-    void construct(pointer p, const T& t) {
-        new (p) T(t);
+    template<typename... Args>
+    void construct(pointer p, Args&&... args) {
+        new (p) T(std::forward<Args>(args)...);
     }
 
     void destroy(pointer p) {
-- 
2.43.0


From 83cdee175acf47268e27b5747c9ac1043522bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:09 +0000
Subject: [PATCH 74/83] fix: the freestanding allocator hands out too little
 memory when the size overflows

---
 include/efp/allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/efp/allocator.hpp b/include/efp/allocator.hpp
index 03cc976..dbf20ec 100644
--- a/include/efp/allocator.hpp
+++ b/include/efp/allocator.hpp
@@ -66,6 +66,10 @@ public:
     Allocator(const Allocator<U>&) noexcept {}
 
     pointer allocate(size_type n) {
+        if (n > max_size()) {
+            throw std::bad_alloc();
+        }
+
         return static_cast<pointer>(::operator new(n * sizeof(T)));
     }
 
-- 
2.43.0


From f21219402e2a47dabadc38f2cdbb0b28dd3288a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:51 +0000
Subject: [PATCH 75/83] fix: sequence.hpp does not compile in a freestanding
 build that has not included <array> and <vector>

---
 include/efp/sequence.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 4d3cf03..344efb1 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -21,6 +21,8 @@ using AllocatorTraits = std::allocator_traits<A>;
 #else
     // todo remove STL
     #include <string>
+    #include <array>
+    #include <vector>
     #include "efp/allocator.hpp"
 
 #endif
-- 
2.43.0


From f8739fc1adf35f4f636bfa2e54f793781a49d609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:06 +0000
Subject: [PATCH 76/83] fix: sort_unstable and quicksort overflow the stack on
 long sorted or constant sequences

One call per element is left on the stack when the pivot is an extreme one. Recurse into the smaller part only.
---
 include/efp/sort.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index 608ec6e..ad931ca 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -132,11 +132,18 @@ size_t partition_by(Vector<A>& arr, size_t low, size_t high, const F& comp) {
 template<typename A, typename F = bool (*)(const A&, const A&)>
 
 void quicksort_by(Vector<A>& arr, size_t low, size_t high, const F& comp) {
-    if (low < high) {
+    while (low < high) {
         size_t pi = partition_by(arr, low, high, comp);
-        if (pi != 0)
-            quicksort_by(arr, low, pi - 1, comp);
-        quicksort_by(arr, pi + 1, high, comp);
+
+        // Recurse into the smaller part only, the depth stays logarithmic for every input
+        if (pi - low < high - pi) {
+            if (pi != 0)
+                quicksort_by(arr, low, pi - 1, comp);
+            low = pi + 1;
+        } else {
+            quicksort_by(arr, pi + 1, high, comp);
+            high = pi - 1;
+        }
     }
 }
 
-- 
2.43.0


From dca5c859b9094b3c683659acbea3523ddd76aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:48 +0000
Subject: [PATCH 77/83] fix: File::tell truncates positions beyond INT_MAX

---
 include/efp/io.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index b017c5a..0a3e827 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -139,8 +139,8 @@ public:
         return _file && std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
-    int tell() {
-        return _file ? std::ftell(_file) : -1;
+    long tell() {
+        return _file ? std::ftell(_file) : -1L;
     }
 
     bool close() {
-- 
2.43.0


From d18e6c2d7a7a21f0eed4b7d2267cd57d10f43b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:06 +0000
Subject: [PATCH 78/83] fix: is_approx compares a floating-point value with an
 integer of the same or a greater size as integers

---
 include/efp/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 3b08601..4ca1752 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -17,7 +17,7 @@ constexpr A abs(const A& a) {
 
 template<typename A, typename B>
 constexpr A is_approx(const A& lhs, const B& rhs) {
-    using MorePrecise = Conditional<(sizeof(A) > sizeof(B)), A, B>;
+    using MorePrecise = Common<A, B>;
 
     return abs(static_cast<MorePrecise>(lhs) - static_cast<MorePrecise>(rhs))
         <= NumericLimits<MorePrecise>::epsilon();
-- 
2.43.0


From 555a8882674645974bfe5c819ad713646ef7acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:43 +0000
Subject: [PATCH 79/83] fix: autocovariance reads outside of the sequence for a
 negative lag and one beyond the length

---
 include/efp/scientific.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index ee46133..fcca704 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -90,16 +90,20 @@ template<typename R, bool bessel_correction = false, bool adjusted = false, type
 R autocovariance(const As& as, const int& lag) {
     const auto as_mean = mean<R>(as);
     const auto n = length(as);
-    const int sum_length = n - lag;
+    const size_t shift = lag < 0 ? -(size_t)lag : (size_t)lag;
+    const size_t sum_length = shift < n ? n - shift : 0;  // nothing overlaps beyond the end
     R summation = 0;
 
     for_index(
-        [&](const int& i) { summation += (nth(i, as) - as_mean) * (nth(i + lag, as) - as_mean); },
+        [&](const size_t& i) {
+            summation += (nth(i, as) - as_mean) * (nth(i + shift, as) - as_mean);
+        },
         sum_length
     );
 
     if (adjusted) {
-        return bessel_correction ? summation / (R)(n - lag - 1) : summation / (R)(n - lag);
+        return bessel_correction ? summation / (R)(n - shift - 1)
+                                 : summation / (R)(n - shift);
     } else {
         return bessel_correction ? summation / (R)(n - 1) : summation / (R)n;
     }
-- 
2.43.0


From f084ffab534e6dfe651931f9c031139dad10866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:44 +0000
Subject: [PATCH 80/83] fix: max_elem and min_elem give a finite limit for
 sequences of infinities and a default value for other types

---
 include/efp/numeric.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 4ca1752..15b7c18 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -113,12 +113,14 @@ namespace efp {
 
 template<typename As>
 constexpr Element<As> max_elem(const As& as) {
-    return foldl(max, NumericLimits<Element<As>>::lowest(), as);
+    // The limit is not the extreme element when it is an infinity or no built-in number
+    return foldl(max, length(as) == 0 ? NumericLimits<Element<As>>::lowest() : nth(0, as), as);
 }
 
 template<typename As>
 constexpr Element<As> min_elem(const As& as) {
-    return foldl(min, NumericLimits<Element<As>>::max(), as);
+    // The limit is not the extreme element when it is an infinity or no built-in number
+    return foldl(min, length(as) == 0 ? NumericLimits<Element<As>>::max() : nth(0, as), as);
 }
 
 template<typename As>
-- 
2.43.0


From e48ab8d9d21505e05dd24a669e96f2be367f4722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:06 +0000
Subject: [PATCH 81/83] fix: append and assign of more characters than memory
 can hold exhaust the memory

---
 include/efp/string.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index cf97a13..e0fd8af 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -121,6 +121,16 @@ public:
     }
 
     Vector& append(size_t n, Char c) {
+        if (n >= Base::max_size() - Base::_size) {
+            throw RuntimeError("BasicString::append: size must be less than max_size");
+        }
+
+        // Make room for all of it first, a size no memory can hold changes nothing
+        const size_t needed = Base::_size + n + 1;
+        if (needed > Base::_capacity) {
+            Base::reserve(needed > 2 * Base::_size + 1 ? needed : 2 * Base::_size + 1);
+        }
+
         for (size_t i = 0; i < n; ++i) {
             Base::push_back(c);
         }
@@ -133,8 +143,7 @@ public:
     }
 
     Vector& assign(size_t n, Char c) {
-        Base::clear();
-        return append(n, c);
+        return *this = Vector(n, c);
     }
 
     Vector& insert(size_t pos, const Char* c_str) {
-- 
2.43.0


From 3e8eb5e6e890ee0d10e78459df8b6bbab567389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 82/83] fix: assigning a Vector a part of one of its own
 elements reads destroyed elements

---
 include/efp/sequence.hpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 344efb1..918eb29 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -582,21 +582,9 @@ namespace detail {
             }
         }
 
-        // todo copy_and_swap
         VectorBase& operator=(const VectorBase& other) noexcept {
             if (this != &other) {
-                clear();
-
-                if (_capacity < other._size + 1) {
-                    reserve(other._size + 1);
-                }
-
-                for (size_t i = 0; i < other._size; ++i) {
-                    // _allocator.construct(_data + i, other._data[i]);
-                    AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
-                }
-
-                _size = other._size;
+                *this = VectorBase(other);  // other may be a part of an element of this
             }
 
             return *this;
-- 
2.43.0


From 11b899000c6a4f91d3bab2df34b3029ee5919d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:16 +0000
Subject: [PATCH 83/83] fix: swapping values of the library in standard
 algorithms is ambiguous

---
 include/efp/meta.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 82ea2dc..c5a2a68 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -770,8 +770,9 @@ using Arguments = typename detail::ArgumentsImpl<ReferenceRemoved<F>>::Type;
 // }
 
 // swap
-template<typename A>
-void swap(A& a, A& b) {
+// Less specialized than std::swap, so that an unqualified call which finds both is not ambiguous
+template<typename A, typename B>
+auto swap(A& a, B& b) -> EnableIf<IsSame<A, B>::value, void> {
     A temp = efp::move(a);
     a = efp::move(b);
     b = efp::move(temp);
-- 
2.43.0

