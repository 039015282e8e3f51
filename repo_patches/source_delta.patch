From 457e2a7de1ceaa3a3d3798eb230482269d6b59e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:03 +0000
Subject: [PATCH 01/21] fix: string_view::substr: do not let pos + n wrap
 around

A count close to npos (but not npos) made pos + n overflow, so that the returned view
extended past the end of the viewed characters.
---
 include/gul14/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index 3f070a4..97647f6 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -214,7 +214,7 @@ public:
     constexpr basic_string_view substr(size_type pos, size_type n=npos) const {
         if ( pos > size())
             throw std::out_of_range ( "string_view::substr" );
-        if (n == npos || pos + n > size())
+        if (n > size() - pos)
             n = size () - pos;
         return basic_string_view(data() + pos, n);
     }
-- 
2.43.0


From e218ff1998ba54ed43da7116a97f6c9bf001736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:04 +0000
Subject: [PATCH 02/21] fix: string_view::compare(pos, n, sv) must not be
 noexcept

substr() throws std::out_of_range for pos > size(); with noexcept the program was terminated
instead of the exception reaching the caller.
---
 include/gul14/string_view.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/gul14/string_view.h b/include/gul14/string_view.h
index 97647f6..5c2f09c 100644
--- a/include/gul14/string_view.h
+++ b/include/gul14/string_view.h
@@ -224,8 +224,7 @@ public:
         return cmp != 0 ? cmp : (len_ == x.len_ ? 0 : len_ < x.len_ ? -1 : 1);
     }
 
-    constexpr int compare(size_type pos1, size_type n1, basic_string_view x)
-    const noexcept {
+    constexpr int compare(size_type pos1, size_type n1, basic_string_view x) const {
         return substr(pos1, n1).compare(x);
     }
 
-- 
2.43.0


From b166b14f27d228979016ae814c86d97feefa385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:04 +0000
Subject: [PATCH 03/21] fix: within_abs(): avoid overflow of the difference of
 signed integers

---
 include/gul14/num_util.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index 63ddadf..467719f 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -64,6 +64,30 @@ constexpr auto abs(ValueT n) noexcept -> std::enable_if_t<not std::is_unsigned<V
     return std::abs(n);
 }
 
+/// \cond HIDE_SYMBOLS
+namespace detail {
+
+// Calculate high - low for two numbers with high >= low (or unordered ones).
+// The difference of two signed integers may exceed the range of their own type, but it is
+// always representable in the corresponding unsigned type.
+template<typename ValueT, std::enable_if_t<
+    std::is_integral<ValueT>::value and std::is_signed<ValueT>::value, bool> = true>
+constexpr auto difference(ValueT high, ValueT low) noexcept
+{
+    using UnsignedT = std::make_unsigned_t<ValueT>;
+    return static_cast<UnsignedT>(static_cast<UnsignedT>(high) - static_cast<UnsignedT>(low));
+}
+
+template<typename ValueT, std::enable_if_t<
+    not (std::is_integral<ValueT>::value and std::is_signed<ValueT>::value), bool> = true>
+constexpr auto difference(ValueT high, ValueT low) noexcept
+{
+    return static_cast<ValueT>(high - low);
+}
+
+} // namespace detail
+/// \endcond
+
 /**
  * Determine if two numbers are almost equal, comparing only some significant digits.
  *
@@ -123,12 +147,12 @@ bool within_abs(NumT a, NumT b, NumT tol) noexcept {
         if (std::is_floating_point<NumT>::value)
             ret = a - tol <= b; // different formula needed because of inf/-inf and subnormal values
         else
-            ret = a - b <= tol;
+            ret = detail::difference(a, b) <= static_cast<decltype(detail::difference(a, b))>(tol);
     } else {
         if (std::is_floating_point<NumT>::value)
             ret = b - tol <= a;
         else
-            ret = b - a <= tol;
+            ret = detail::difference(b, a) <= static_cast<decltype(detail::difference(b, a))>(tol);
     }
     return ret;
 }
-- 
2.43.0


From 97a894833b37b0d85a022eb9b06e2f392a1f3596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:04 +0000
Subject: [PATCH 04/21] fix: within_orders(): difference of unsigned or
 far-apart signed integers

---
 include/gul14/num_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index 467719f..e493906 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -120,8 +120,8 @@ template<typename NumT, typename OrderT,
     >>
 bool within_orders(const NumT a, const NumT b, const OrderT orders) noexcept(false) {
     // std::pow() is not noexcept, which might or might not be true
-    auto difference = gul14::abs(a - b);
-    if (difference == NumT{ 0 })
+    auto difference = (a > b) ? detail::difference(a, b) : detail::difference(b, a);
+    if (difference == 0)
         return true;
     auto maximum = std::max(gul14::abs(a), gul14::abs(b));
     auto limit = maximum / std::pow(static_cast<std::decay_t<NumT>>(10.0), orders);
-- 
2.43.0


From 01b4ccd980e7f8415625a1c875d7b95a1d1b8e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:15 +0000
Subject: [PATCH 05/21] fix: clamp(): return v itself when it compares equal to
 (or unordered with) the lower limit

---
 include/gul14/num_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/num_util.h b/include/gul14/num_util.h
index e493906..378bb0a 100644
--- a/include/gul14/num_util.h
+++ b/include/gul14/num_util.h
@@ -230,7 +230,7 @@ bool within_ulp(NumT a, NumT b, unsigned int ulp)
  */
 template<class NumT>
 constexpr const NumT& clamp(const NumT& v, const NumT& lo, const NumT& hi) {
-    return std::max(lo, std::min(v, hi)); // usually more optimized than actually using operator<()
+    return std::max(std::min(v, hi), lo); // usually more optimized than actually using operator<()
 }
 /**
  * \overload
-- 
2.43.0


From 39cadc1445cde37a15dac4d31422f6d02e2982a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:10 +0000
Subject: [PATCH 06/21] fix: safe_string() with a C string and a length beyond
 the address space end

safe_string("ABC", std::string::npos) computed a range end before its start
and threw std::length_error instead of stopping at the zero byte.
---
 src/string_util.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/string_util.cc b/src/string_util.cc
index 2917a83..df1e433 100644
--- a/src/string_util.cc
+++ b/src/string_util.cc
@@ -20,7 +20,7 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-#include <algorithm>
+#include <cstring>
 
 #include "gul14/string_util.h"
 
@@ -46,7 +46,12 @@ std::string safe_string(const char* char_ptr, std::size_t length)
     if (char_ptr == nullptr)
         return "";
 
-    auto end_ptr = std::find(char_ptr, char_ptr + length, '\0');
+    // Unlike std::find(), memchr() does not require all of the range to be accessible if a
+    // zero byte is found. The length may exceed the size of a zero-terminated string.
+    auto end_ptr = static_cast<const char*>(std::memchr(char_ptr, '\0', length));
+
+    if (end_ptr == nullptr)
+        return std::string(char_ptr, length);
 
     return std::string(char_ptr, end_ptr);
 }
-- 
2.43.0


From 2e861186edc5b5326c6d6e099ddde5cb0d3eaf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:01 +0000
Subject: [PATCH 07/21] fix: escape() the non-printable character DEL (0x7f)
 like the other control characters

---
 src/escape.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape.cc b/src/escape.cc
index d9c45c7..35e09be 100644
--- a/src/escape.cc
+++ b/src/escape.cc
@@ -60,7 +60,7 @@ std::string escape(string_view in)
                 escaped += "\\t";
                 break;
             default:
-                if (c < 32)
+                if (c < 32 || c == 127)
                 {
                     // This applies also to all non-ASCII characters (>127) because they
                     // are mapped to negative values
-- 
2.43.0


From 1bedae62a0d1d3b487efe9873ffff8c33376665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:11 +0000
Subject: [PATCH 08/21] fix: SlidingBuffer const iterators must have a const
 reference type

crbegin()/crend() of a SlidingBuffer could not be dereferenced because the
const iterator announced a mutable reference and pointer type.
---
 include/gul14/SlidingBuffer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index ab9c2a9..512cef9 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -657,9 +657,13 @@ public:
         /// Distance between iterators is represented as this type.
         using difference_type = std::ptrdiff_t;
         /// This type represents a pointer-to-value_type.
-        using pointer = value_type*;
+        using pointer = typename std::conditional_t<
+            std::is_const<std::remove_pointer_t<BufferPointer>>::value,
+            value_type const*, value_type*>;
         /// This type represents a reference-to-value_type.
-        using reference = value_type&;
+        using reference = typename std::conditional_t<
+            std::is_const<std::remove_pointer_t<BufferPointer>>::value,
+            value_type const&, value_type&>;
 
         /**
          * Create an iterator pointing into a SlidingBuffer.
-- 
2.43.0


From 7ef404342b6249120c9e68198fbc2c2a4f472d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:43 +0000
Subject: [PATCH 09/21] fix: SlidingBufferExposed::end() after pop_front()

After elements have been removed from the front, end() returned the end of the
underlying container although the remaining elements are stored contiguously,
and begin() != end() for an empty buffer.
---
 include/gul14/SlidingBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gul14/SlidingBuffer.h b/include/gul14/SlidingBuffer.h
index 512cef9..a1f86ad 100644
--- a/include/gul14/SlidingBuffer.h
+++ b/include/gul14/SlidingBuffer.h
@@ -1169,7 +1169,7 @@ public:
      */
     auto end() noexcept -> iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.end();
 
         return storage_.begin() + idx_end_;
@@ -1189,7 +1189,7 @@ public:
      */
     auto cend() const noexcept -> const_iterator
     {
-        if (full_ or idx_begin_ != 0)
+        if (full_ or idx_end_ < idx_begin_)
             return storage_.cend();
 
         return storage_.cbegin() + idx_end_;
-- 
2.43.0


From 950dcbb32b37d029f1a28c27c3d3695716684117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:08 +0000
Subject: [PATCH 10/21] fix: to_number<float> rejects invalid characters after
 the significant digits

to_number<double>("1.00000000000000000000abc") returned 1.0 because only the first 19
digits were looked at.
---
 include/gul14/to_number.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index e8bdb15..7caa62c 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -181,6 +181,18 @@ constexpr inline gul14::optional<NumberType> to_normalized_float(gul14::string_v
             >= std::numeric_limits<NumberType>::digits10,
             "FloatConversionIntType is too small for NumberType");
 
+    // Only the leading digits contribute to the result, but all of them must be valid
+    for (char c : i1)
+    {
+        if (not is_digit(c))
+            return nullopt;
+    }
+    for (char c : i2)
+    {
+        if (not is_digit(c))
+            return nullopt;
+    }
+
     i1 = i1.substr(0, std::min(i1.length(),
                 size_t(std::numeric_limits<FloatConversionIntType<NumberType>>::digits10)));
     i2 = i2.substr(0, std::min(i2.length(),
-- 
2.43.0


From d8147f8321a2ea43a2528583473aa0d99df3b039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:34 +0000
Subject: [PATCH 11/21] fix: to_number<float> no longer overflows when
 adjusting the exponent

to_number<double>("12e2147483647") was 1.2 and to_number<double>("0.1e-2147483647") was
1 (undefined behavior: signed overflow).
---
 include/gul14/to_number.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/gul14/to_number.h b/include/gul14/to_number.h
index 7caa62c..8489c8f 100644
--- a/include/gul14/to_number.h
+++ b/include/gul14/to_number.h
@@ -316,7 +316,7 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
     if (inf_nan.result_valid)
         return inf_nan.result;
 
-    int exponent = 0;
+    long long exponent = 0; // Can exceed the range of int together with the number of digits
     auto e_pos = str.find_first_of("eE");
     if (e_pos != gul14::string_view::npos)
     {
@@ -363,9 +363,9 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
 
         str_before_point = str_after_point.substr(0, 1);
         str_after_point.remove_prefix(1);
-        exponent -= static_cast<int>(old_digits - str_after_point.length());
+        exponent -= static_cast<long long>(old_digits - str_after_point.length());
     } else {
-        exponent += static_cast<int>(str_before_point.length() - 1);
+        exponent += static_cast<long long>(str_before_point.length() - 1);
     }
 
     // Now the incoming number string is like this:
@@ -382,7 +382,11 @@ constexpr inline optional<NumberType> to_unsigned_float(gul14::string_view str)
     if (not norm_val.has_value())
         return nullopt;
 
-    return detail::pow10(exponent) * *norm_val;
+    // Powers outside of this range are infinite or zero anyway
+    constexpr long long max_exponent = std::numeric_limits<int>::max();
+    exponent = std::max(-max_exponent, std::min(exponent, max_exponent));
+
+    return detail::pow10(static_cast<int>(exponent)) * *norm_val;
 }
 
 /**
-- 
2.43.0


From af06e1422a4425a32503fd8042843c3e1c9b91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:19 +0000
Subject: [PATCH 12/21] fix: SmallVector: adding a copy of one of the vector's
 own elements

push_back(const T&), emplace_back(), insert(), emplace() and resize() read
their argument after the elements had been relocated or shifted, so that
v.push_back(v[0]) or v.insert(v.cbegin(), v[0]) used a dead or moved-from
element. Take the value first.
---
 include/gul14/SmallVector.h | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 57cd2ec..7f94bd3 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -672,10 +672,17 @@ public:
     Reference emplace_back(ArgumentTypes&&... arguments)
     {
         if (size_ == capacity_)
+        {
+            // The arguments may refer to elements of this vector
+            ValueType v(std::forward<ArgumentTypes>(arguments)...);
             grow();
-
-        ::new(static_cast<void*>(data_end()))
-            ValueType(std::forward<ArgumentTypes>(arguments)...);
+            ::new(static_cast<void*>(data_end())) ValueType(std::move(v));
+        }
+        else
+        {
+            ::new(static_cast<void*>(data_end()))
+                ValueType(std::forward<ArgumentTypes>(arguments)...);
+        }
 
         ++size_;
 
@@ -813,14 +820,16 @@ public:
         if (num_elements < 1)
             return begin() + idx;
 
+        const ValueType v(value); // value may refer to an element of this vector
+
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
         // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, value);
+        std::fill_n(insert_pos, num_assignable, v);
 
         // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, value);
+        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, v);
 
         size_ += num_elements;
 
@@ -1014,12 +1023,7 @@ public:
      */
     void push_back(const ValueType& value)
     {
-        if (size_ == capacity_)
-            grow();
-
-        ::new(static_cast<void*>(data_end())) ValueType(value);
-
-        ++size_;
+        emplace_back(value);
     }
 
     /**
@@ -1141,8 +1145,9 @@ public:
         }
         else if (num_elements > size_)
         {
+            const ValueType v(element); // element may be stored in this vector
             reserve(num_elements);
-            copy_value_into_uninitialized_cells(size_, num_elements - size_, element);
+            copy_value_into_uninitialized_cells(size_, num_elements - size_, v);
         }
 
         size_ = num_elements;
@@ -1408,6 +1413,8 @@ private:
 
         const auto idx = static_cast<SizeType>(pos - begin());
 
+        ValueType v(std::forward<T>(value)); // value may refer to an element of this vector
+
         if (size_ == capacity_)
             grow();
 
@@ -1421,7 +1428,7 @@ private:
         std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
 
-        *insert_pos = std::forward<T>(value);
+        *insert_pos = std::move(v);
 
         return insert_pos;
     }
-- 
2.43.0


From 2c222674bd2a320c71764ac01599ac57b332ff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:04 +0000
Subject: [PATCH 13/21] fix: SmallVector: leak of elements and storage if an
 element constructor throws

The constructors left the already constructed elements and the allocated
storage behind, and assign(n, value) and resize(n, value) left elements
behind the end of the vector that were never destroyed.
---
 include/gul14/SmallVector.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index 7f94bd3..a507b56 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -323,13 +323,13 @@ public:
      * \param num_elements  The number of initial elements
      */
     explicit SmallVector(SizeType num_elements)
+        : SmallVector() // ensures that the destructor is run if an exception is thrown
     {
         static_assert(std::is_default_constructible<ValueType>::value,
             "SmallVector: Element type is not default-constructible");
 
         reserve(num_elements);
-        for (SizeType i = 0u; i != num_elements; ++i)
-            ::new(static_cast<void*>(data() + i)) ValueType{};
+        fill_uninitialized_cells_with_default_constructed_elements(0u, num_elements);
         size_ = num_elements;
     }
 
@@ -341,6 +341,7 @@ public:
      * \param value         The value to be copied to the initial elements
      */
     SmallVector(SizeType num_elements, const ValueType& value)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_value(num_elements, value);
     }
@@ -364,6 +365,7 @@ public:
     template<class InputIterator,
              typename = std::enable_if_t<not std::is_integral<InputIterator>::value>>
     SmallVector(InputIterator first, InputIterator last)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(first, last);
     }
@@ -378,6 +380,7 @@ public:
      */
     SmallVector(const SmallVector& other)
         noexcept(std::is_nothrow_copy_constructible<ValueType>::value)
+        : SmallVector()
     {
         static_assert(std::is_copy_constructible<ValueType>::value == true,
             "SmallVector: Element type is not copy-constructible");
@@ -413,6 +416,7 @@ public:
      *          list exceeds max_size().
      */
     SmallVector(std::initializer_list<ValueType> init)
+        : SmallVector()
     {
         fill_empty_vector_with_copied_range(init.begin(), init.end());
     }
@@ -1280,8 +1284,18 @@ private:
     {
         const auto start_ptr = data() + pos;
         const auto end_ptr = start_ptr + num_elements;
-        for (auto p = start_ptr; p != end_ptr; ++p)
-            ::new(static_cast<void*>(p)) ValueType(value);
+        auto ptr = start_ptr;
+
+        try
+        {
+            for (; ptr != end_ptr; ++ptr)
+                ::new(static_cast<void*>(ptr)) ValueType(value);
+        }
+        catch (...)
+        {
+            destroy_range(start_ptr, ptr);
+            throw;
+        }
     }
 
     /// Return a non-dereferencable pointer past the last element.
-- 
2.43.0


From dbd3bea573008b542ad948b64f3502df8c313366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:38 +0000
Subject: [PATCH 14/21] fix: SmallVector: insert() leaks elements if an element
 operation throws

Elements that had already been moved behind the end of the vector were
neither counted in size() nor destroyed when a later copy or move threw.
---
 include/gul14/SmallVector.h | 55 ++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/include/gul14/SmallVector.h b/include/gul14/SmallVector.h
index a507b56..da48cbc 100644
--- a/include/gul14/SmallVector.h
+++ b/include/gul14/SmallVector.h
@@ -829,11 +829,20 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::fill_n(insert_pos, num_assignable, v);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::fill_n(insert_pos, num_assignable, v);
 
-        // Copy the remaining values into uninitialized cells
-        copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, v);
+            // Copy the remaining values into uninitialized cells
+            copy_value_into_uninitialized_cells(size_, num_elements - num_assignable, v);
+        }
+        catch (...)
+        {
+            // Drop the elements that have been moved behind the end of the vector
+            destroy_range(end() + num_elements - num_assignable, end() + num_elements);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -871,11 +880,20 @@ public:
         const SizeType num_assignable = make_space_at_idx_for_n_elements(idx, num_elements);
         Iterator insert_pos = begin() + idx;
 
-        // Copy-assign to moved-from elements
-        std::copy_n(first, num_assignable, insert_pos);
+        try
+        {
+            // Copy-assign to moved-from elements
+            std::copy_n(first, num_assignable, insert_pos);
 
-        // Copy the remaining values into uninitialized cells
-        copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
+            // Copy the remaining values into uninitialized cells
+            copy_range_into_uninitialized_cells(size_, first + num_assignable, last);
+        }
+        catch (...)
+        {
+            // Drop the elements that have been moved behind the end of the vector
+            destroy_range(end() + num_elements - num_assignable, end() + num_elements);
+            throw;
+        }
 
         size_ += num_elements;
 
@@ -1439,9 +1457,10 @@ private:
         // Construct new back() element by moving from the old back()
         ::new(static_cast<void*>(data_ptr + size_)) ValueType(std::move(*(data_ptr + size_ - 1)));
 
-        std::move_backward(insert_pos, data_ptr + size_ - 1, data_ptr + size_);
         ++size_;
 
+        std::move_backward(insert_pos, data_ptr + size_ - 2, data_ptr + size_ - 1);
+
         *insert_pos = std::move(v);
 
         return insert_pos;
@@ -1482,11 +1501,21 @@ private:
         // Move-initialize elements in uninitialized space at the back of the container
         const auto from_ptr = data_ptr + size_ - num_move_initialized;
         const auto to_ptr = from_ptr + num_elements;
-        for (SizeType i = 0; i != num_move_initialized; ++i)
-            ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
+        SizeType i = 0;
+
+        try
+        {
+            for (; i != num_move_initialized; ++i)
+                ::new(static_cast<void*>(to_ptr + i)) ValueType(std::move(*(from_ptr + i)));
 
-        // Move elements backwards within old vector size
-        std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+            // Move elements backwards within old vector size
+            std::move_backward(data_ptr + idx, data_ptr + idx + num_moved, to_ptr);
+        }
+        catch (...)
+        {
+            destroy_range(to_ptr, to_ptr + i);
+            throw;
+        }
 
         return num_move_initialized;
     }
-- 
2.43.0


From 8f73492543344495ca79b7534a1998baebd6bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:32 +0000
Subject: [PATCH 15/21] fix: finally() must not move from an lvalue action

---
 include/gul14/finalizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/finalizer.h b/include/gul14/finalizer.h
index 54df935..33fceb4 100644
--- a/include/gul14/finalizer.h
+++ b/include/gul14/finalizer.h
@@ -167,7 +167,7 @@ public:
  */
 template <typename F>
 FinalAction<typename std::decay_t<F>> finally(F&& f) noexcept {
-    return FinalAction<typename std::decay_t<F>>(std::forward<typename std::decay_t<F>>(f));
+    return FinalAction<typename std::decay_t<F>>(std::forward<F>(f));
 }
 
 /// @}
-- 
2.43.0


From 8d259b091c88c5081a76dabdeee692efcddb8d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:46 +0000
Subject: [PATCH 16/21] fix: remove_outliers(begin, end, n) did not compile

---
 include/gul14/statistics.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gul14/statistics.h b/include/gul14/statistics.h
index 23a5d3f..8e1c190 100644
--- a/include/gul14/statistics.h
+++ b/include/gul14/statistics.h
@@ -789,7 +789,9 @@ template <typename IteratorT,
 auto remove_outliers(IteratorT const& begin, IteratorT const& end,
         std::size_t outliers, Accessor accessor = ElementAccessor<ElementT>()) -> std::vector<ElementT>
 {
-    return remove_outliers(make_view(begin, end), outliers, accessor);
+    // Pass an lvalue to select the copying overload: a view has no elements to erase
+    auto const view = make_view(begin, end);
+    return remove_outliers(view, outliers, accessor);
 }
 
 /**
-- 
2.43.0


From 57b9f1d1a41970c35b1bdab773eb7fd46e2d6ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:52 +0000
Subject: [PATCH 17/21] fix: TaskHandle::cancel() has no effect on a task that
 is not pending

---
 include/gul14/ThreadPool.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index 4b8819b..b393f8e 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -172,8 +172,13 @@ public:
          */
         bool cancel()
         {
-            future_ = {};
-            return detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+            const bool canceled =
+                detail::lock_pool_or_throw(pool_)->cancel_pending_task(id_);
+
+            if (canceled)
+                future_ = {};
+
+            return canceled;
         }
 
         /**
-- 
2.43.0


From e6903970ac50109cbfcb072c6c8aabfd84140d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:01 +0000
Subject: [PATCH 18/21] fix: TaskHandle reports canceled tasks as canceled and
 completed ones as complete

---
 include/gul14/ThreadPool.h | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/gul14/ThreadPool.h b/include/gul14/ThreadPool.h
index b393f8e..3ae7492 100644
--- a/include/gul14/ThreadPool.h
+++ b/include/gul14/ThreadPool.h
@@ -25,6 +25,7 @@
 #ifndef GUL14_THREADPOOL_H_
 #define GUL14_THREADPOOL_H_
 
+#include <atomic>
 #include <chrono>
 #include <condition_variable>
 #include <functional>
@@ -152,11 +153,14 @@ public:
          *                task
          * \param pool    A shared pointer to the ThreadPool that the task is associated
          *                with
+         * \param started A flag that tells whether the task has been started
          */
-        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool)
+        TaskHandle(TaskId id, std::future<T> future, std::shared_ptr<ThreadPool> pool,
+            std::shared_ptr<const std::atomic<bool>> started)
             : future_{ std::move(future) }
             , id_{ id }
             , pool_{ std::move(pool) }
+            , started_{ std::move(started) }
         {}
 
         /**
@@ -191,6 +195,9 @@ public:
         {
             if (not future_.valid())
                 throw std::logic_error("Canceled task has no result");
+            future_.wait();
+            complete_ = is_complete();
+
             return future_.get();
         }
 
@@ -209,9 +216,11 @@ public:
         bool is_complete() const
         {
             if (not future_.valid())
-                return false;
+                return complete_;
 
-            return future_.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
+            // The future of a task that gets removed from the queue becomes ready, too
+            return future_.wait_for(std::chrono::seconds(0)) == std::future_status::ready
+                && *started_;
         }
 
         /**
@@ -244,6 +253,8 @@ public:
         std::future<T> future_;
         TaskId id_{ 0 };
         std::weak_ptr<ThreadPool> pool_;
+        std::shared_ptr<const std::atomic<bool>> started_;
+        bool complete_{ false }; // Set when the result of a completed task is retrieved
     };
 
 
@@ -330,7 +341,8 @@ public:
                     PackagedTask{ std::move(fct) }, std::move(name));
 
                 TaskHandle<Result> handle{
-                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this() };
+                    next_task_id_, named_task_ptr->fct_.get_future(), shared_from_this(),
+                    named_task_ptr->started_ };
 
                 pending_tasks_.emplace_back(
                     next_task_id_, std::move(named_task_ptr), start_time);
@@ -487,9 +499,15 @@ private:
         , fct_{ std::move(fct) }
         {}
 
-        void operator()(ThreadPool& pool) override { fct_(pool); }
+        void operator()(ThreadPool& pool) override
+        {
+            *started_ = true;
+            fct_(pool);
+        }
 
         FunctionType fct_;
+        std::shared_ptr<std::atomic<bool>> started_{
+            std::make_shared<std::atomic<bool>>(false) };
     };
 
     struct Task
-- 
2.43.0


From 6364f46c7f4a461eb0be61be916b41d1b501c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 19/21] fix: expected<void, E> operator!= compares the errors
 for inequality

---
 include/gul14/expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 91354be..8f406c8 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -2171,7 +2171,7 @@ constexpr bool operator!=(const expected<void, E> &lhs,
                           const expected<void, F> &rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From df3e4ceab9879a205e61ef89e0d5ea584f5d7378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 20/21] fix: expected restores the previous content by
 construction, not by assigning to a destroyed object

---
 include/gul14/expected.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 8f406c8..8f207da 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1605,7 +1605,7 @@ public:
         ::new (valptr()) T(std::forward<U>(v));
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1674,7 +1674,7 @@ public:
         ::new (valptr()) T(std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1714,7 +1714,7 @@ public:
         ::new (valptr()) T(il, std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1777,7 +1777,7 @@ private:
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1800,7 +1800,7 @@ private:
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From d65561603fa5b59e1d68645a7dc01834467aa9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:47 +0000
Subject: [PATCH 21/21] fix: converting constructors of expected do not leak a
 default-constructed value

---
 include/gul14/expected.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/gul14/expected.h b/include/gul14/expected.h
index 8f207da..c121ccf 100644
--- a/include/gul14/expected.h
+++ b/include/gul14/expected.h
@@ -1492,7 +1492,8 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   explicit constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1507,7 +1508,8 @@ public:
             detail::expected_enable_from_other<T, E, U, G, const U &, const G &>
                 * = nullptr>
   constexpr expected(const expected<U, G> &rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1521,7 +1523,8 @@ public:
                             std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   explicit constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
@@ -1535,7 +1538,8 @@ public:
                            std::is_convertible<G &&, E>::value)> * = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U &&, G &&> * = nullptr>
   constexpr expected(expected<U, G> &&rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
-- 
2.43.0

