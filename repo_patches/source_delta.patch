From dde3cf2b762ae1dbb50baa17a4fa5a3e261dc3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:25 +0000
Subject: [PATCH 01/55] fix: use a wide element index when serialising
 containers

The element counter was 32 bit wide and wrapped for containers with a 64 bit
size type holding more than 2^32 elements: element 2^32 + k was written as a
copy of element k.
---
 include/cista/serialization.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 559960d..c7fba27 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -191,7 +191,7 @@ void serialize(Ctx& c,
   }
 
   if (origin->el_ != nullptr) {
-    auto i = 0U;
+    auto i = std::size_t{0U};
     for (auto it = start; it != start + static_cast<offset_t>(size);
          it += serialized_size<T>()) {
       serialize(c, static_cast<T const*>(origin->el_ + i++), it);
@@ -367,7 +367,7 @@ void serialize(Ctx& c,
           convert_endian<Ctx::MODE>(origin->growth_left_));
 
   if (origin->entries_ != nullptr) {
-    auto i = 0u;
+    auto i = std::size_t{0U};
     for (auto it = start;
          it != start + static_cast<offset_t>(origin->capacity_ *
                                              serialized_size<T>());
@@ -402,7 +402,7 @@ template <typename Ctx, typename T, std::size_t Size>
 void serialize(Ctx& c, array<T, Size> const* origin, offset_t const pos) {
   auto const size =
       static_cast<offset_t>(serialized_size<T>() * origin->size());
-  auto i = 0U;
+  auto i = std::size_t{0U};
   for (auto it = pos; it != pos + size; it += serialized_size<T>()) {
     serialize(c, &(*origin)[i++], it);
   }
-- 
2.43.0


From 6b2396310767d692d30886ca88b5868bf64551b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 02/55] fix: align the characters of wide strings when
 serialising

The out-of-line characters of u16string / u32string were appended without
their alignment, so that deserialising the library's own output failed with
'ptr alignment' whenever the preceding content had an odd size.
---
 include/cista/serialization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index c7fba27..3ebe710 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -224,7 +224,8 @@ void serialize(Ctx& c, generic_string<Ptr> const* origin, offset_t const pos) {
       (origin->h_.ptr_ == nullptr)
           ? NULLPTR_OFFSET
           : c.write(origin->data(),
-                    origin->size() * sizeof(typename Type::CharT));
+                    origin->size() * sizeof(typename Type::CharT),
+                    std::alignment_of_v<typename Type::CharT>);
   if (start != NULLPTR_OFFSET) {
     str_convert_endian(c, start, origin->data(),
                        static_cast<offset_t>(origin->size()));
-- 
2.43.0


From 0f5a7f09a03bdd601ce5102a8fbb44f7ef2d29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 03/55] fix: reject wrapped positions in buf::write

---
 include/cista/targets/buf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/targets/buf.h b/include/cista/targets/buf.h
index 3a37a89..b5905ce 100644
--- a/include/cista/targets/buf.h
+++ b/include/cista/targets/buf.h
@@ -32,7 +32,9 @@ struct buf {
 
   template <typename T>
   void write(std::size_t const pos, T const& val) {
-    verify(buf_.size() >= pos + serialized_size<T>(), "out of bounds write");
+    verify(buf_.size() >= serialized_size<T>() &&
+               pos <= buf_.size() - serialized_size<T>(),
+           "out of bounds write");
     std::memcpy(&buf_[pos], &val, serialized_size<T>());
   }
 
-- 
2.43.0


From 4dd3d7f16e194538d34dfe394c09926c91c44792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 04/55] fix: close the replaced handle when move-assigning a
 file

---
 include/cista/targets/file.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cista/targets/file.h b/include/cista/targets/file.h
index 1b8d599..706fbc2 100644
--- a/include/cista/targets/file.h
+++ b/include/cista/targets/file.h
@@ -73,6 +73,12 @@ struct file {
   }
 
   file& operator=(file&& o) {
+    if (this == &o) {
+      return *this;
+    }
+    if (f_ != nullptr) {
+      CloseHandle(f_);
+    }
     f_ = o.f_;
     size_ = o.size_;
     o.f_ = nullptr;
@@ -227,6 +233,12 @@ struct file {
   }
 
   file& operator=(file&& o) {
+    if (this == &o) {
+      return *this;
+    }
+    if (f_ != nullptr) {
+      std::fclose(f_);
+    }
     f_ = o.f_;
     size_ = o.size_;
     o.f_ = nullptr;
-- 
2.43.0


From 59e72e138195bfb499a0a86d2def60d2d60ca6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 05/55] fix: unmap the whole mapping when destroying an mmap

---
 include/cista/mmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index c6b40d2..b5f7922 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -40,8 +40,8 @@ struct mmap {
   ~mmap() {
     if (addr_ != nullptr) {
       sync();
-      size_ = used_size_;
       unmap();
+      size_ = used_size_;
       if (size_ != f_.size()) {
         resize_file();
       }
-- 
2.43.0


From c0409324ffa89f0a69a15169c9bfc35e84c71242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 06/55] fix: finish the replaced mapping when move-assigning an
 mmap

---
 include/cista/mmap.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index b5f7922..b196639 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -37,16 +37,7 @@ struct mmap {
         used_size_{f_.size()},
         addr_{size_ == 0U ? nullptr : map()} {}
 
-  ~mmap() {
-    if (addr_ != nullptr) {
-      sync();
-      unmap();
-      size_ = used_size_;
-      if (size_ != f_.size()) {
-        resize_file();
-      }
-    }
-  }
+  ~mmap() { close(); }
 
   mmap(mmap const&) = delete;
   mmap& operator=(mmap const&) = delete;
@@ -64,6 +55,10 @@ struct mmap {
   }
 
   mmap& operator=(mmap&& o) {
+    if (this == &o) {
+      return *this;
+    }
+    close();
     f_ = std::move(o.f_);
     prot_ = o.prot_;
     size_ = o.size_;
@@ -126,6 +121,17 @@ struct mmap {
   }
 
 private:
+  void close() {
+    if (addr_ != nullptr) {
+      sync();
+      unmap();
+      size_ = used_size_;
+      if (size_ != f_.size()) {
+        resize_file();
+      }
+    }
+  }
+
   void unmap() {
 #ifdef _WIN32
     if (addr_ != nullptr) {
-- 
2.43.0


From 6ac549e105a7f9c0d746d8b07d67666cd916c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 07/55] fix: initialise default-constructed mmaps

---
 include/cista/mmap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cista/mmap.h b/include/cista/mmap.h
index b196639..78643f0 100755
--- a/include/cista/mmap.h
+++ b/include/cista/mmap.h
@@ -211,12 +211,12 @@ private:
   }
 
   file f_;
-  protection prot_;
-  std::size_t size_;
-  std::size_t used_size_;
-  void* addr_;
+  protection prot_{protection::WRITE};
+  std::size_t size_{0U};
+  std::size_t used_size_{0U};
+  void* addr_{nullptr};
 #ifdef _WIN32
-  HANDLE file_mapping_;
+  HANDLE file_mapping_{nullptr};
 #endif
 };
 
-- 
2.43.0


From b8283019979d42a7da43db8d1913442a946a4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 08/55] fix: read over-aligned root objects from where they
 were written

---
 include/cista/serialization.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 3ebe710..58ef3c4 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -479,6 +479,13 @@ constexpr offset_t data_start(mode const m) noexcept {
   return start;
 }
 
+template <typename T>
+constexpr offset_t root_start(mode const m) noexcept {
+  constexpr auto const alignment =
+      static_cast<offset_t>(std::alignment_of_v<decay_t<T>>);
+  return (data_start(m) + alignment - 1) / alignment * alignment;
+}
+
 template <mode const Mode = mode::NONE, typename Target, typename T>
 void serialize(Target& t, T& value) {
   serialization_context<Target, Mode> c{t};
@@ -1069,7 +1076,7 @@ T* deserialize(std::uint8_t* from, std::uint8_t* to = nullptr) {
     return reinterpret_cast<T*>(from);
   } else {
     check<T, Mode>(from, to);
-    auto const el = reinterpret_cast<T*>(from + data_start(Mode));
+    auto const el = reinterpret_cast<T*>(from + root_start<T>(Mode));
 
     deserialization_context<Mode> c{from, to};
     deserialize(c, el);
-- 
2.43.0


From eda776db592483ed7cbf74d54bcce697909a5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 09/55] fix: make the postfix operators of offset_ptr step

---
 include/cista/containers/offset_ptr.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/offset_ptr.h b/include/cista/containers/offset_ptr.h
index a8e699f..c2a1b15 100644
--- a/include/cista/containers/offset_ptr.h
+++ b/include/cista/containers/offset_ptr.h
@@ -104,8 +104,17 @@ struct offset_ptr {
     return *this;
   }
 
-  offset_ptr operator++(int) const noexcept { return offset_ptr{get() + 1}; }
-  offset_ptr operator--(int) const noexcept { return offset_ptr{get() - 1}; }
+  offset_ptr operator++(int) noexcept {
+    auto const copy = *this;
+    ++*this;
+    return copy;
+  }
+
+  offset_ptr operator--(int) noexcept {
+    auto const copy = *this;
+    --*this;
+    return copy;
+  }
 
   offset_t offset_{NULLPTR_OFFSET};
 };
-- 
2.43.0


From e7189343b9a18e0cc1b0c9e47a66db5cfe2d5998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 10/55] fix: copy optionals from non-const optionals as
 optionals

---
 include/cista/containers/optional.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index a9d5df5..766d144 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -12,7 +12,12 @@ template <typename T>
 struct optional {
   optional() = default;
 
-  template <typename... Ts>
+  template <
+      typename... Ts,
+      typename = std::enable_if_t<
+          !(sizeof...(Ts) == 1U &&
+            ((std::is_same_v<std::decay_t<Ts>, optional> ||
+              std::is_same_v<std::decay_t<Ts>, std::nullopt_t>)&&...))>>
   optional(Ts&&... t) noexcept(std::is_nothrow_constructible_v<T, Ts...>) {
     new (&storage_[0]) T{std::forward<Ts>(t)...};
     valid_ = true;
-- 
2.43.0


From 4d512f3e479426e0ca85b46d49a4b79ac702f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 11/55] fix: destroy the values of optionals

---
 include/cista/containers/optional.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/cista/containers/optional.h b/include/cista/containers/optional.h
index 766d144..e111cca 100644
--- a/include/cista/containers/optional.h
+++ b/include/cista/containers/optional.h
@@ -34,7 +34,21 @@ struct optional {
     return move(std::forward<optional>(other));
   }
 
+  ~optional() { reset(); }
+
+  void reset() noexcept {
+    if (valid_) {
+      valid_ = false;
+      reinterpret_cast<T*>(&storage_[0])->~T();
+    }
+  }
+
   optional& copy(optional const& other) {
+    if (this == &other) {
+      return *this;
+    }
+
+    reset();
     if (other.has_value()) {
       new (&storage_[0]) T{other.value()};
     }
@@ -45,6 +59,11 @@ struct optional {
   }
 
   optional& move(optional&& other) {
+    if (this == &other) {
+      return *this;
+    }
+
+    reset();
     if (other.has_value()) {
       new (&storage_[0]) T(std::move(other.value()));
     }
-- 
2.43.0


From 377d6b9ea802f76d37baf30f3a3eae6adb90c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 12/55] fix: dispatch variants with more than 15 alternatives

---
 include/cista/containers/variant.h | 897 +++++++++++++++--------------
 1 file changed, 449 insertions(+), 448 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index b035975..8b28b09 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -1,448 +1,449 @@
-#pragma once
-
-#include <cinttypes>
-#include <algorithm>
-#include <array>
-#include <limits>
-#include <type_traits>
-
-#include "cista/exception.h"
-#include "cista/hashing.h"
-
-namespace cista {
-
-template <std::size_t Size, typename Enable = void>
-struct bytes_to_integer_type {};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
-  using type = std::uint8_t;
-};
-
-template <std::size_t Size>
-struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
-  using type = std::uint16_t;
-};
-
-template <typename... T>
-constexpr std::size_t bytes() noexcept {
-  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
-}
-
-template <typename... T>
-using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
-
-constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
-
-template <typename Arg, typename... T>
-constexpr std::size_t index_of_type() noexcept {
-  constexpr std::array<bool, sizeof...(T)> matches = {
-      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
-  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
-    if (matches[i]) {
-      return i;
-    }
-  }
-  return TYPE_NOT_FOUND;
-}
-
-template <int N, typename... T>
-struct type_at_index;
-
-template <typename First, typename... Rest>
-struct type_at_index<0, First, Rest...> {
-  using type = First;
-};
-
-template <int N, typename First, typename... Rest>
-struct type_at_index<N, First, Rest...> {
-  using type = typename type_at_index<N - 1, Rest...>::type;
-};
-
-template <std::size_t Index, typename... T>
-using type_at_index_t = typename type_at_index<Index, T...>::type;
-
-template <typename... T>
-struct variant {
-  using index_t = variant_index_t<T...>;
-  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
-
-  constexpr variant() noexcept : idx_{NO_VALUE} {}
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  constexpr variant(Arg&& arg)
-      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
-#if defined(CISTA_ZERO_OUT)
-    std::memset(&storage_, 0, sizeof(storage_));
-#endif
-    using Type = std::decay_t<Arg>;
-    new (&storage_) Type(std::forward<Arg>(arg));
-  }
-
-  variant(variant const& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::forward<decltype(el)>(el));
-    });
-  }
-  variant(variant&& o) : idx_{o.idx_} {
-    o.apply([this](auto&& el) {
-      using Type = std::decay_t<decltype(el)>;
-      new (&storage_) Type(std::move(el));
-    });
-  }
-
-  variant& operator=(variant const& o) {
-    return o.apply([&](auto&& el) -> variant& { return *this = el; });
-  }
-  variant& operator=(variant&& o) {
-    return o.apply(
-        [&](auto&& el) -> variant& { return *this = std::move(el); });
-  }
-
-  template <typename Arg,
-            typename = std::enable_if_t<
-                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
-  variant& operator=(Arg&& arg) {
-    if (index_of_type<Arg, T...>() == idx_) {
-      apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
-          el = std::move(arg);
-        }
-      });
-      return *this;
-    }
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
-    return *this;
-  }
-#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
-  constexpr
-#endif
-      ~variant() {
-    destruct();
-  }
-
-  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
-
-  constexpr operator bool() const noexcept { return valid(); }
-
-  friend bool operator==(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
-                       a.idx_, a, b)
-               : false;
-  }
-
-  friend bool operator!=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
-                       a.idx_, a, b)
-               : true;
-  }
-
-  friend bool operator<(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
-                       a, b)
-               : a.idx_ < b.idx_;
-  }
-
-  friend bool operator>(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
-                       a, b)
-               : a.idx_ > b.idx_;
-  }
-
-  friend bool operator<=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
-                       a.idx_, a, b)
-               : a.idx_ <= b.idx_;
-  }
-
-  friend bool operator>=(variant const& a, variant const& b) noexcept {
-    return a.idx_ == b.idx_
-               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
-                       a.idx_, a, b)
-               : a.idx_ >= b.idx_;
-  }
-
-  template <typename Arg, typename... CtorArgs>
-  Arg& emplace(CtorArgs&&... ctor_args) {
-    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
-    destruct();
-    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
-    return *(new (&storage_)
-                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  template <std::size_t I, typename... CtorArgs>
-  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
-    static_assert(I < sizeof...(T));
-    destruct();
-    idx_ = I;
-    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
-        std::forward<CtorArgs>(ctor_args)...});
-  }
-
-  constexpr std::size_t index() const noexcept { return idx_; }
-
-  void swap(variant& o) {
-    if (idx_ == o.idx_) {
-      apply(
-          [](auto&& a, auto&& b) {
-            using std::swap;
-            swap(a, b);
-          },
-          idx_, *this, o);
-    } else {
-      variant tmp{std::move(o)};
-      o = std::move(*this);
-      *this = std::move(tmp);
-    }
-  }
-
-  constexpr void destruct() {
-    if (idx_ != NO_VALUE) {
-      apply([](auto&& el) {
-        using el_type = std::decay_t<decltype(el)>;
-        el.~el_type();
-      });
-    }
-  }
-
-  template <typename F>
-  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-  template <typename F>
-  auto apply(F&& f) const
-      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
-    if (idx_ == NO_VALUE) {
-      throw_exception(std::runtime_error{"variant::apply: no value"});
-    }
-    return apply(std::forward<F>(f), idx_, *this);
-  }
-
-#ifdef _MSC_VER
-  static __declspec(noreturn) void noret() {}
-#endif
-
-  template <typename F, std::size_t B = 0U, typename... Vs>
-  static auto apply(F&& f, index_t const idx, Vs&&... vs)
-      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
-    switch (idx) {
-      case B + 0U:
-        if constexpr (B + 0U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 1U:
-        if constexpr (B + 1U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 2U:
-        if constexpr (B + 2U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 3U:
-        if constexpr (B + 3U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 4U:
-        if constexpr (B + 4U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 5U:
-        if constexpr (B + 5U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 6U:
-        if constexpr (B + 6U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 7U:
-        if constexpr (B + 7U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 8U:
-        if constexpr (B + 8U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 9U:
-        if constexpr (B + 9U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 10U:
-        if constexpr (B + 10U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 11U:
-        if constexpr (B + 11U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 12U:
-        if constexpr (B + 12U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 13U:
-        if constexpr (B + 13U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 14U:
-        if constexpr (B + 14U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
-        }
-        [[fallthrough]];
-      case B + 15U:
-        if constexpr (B + 15U < sizeof...(T)) {
-          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
-        }
-        break;
-    }
-
-    if constexpr (B + 15U < sizeof...(T)) {
-      return apply<F, B + 16U>(std::forward<F>(f), std::forward<Vs>(vs)...);
-    }
-
-#ifndef _MSC_VER
-    __builtin_unreachable();
-#else
-    noret();
-#endif
-  }
-
-  template <typename AsType>
-  AsType& as() noexcept {
-    return *reinterpret_cast<AsType*>(&storage_);
-  }
-
-  template <typename AsType>
-  AsType const& as() const noexcept {
-    return *reinterpret_cast<AsType const*>(&storage_);
-  }
-
-  hash_t hash() const noexcept {
-    return apply([&](auto&& val) {
-      auto const idx = index();
-      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
-      h = hashing<decltype(val)>{}(val, h);
-      return h;
-    });
-  }
-
-  index_t idx_{NO_VALUE};
-  std::aligned_union_t<0, T...> storage_{};
-};
-
-template <typename T, typename... Ts>
-bool holds_alternative(variant<Ts...> const& v) noexcept {
-  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...> const& get(
-    cista::variant<Ts...> const& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <std::size_t I, typename... Ts>
-constexpr cista::type_at_index_t<I, Ts...>& get(
-    cista::variant<Ts...>& v) noexcept {
-  return v.template as<cista::type_at_index_t<I, Ts...>>();
-}
-
-template <class T, class... Ts>
-constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-template <class T, class... Ts>
-constexpr T& get(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.template as<T>();
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <std::size_t I, typename... Ts>
-constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
-    cista::variant<Ts...>& v) noexcept {
-  static_assert(I < sizeof...(Ts));
-  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
-                     : nullptr;
-}
-
-template <class T, class... Ts>
-constexpr std::add_pointer_t<T const> get_if(
-    cista::variant<Ts...> const& v) noexcept {
-  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
-  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
-                                                    : nullptr;
-}
-
-template <class T>
-struct variant_size;
-
-template <class... T>
-struct variant_size<variant<T...>>
-    : std::integral_constant<std::size_t, sizeof...(T)> {};
-
-template <class T>
-constexpr std::size_t variant_size_v = variant_size<T>::value;
-
-namespace raw {
-using cista::variant;
-}  // namespace raw
-
-namespace offset {
-using cista::variant;
-}  // namespace offset
-
-}  // namespace cista
-
-namespace std {
-
-template <typename Visitor, typename... T>
-constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
-  v.apply(vis);
-}
-
-using cista::get;
-
-}  // namespace std
+#pragma once
+
+#include <cinttypes>
+#include <algorithm>
+#include <array>
+#include <limits>
+#include <type_traits>
+
+#include "cista/exception.h"
+#include "cista/hashing.h"
+
+namespace cista {
+
+template <std::size_t Size, typename Enable = void>
+struct bytes_to_integer_type {};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 1U>> {
+  using type = std::uint8_t;
+};
+
+template <std::size_t Size>
+struct bytes_to_integer_type<Size, std::enable_if_t<Size == 2U>> {
+  using type = std::uint16_t;
+};
+
+template <typename... T>
+constexpr std::size_t bytes() noexcept {
+  return (sizeof...(T) > std::numeric_limits<std::uint8_t>::max()) ? 2U : 1U;
+}
+
+template <typename... T>
+using variant_index_t = typename bytes_to_integer_type<bytes<T...>()>::type;
+
+constexpr auto const TYPE_NOT_FOUND = std::numeric_limits<std::size_t>::max();
+
+template <typename Arg, typename... T>
+constexpr std::size_t index_of_type() noexcept {
+  constexpr std::array<bool, sizeof...(T)> matches = {
+      {std::is_same<std::decay_t<Arg>, std::decay_t<T>>::value...}};
+  for (std::size_t i = 0U; i < sizeof...(T); ++i) {
+    if (matches[i]) {
+      return i;
+    }
+  }
+  return TYPE_NOT_FOUND;
+}
+
+template <int N, typename... T>
+struct type_at_index;
+
+template <typename First, typename... Rest>
+struct type_at_index<0, First, Rest...> {
+  using type = First;
+};
+
+template <int N, typename First, typename... Rest>
+struct type_at_index<N, First, Rest...> {
+  using type = typename type_at_index<N - 1, Rest...>::type;
+};
+
+template <std::size_t Index, typename... T>
+using type_at_index_t = typename type_at_index<Index, T...>::type;
+
+template <typename... T>
+struct variant {
+  using index_t = variant_index_t<T...>;
+  static constexpr auto NO_VALUE = std::numeric_limits<index_t>::max();
+
+  constexpr variant() noexcept : idx_{NO_VALUE} {}
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  constexpr variant(Arg&& arg)
+      : idx_{static_cast<index_t>(index_of_type<Arg, T...>())} {
+#if defined(CISTA_ZERO_OUT)
+    std::memset(&storage_, 0, sizeof(storage_));
+#endif
+    using Type = std::decay_t<Arg>;
+    new (&storage_) Type(std::forward<Arg>(arg));
+  }
+
+  variant(variant const& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::forward<decltype(el)>(el));
+    });
+  }
+  variant(variant&& o) : idx_{o.idx_} {
+    o.apply([this](auto&& el) {
+      using Type = std::decay_t<decltype(el)>;
+      new (&storage_) Type(std::move(el));
+    });
+  }
+
+  variant& operator=(variant const& o) {
+    return o.apply([&](auto&& el) -> variant& { return *this = el; });
+  }
+  variant& operator=(variant&& o) {
+    return o.apply(
+        [&](auto&& el) -> variant& { return *this = std::move(el); });
+  }
+
+  template <typename Arg,
+            typename = std::enable_if_t<
+                index_of_type<std::decay_t<Arg>, T...>() != TYPE_NOT_FOUND>>
+  variant& operator=(Arg&& arg) {
+    if (index_of_type<Arg, T...>() == idx_) {
+      apply([&](auto&& el) {
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
+          el = std::move(arg);
+        }
+      });
+      return *this;
+    }
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    new (&storage_) std::decay_t<Arg>{std::forward<Arg>(arg)};
+    return *this;
+  }
+#if _MSVC_LANG >= 202002L || __cplusplus >= 202002L
+  constexpr
+#endif
+      ~variant() {
+    destruct();
+  }
+
+  constexpr bool valid() const noexcept { return index() != NO_VALUE; }
+
+  constexpr operator bool() const noexcept { return valid(); }
+
+  friend bool operator==(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
+                       a.idx_, a, b)
+               : false;
+  }
+
+  friend bool operator!=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
+                       a.idx_, a, b)
+               : true;
+  }
+
+  friend bool operator<(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
+                       a, b)
+               : a.idx_ < b.idx_;
+  }
+
+  friend bool operator>(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
+                       a, b)
+               : a.idx_ > b.idx_;
+  }
+
+  friend bool operator<=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
+                       a.idx_, a, b)
+               : a.idx_ <= b.idx_;
+  }
+
+  friend bool operator>=(variant const& a, variant const& b) noexcept {
+    return a.idx_ == b.idx_
+               ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
+                       a.idx_, a, b)
+               : a.idx_ >= b.idx_;
+  }
+
+  template <typename Arg, typename... CtorArgs>
+  Arg& emplace(CtorArgs&&... ctor_args) {
+    static_assert(index_of_type<Arg, T...>() != TYPE_NOT_FOUND);
+    destruct();
+    idx_ = static_cast<index_t>(index_of_type<Arg, T...>());
+    return *(new (&storage_)
+                 std::decay_t<Arg>{std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  template <std::size_t I, typename... CtorArgs>
+  type_at_index_t<I, T...>& emplace(CtorArgs&&... ctor_args) {
+    static_assert(I < sizeof...(T));
+    destruct();
+    idx_ = I;
+    return *(new (&storage_) std::decay_t<type_at_index_t<I, T...>>{
+        std::forward<CtorArgs>(ctor_args)...});
+  }
+
+  constexpr std::size_t index() const noexcept { return idx_; }
+
+  void swap(variant& o) {
+    if (idx_ == o.idx_) {
+      apply(
+          [](auto&& a, auto&& b) {
+            using std::swap;
+            swap(a, b);
+          },
+          idx_, *this, o);
+    } else {
+      variant tmp{std::move(o)};
+      o = std::move(*this);
+      *this = std::move(tmp);
+    }
+  }
+
+  constexpr void destruct() {
+    if (idx_ != NO_VALUE) {
+      apply([](auto&& el) {
+        using el_type = std::decay_t<decltype(el)>;
+        el.~el_type();
+      });
+    }
+  }
+
+  template <typename F>
+  auto apply(F&& f) -> decltype(f(std::declval<type_at_index_t<0U, T...>&>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+  template <typename F>
+  auto apply(F&& f) const
+      -> decltype(f(std::declval<type_at_index_t<0U, T...>>())) {
+    if (idx_ == NO_VALUE) {
+      throw_exception(std::runtime_error{"variant::apply: no value"});
+    }
+    return apply(std::forward<F>(f), idx_, *this);
+  }
+
+#ifdef _MSC_VER
+  static __declspec(noreturn) void noret() {}
+#endif
+
+  template <typename F, std::size_t B = 0U, typename... Vs>
+  static auto apply(F&& f, index_t const idx, Vs&&... vs)
+      -> decltype(f((vs, std::declval<type_at_index_t<0U, T...>&>())...)) {
+    switch (idx) {
+      case B + 0U:
+        if constexpr (B + 0U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 0U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 1U:
+        if constexpr (B + 1U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 1U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 2U:
+        if constexpr (B + 2U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 2U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 3U:
+        if constexpr (B + 3U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 3U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 4U:
+        if constexpr (B + 4U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 4U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 5U:
+        if constexpr (B + 5U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 5U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 6U:
+        if constexpr (B + 6U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 6U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 7U:
+        if constexpr (B + 7U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 7U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 8U:
+        if constexpr (B + 8U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 8U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 9U:
+        if constexpr (B + 9U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 9U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 10U:
+        if constexpr (B + 10U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 10U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 11U:
+        if constexpr (B + 11U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 11U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 12U:
+        if constexpr (B + 12U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 12U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 13U:
+        if constexpr (B + 13U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 13U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 14U:
+        if constexpr (B + 14U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 14U, T...>>()...);
+        }
+        [[fallthrough]];
+      case B + 15U:
+        if constexpr (B + 15U < sizeof...(T)) {
+          return f(vs.template as<type_at_index_t<B + 15U, T...>>()...);
+        }
+        break;
+    }
+
+    if constexpr (B + 16U < sizeof...(T)) {
+      return apply<F, B + 16U>(std::forward<F>(f), idx,
+                               std::forward<Vs>(vs)...);
+    }
+
+#ifndef _MSC_VER
+    __builtin_unreachable();
+#else
+    noret();
+#endif
+  }
+
+  template <typename AsType>
+  AsType& as() noexcept {
+    return *reinterpret_cast<AsType*>(&storage_);
+  }
+
+  template <typename AsType>
+  AsType const& as() const noexcept {
+    return *reinterpret_cast<AsType const*>(&storage_);
+  }
+
+  hash_t hash() const noexcept {
+    return apply([&](auto&& val) {
+      auto const idx = index();
+      auto h = hashing<decltype(idx)>{}(idx, BASE_HASH);
+      h = hashing<decltype(val)>{}(val, h);
+      return h;
+    });
+  }
+
+  index_t idx_{NO_VALUE};
+  std::aligned_union_t<0, T...> storage_{};
+};
+
+template <typename T, typename... Ts>
+bool holds_alternative(variant<Ts...> const& v) noexcept {
+  return v.idx_ == index_of_type<std::decay_t<T>, Ts...>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...> const& get(
+    cista::variant<Ts...> const& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <std::size_t I, typename... Ts>
+constexpr cista::type_at_index_t<I, Ts...>& get(
+    cista::variant<Ts...>& v) noexcept {
+  return v.template as<cista::type_at_index_t<I, Ts...>>();
+}
+
+template <class T, class... Ts>
+constexpr T const& get(cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+template <class T, class... Ts>
+constexpr T& get(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.template as<T>();
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T> get_if(cista::variant<Ts...>& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...> const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <std::size_t I, typename... Ts>
+constexpr std::add_pointer_t<cista::type_at_index_t<I, Ts...>> get_if(
+    cista::variant<Ts...>& v) noexcept {
+  static_assert(I < sizeof...(Ts));
+  return v.idx_ == I ? &v.template as<cista::type_at_index_t<I, Ts...>>()
+                     : nullptr;
+}
+
+template <class T, class... Ts>
+constexpr std::add_pointer_t<T const> get_if(
+    cista::variant<Ts...> const& v) noexcept {
+  static_assert(cista::index_of_type<T, Ts...>() != cista::TYPE_NOT_FOUND);
+  return v.idx_ == cista::index_of_type<T, Ts...>() ? &v.template as<T>()
+                                                    : nullptr;
+}
+
+template <class T>
+struct variant_size;
+
+template <class... T>
+struct variant_size<variant<T...>>
+    : std::integral_constant<std::size_t, sizeof...(T)> {};
+
+template <class T>
+constexpr std::size_t variant_size_v = variant_size<T>::value;
+
+namespace raw {
+using cista::variant;
+}  // namespace raw
+
+namespace offset {
+using cista::variant;
+}  // namespace offset
+
+}  // namespace cista
+
+namespace std {
+
+template <typename Visitor, typename... T>
+constexpr auto visit(Visitor&& vis, cista::variant<T...>&& v) {
+  v.apply(vis);
+}
+
+using cista::get;
+
+}  // namespace std
-- 
2.43.0


From 8eeaef5ab27e41f3eb501f08319278a51f54e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 13/55] fix: assign lvalues to the active alternative of
 variants

---
 include/cista/containers/variant.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 8b28b09..5d6a533 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -108,8 +108,9 @@ struct variant {
   variant& operator=(Arg&& arg) {
     if (index_of_type<Arg, T...>() == idx_) {
       apply([&](auto&& el) {
-        if constexpr (std::is_same_v<std::decay_t<decltype(el)>, Arg>) {
-          el = std::move(arg);
+        if constexpr (std::is_same_v<std::decay_t<decltype(el)>,
+                                     std::decay_t<Arg>>) {
+          el = std::forward<Arg>(arg);
         }
       });
       return *this;
-- 
2.43.0


From 0b48c5c4f9f0907fd8c3fa30e8deea6c7cc0fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 14/55] fix: copy and move variants without value

---
 include/cista/containers/variant.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 5d6a533..5c57ca6 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -82,12 +82,18 @@ struct variant {
   }
 
   variant(variant const& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::forward<decltype(el)>(el));
     });
   }
   variant(variant&& o) : idx_{o.idx_} {
+    if (!o.valid()) {
+      return;
+    }
     o.apply([this](auto&& el) {
       using Type = std::decay_t<decltype(el)>;
       new (&storage_) Type(std::move(el));
@@ -95,9 +101,19 @@ struct variant {
   }
 
   variant& operator=(variant const& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply([&](auto&& el) -> variant& { return *this = el; });
   }
   variant& operator=(variant&& o) {
+    if (!o.valid()) {
+      destruct();
+      idx_ = NO_VALUE;
+      return *this;
+    }
     return o.apply(
         [&](auto&& el) -> variant& { return *this = std::move(el); });
   }
-- 
2.43.0


From 4735e52bd16671ceb2571acee1bbed1d61086844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 15/55] fix: compare and swap variants without value

---
 include/cista/containers/variant.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/cista/containers/variant.h b/include/cista/containers/variant.h
index 5c57ca6..9fa5c22 100755
--- a/include/cista/containers/variant.h
+++ b/include/cista/containers/variant.h
@@ -148,6 +148,9 @@ struct variant {
   constexpr operator bool() const noexcept { return valid(); }
 
   friend bool operator==(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u == v; },
                        a.idx_, a, b)
@@ -155,6 +158,9 @@ struct variant {
   }
 
   friend bool operator!=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u != v; },
                        a.idx_, a, b)
@@ -162,6 +168,9 @@ struct variant {
   }
 
   friend bool operator<(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
                        a, b)
@@ -169,6 +178,9 @@ struct variant {
   }
 
   friend bool operator>(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return false;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u > v; }, a.idx_,
                        a, b)
@@ -176,6 +188,9 @@ struct variant {
   }
 
   friend bool operator<=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u <= v; },
                        a.idx_, a, b)
@@ -183,6 +198,9 @@ struct variant {
   }
 
   friend bool operator>=(variant const& a, variant const& b) noexcept {
+    if (!a.valid() && !b.valid()) {
+      return true;
+    }
     return a.idx_ == b.idx_
                ? apply([](auto&& u, auto&& v) -> bool { return u >= v; },
                        a.idx_, a, b)
@@ -211,6 +229,9 @@ struct variant {
 
   void swap(variant& o) {
     if (idx_ == o.idx_) {
+      if (!valid()) {
+        return;
+      }
       apply(
           [](auto&& a, auto&& b) {
             using std::swap;
-- 
2.43.0


From 121fc9bff2338f5951e1f1574e75bcb63ab3f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 16/55] fix: reset non-owning unique_ptrs to null

---
 include/cista/containers/unique_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index c490a6b..1d41b20 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -47,9 +47,9 @@ struct basic_unique_ptr {
   void reset() {
     if (self_allocated_ && el_ != nullptr) {
       delete el_;
-      el_ = nullptr;
-      self_allocated_ = false;
     }
+    el_ = nullptr;
+    self_allocated_ = false;
   }
 
   explicit operator bool() const noexcept { return el_ != nullptr; }
-- 
2.43.0


From b6000e1a8526aeae6f1aa0e9247845c77ececd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 17/55] fix: keep the object when a unique_ptr is move-assigned
 to itself

---
 include/cista/containers/unique_ptr.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/containers/unique_ptr.h b/include/cista/containers/unique_ptr.h
index 1d41b20..f1c1158 100644
--- a/include/cista/containers/unique_ptr.h
+++ b/include/cista/containers/unique_ptr.h
@@ -28,6 +28,9 @@ struct basic_unique_ptr {
   }
 
   basic_unique_ptr& operator=(basic_unique_ptr&& o) noexcept {
+    if (this == &o) {
+      return *this;
+    }
     reset();
     el_ = o.el_;
     self_allocated_ = o.self_allocated_;
-- 
2.43.0


From 55fb9acedbce762ec75d39ea14eed618d81d3990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 18/55] fix: grow vectors beyond half of the range of their
 size type

---
 include/cista/containers/vector.h | 33 ++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 6e592fc..01713eb 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -216,7 +216,7 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + 1);
+    reserve_additional(1U);
     new (el_ + used_size_) T{std::forward<Arg&&>(el)};
     ++used_size_;
 
@@ -228,7 +228,7 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve(used_size_ + count);
+    reserve_additional(count);
     for (auto i = size_type{0U}; i < count; ++i) {
       new (el_ + used_size_) T{value};
       ++used_size_;
@@ -243,7 +243,7 @@ struct basic_vector {
     auto const old_size = used_size_;
 
     for (; !(first == last); ++first) {
-      reserve(used_size_ + 1);
+      reserve_additional(1U);
       new (el_ + used_size_) T{std::forward<decltype(*first)>(*first)};
       ++used_size_;
     }
@@ -259,8 +259,12 @@ struct basic_vector {
     }
 
     auto const pos_idx = pos - begin();
-    auto const new_count = static_cast<size_type>(std::distance(first, last));
-    reserve(used_size_ + new_count);
+    auto const range_size = std::distance(first, last);
+    verify(
+        range_size >= 0 && range_size <= std::numeric_limits<size_type>::max(),
+        "cista::vector::insert: invalid range");
+    auto const new_count = static_cast<size_type>(range_size);
+    reserve_additional(new_count);
     pos = begin() + pos_idx;
 
     for (auto src_last = end() - 1, dest_last = end() + new_count - 1;
@@ -292,20 +296,20 @@ struct basic_vector {
   }
 
   void push_back(T const& el) {
-    reserve(used_size_ + 1U);
+    reserve_additional(1U);
     new (el_ + used_size_) T(el);
     ++used_size_;
   }
 
   void push_back(T&& el) {
-    reserve(used_size_ + 1U);
+    reserve_additional(1U);
     new (el_ + used_size_) T(std::move(el));
     ++used_size_;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve(used_size_ + 1U);
+    reserve_additional(1U);
     new (el_ + used_size_) T{std::forward<Args>(el)...};
     T* ptr = el_ + used_size_;
     ++used_size_;
@@ -342,6 +346,12 @@ struct basic_vector {
     used_size_ = 0;
   }
 
+  void reserve_additional(size_type const n) {
+    verify(n <= std::numeric_limits<size_type>::max() - used_size_,
+           "cista::vector: too many elements");
+    reserve(static_cast<size_type>(used_size_ + n));
+  }
+
   void reserve(size_type new_size) {
     new_size = std::max(allocated_size_, new_size);
 
@@ -349,7 +359,12 @@ struct basic_vector {
       return;
     }
 
-    auto next_size = next_power_of_two(new_size);
+    // The next power of two may exceed the range of size_type.
+    auto const next_size = std::max(next_power_of_two(new_size), new_size);
+    if (next_size > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+      throw_exception(std::bad_alloc());
+    }
+
     auto num_bytes = static_cast<std::size_t>(next_size) * sizeof(T);
     auto mem_buf = static_cast<T*>(std::malloc(num_bytes));  // NOLINT
     if (mem_buf == nullptr) {
-- 
2.43.0


From de3cb72903ab9e6bc7aed23287f60420ff4d811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 19/55] fix: destroy the elements replaced by basic_vector::set

---
 include/cista/containers/vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 01713eb..8ed4467 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -175,6 +175,7 @@ struct basic_vector {
         range_size >= 0 && range_size <= std::numeric_limits<size_type>::max(),
         "cista::vector::set: invalid range");
 
+    clear();
     reserve(static_cast<size_type>(range_size));
 
     auto copy_source = begin_it;
-- 
2.43.0


From 4edf82481e59e76f53061e7c091c1e448acc50d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 20/55] fix: destroy the elements cut off by
 basic_vector::resize

---
 include/cista/containers/vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 8ed4467..ab3a61c 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -319,6 +319,9 @@ struct basic_vector {
 
   void resize(size_type const size) {
     reserve(size);
+    for (auto i = size; i < used_size_; ++i) {
+      el_[i].~T();
+    }
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{};
     }
@@ -327,6 +330,9 @@ struct basic_vector {
 
   void resize(size_type const size, T init) {
     reserve(size);
+    for (auto i = size; i < used_size_; ++i) {
+      el_[i].~T();
+    }
     for (auto i = used_size_; i < size; ++i) {
       new (el_ + i) T{init};
     }
-- 
2.43.0


From c474b15399d2ee0f9dff1c4959300897b41a5d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 21/55] fix: append and insert elements of the growing vector
 itself

---
 include/cista/containers/vector.h | 36 ++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index ab3a61c..e882610 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -217,9 +217,7 @@ struct basic_vector {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
 
-    reserve_additional(1U);
-    new (el_ + used_size_) T{std::forward<Arg&&>(el)};
-    ++used_size_;
+    emplace_back(std::forward<Arg>(el));
 
     return std::rotate(begin() + old_offset, begin() + old_size, end());
   }
@@ -228,10 +226,11 @@ struct basic_vector {
   constexpr T* insert(T* it, size_type const count, El const& value) {
     auto const old_offset = std::distance(begin(), it);
     auto const old_size = used_size_;
+    auto const copy = value;  // may be an element of this vector
 
     reserve_additional(count);
     for (auto i = size_type{0U}; i < count; ++i) {
-      new (el_ + used_size_) T{value};
+      new (el_ + used_size_) T{copy};
       ++used_size_;
     }
 
@@ -296,22 +295,39 @@ struct basic_vector {
                   typename std::iterator_traits<It>::iterator_category());
   }
 
+  // The arguments of the following functions may refer to elements, which are
+  // moved when the vector grows.
   void push_back(T const& el) {
-    reserve_additional(1U);
-    new (el_ + used_size_) T(el);
+    if (used_size_ == allocated_size_) {
+      auto tmp = T(el);
+      reserve_additional(1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T(el);
+    }
     ++used_size_;
   }
 
   void push_back(T&& el) {
-    reserve_additional(1U);
-    new (el_ + used_size_) T(std::move(el));
+    if (used_size_ == allocated_size_) {
+      auto tmp = T(std::move(el));
+      reserve_additional(1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T(std::move(el));
+    }
     ++used_size_;
   }
 
   template <typename... Args>
   T& emplace_back(Args&&... el) {
-    reserve_additional(1U);
-    new (el_ + used_size_) T{std::forward<Args>(el)...};
+    if (used_size_ == allocated_size_) {
+      auto tmp = T{std::forward<Args>(el)...};
+      reserve_additional(1U);
+      new (el_ + used_size_) T(std::move(tmp));
+    } else {
+      new (el_ + used_size_) T{std::forward<Args>(el)...};
+    }
     T* ptr = el_ + used_size_;
     ++used_size_;
     return *ptr;
-- 
2.43.0


From 64579e5dd80b79f98bea25358bf729b4de1ffbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 22/55] fix: return the element behind the erased range

---
 include/cista/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index e882610..4a8f71a 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -439,7 +439,7 @@ struct basic_vector {
       }
       used_size_ -= static_cast<size_type>(std::distance(new_end, end()));
     }
-    return end();
+    return first;
   }
 
   bool contains(T const* el) const noexcept {
-- 
2.43.0


From 9642359f472969674519b2453cbd42b98243b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 23/55] fix: do not move elements onto themselves when
 inserting an empty range

---
 include/cista/containers/vector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index 4a8f71a..d871d73 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -253,6 +253,10 @@ struct basic_vector {
 
   template <class FwdIt>
   T* insert(T* pos, FwdIt first, FwdIt last, std::forward_iterator_tag) {
+    if (first == last) {
+      return pos;
+    }
+
     if (empty()) {
       set(first, last);
       return begin();
-- 
2.43.0


From 977659e9086bc0a21bb604046820c8284f040749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 24/55] fix: return the inserted element

---
 include/cista/containers/vector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/vector.h b/include/cista/containers/vector.h
index d871d73..0b67963 100644
--- a/include/cista/containers/vector.h
+++ b/include/cista/containers/vector.h
@@ -219,7 +219,8 @@ struct basic_vector {
 
     emplace_back(std::forward<Arg>(el));
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <typename El>
@@ -234,7 +235,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class InputIt>
@@ -248,7 +250,8 @@ struct basic_vector {
       ++used_size_;
     }
 
-    return std::rotate(begin() + old_offset, begin() + old_size, end());
+    std::rotate(begin() + old_offset, begin() + old_size, end());
+    return begin() + old_offset;
   }
 
   template <class FwdIt>
-- 
2.43.0


From d830955ece6c1d776ff2b7c11f0069211b928f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 25/55] fix: assign parts of a string to the string itself

---
 include/cista/containers/string.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 8334af5..0f64483 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -96,24 +96,27 @@ struct generic_string {
   static constexpr msize_t short_length_limit = 15U / sizeof(CharT);
 
   void set_owning(CharT const* str, msize_t const len) {
-    reset();
     if (str == nullptr || len == 0U) {
+      reset();
       return;
     }
-    s_.is_short_ = (len <= short_length_limit);
-    if (s_.is_short_) {
-      std::memcpy(s_.s_, str, len * sizeof(CharT));
-      for (auto i = len; i < short_length_limit; ++i) {
-        s_.s_[i] = 0;
-      }
+    // The characters may be part of this string: copy before releasing them.
+    if (len <= short_length_limit) {
+      CharT s[short_length_limit]{};
+      std::memcpy(s, str, len * sizeof(CharT));
+      reset();
+      s_.is_short_ = true;
+      std::memcpy(s_.s_, s, sizeof(s));
     } else {
-      h_.ptr_ = static_cast<CharT*>(std::malloc(len * sizeof(CharT)));
-      if (h_.ptr_ == nullptr) {
+      auto const mem = static_cast<CharT*>(std::malloc(len * sizeof(CharT)));
+      if (mem == nullptr) {
         throw_exception(std::bad_alloc{});
       }
+      std::memcpy(mem, str, len * sizeof(CharT));
+      reset();
+      h_.ptr_ = mem;
       h_.size_ = len;
       h_.self_allocated_ = true;
-      std::memcpy(data(), str, len * sizeof(CharT));
     }
   }
 
@@ -128,8 +131,8 @@ struct generic_string {
   void set_non_owning(CharT const* str) { set_non_owning(str, mstrlen(str)); }
 
   void set_non_owning(CharT const* str, msize_t const len) {
-    reset();
     if (str == nullptr || len == 0U) {
+      reset();
       return;
     }
 
@@ -137,6 +140,7 @@ struct generic_string {
       return set_owning(str, len);
     }
 
+    reset();
     h_.is_short_ = false;
     h_.self_allocated_ = false;
     h_.ptr_ = str;
-- 
2.43.0


From dca86519818c6884f7cb1eb20ab1aca90705cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 26/55] fix: reject strings longer than the size type allows

---
 include/cista/containers/string.h | 38 +++++++++++++++++++------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/cista/containers/string.h b/include/cista/containers/string.h
index 0f64483..5889c12 100644
--- a/include/cista/containers/string.h
+++ b/include/cista/containers/string.h
@@ -3,7 +3,9 @@
 #include <cinttypes>
 #include <cstring>
 
+#include <limits>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 
@@ -19,8 +21,15 @@ struct generic_string {
   using msize_t = std::uint32_t;
   using value_type = CharT;
 
-  static msize_t mstrlen(CharT const* s) noexcept {
-    return static_cast<msize_t>(std::char_traits<CharT>::length(s));
+  static msize_t to_msize(std::size_t const n) {
+    if (n > std::numeric_limits<msize_t>::max()) {
+      throw_exception(std::length_error{"cista::string: too long"});
+    }
+    return static_cast<msize_t>(n);
+  }
+
+  static msize_t mstrlen(CharT const* s) {
+    return to_msize(std::char_traits<CharT>::length(s));
   }
 
   static constexpr struct owning_t {
@@ -84,11 +93,11 @@ struct generic_string {
   }
 
   void set_owning(std::basic_string<CharT> const& s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(std::basic_string_view<CharT> s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(CharT const* str) { set_owning(str, mstrlen(str)); }
@@ -121,11 +130,11 @@ struct generic_string {
   }
 
   void set_non_owning(std::basic_string<CharT> const& v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(std::basic_string_view<CharT> v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(CharT const* str) { set_non_owning(str, mstrlen(str)); }
@@ -370,16 +379,17 @@ struct generic_string {
   }
 
   constexpr bool starts_with(generic_string const& s) const noexcept {
-    return starts_with(s.data(), static_cast<msize_t>(s.size()));
+    return starts_with(s.data(), s.size());
   }
   constexpr bool starts_with(
       std::basic_string_view<CharT> const& sv) const noexcept {
-    return starts_with(sv.data(), static_cast<msize_t>(sv.size()));
+    return starts_with(sv.data(), sv.size());
   }
   constexpr bool starts_with(CharT const* s) const noexcept {
-    return starts_with(s, mstrlen(s));
+    return starts_with(s, std::char_traits<CharT>::length(s));
   }
-  constexpr bool starts_with(CharT const* s, msize_t size_s) const noexcept {
+  constexpr bool starts_with(CharT const* s,
+                             std::size_t size_s) const noexcept {
     if (size_s > size()) {
       return false;
     }
@@ -399,16 +409,16 @@ struct generic_string {
   }
 
   constexpr bool ends_with(generic_string const& s) const noexcept {
-    return ends_with(s.data(), static_cast<msize_t>(s.size()));
+    return ends_with(s.data(), s.size());
   }
   constexpr bool ends_with(
       std::basic_string_view<CharT> const& sv) const noexcept {
-    return ends_with(sv.data(), static_cast<msize_t>(sv.size()));
+    return ends_with(sv.data(), sv.size());
   }
   constexpr bool ends_with(CharT const* s) const noexcept {
-    return ends_with(s, mstrlen(s));
+    return ends_with(s, std::char_traits<CharT>::length(s));
   }
-  constexpr bool ends_with(CharT const* s, msize_t size_s) const noexcept {
+  constexpr bool ends_with(CharT const* s, std::size_t size_s) const noexcept {
     if (size_s > size()) {
       return false;
     }
-- 
2.43.0


From 857f8bd0ed5f4d8bd8054d372c6151ed0e921813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 27/55] fix: assign long cstrings and parts of a cstring to
 itself

---
 include/cista/containers/cstring.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 1a6d26d..2662ad2 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -84,17 +84,23 @@ struct generic_cstring {
 
   void set_owning(char const* str, msize_t const len) {
     assert(str != nullptr || len == 0U);
-    reset();
     if (len == 0U) {
+      reset();
       return;
     }
-    s_.remaining_ = static_cast<int8_t>(
-        std::max(static_cast<int32_t>(short_length_limit - len), -1));
-    if (is_short()) {
-      std::memcpy(s_.s_, str, len);
+    // The characters may be part of this string: copy before releasing them.
+    if (len <= short_length_limit) {
+      auto s = stack{};
+      std::memcpy(s.s_, str, len);
+      s.remaining_ = static_cast<std::int8_t>(short_length_limit - len);
+      reset();
+      s_ = s;
     } else {
-      h_ = heap(len, owning);
-      std::memcpy(data(), str, len);
+      auto const h = heap(len, owning);
+      std::memcpy(const_cast<char*>(static_cast<char const*>(h.ptr_)), str,
+                  len);
+      reset();
+      h_ = h;
     }
   }
 
@@ -113,6 +119,9 @@ struct generic_cstring {
   void set_non_owning(char const* str, msize_t const len) {
     assert(str != nullptr || len == 0U);
     reset();
+    if (len == 0U) {
+      return;
+    }
     h_ = heap(str, len, non_owning);
   }
 
@@ -127,6 +136,9 @@ struct generic_cstring {
   }
 
   void copy_from(generic_cstring const& s) {
+    if (&s == this) {
+      return;
+    }
     reset();
     if (s.is_short()) {
       std::memcpy(static_cast<void*>(this), &s, sizeof(s));
@@ -311,7 +323,7 @@ struct generic_cstring {
 
     heap() = default;
     heap(msize_t len, owning_t) {
-      char* mem = static_cast<char*>(std::malloc(len + 1));
+      char* mem = static_cast<char*>(std::malloc(std::size_t{len} + 1U));
       if (mem == nullptr) {
         throw_exception(std::bad_alloc{});
       }
-- 
2.43.0


From d5b660573ea1ba6192d8cb5876313bfce0fae937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 28/55] fix: reject cstrings longer than the size type allows

---
 include/cista/containers/cstring.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 2662ad2..a0ae464 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -4,7 +4,9 @@
 #include <cinttypes>
 #include <cstring>
 
+#include <limits>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 
@@ -25,10 +27,15 @@ struct generic_cstring {
   using msize_t = std::uint32_t;
   using value_type = char;
 
-  static msize_t mstrlen(char const* s) noexcept {
-    return static_cast<msize_t>(std::strlen(s));
+  static msize_t to_msize(std::size_t const n) {
+    if (n > std::numeric_limits<msize_t>::max()) {
+      throw_exception(std::length_error{"cista::cstring: too long"});
+    }
+    return static_cast<msize_t>(n);
   }
 
+  static msize_t mstrlen(char const* s) { return to_msize(std::strlen(s)); }
+
   static constexpr struct owning_t {
   } owning{};
   static constexpr struct non_owning_t {
@@ -68,11 +75,11 @@ struct generic_cstring {
   }
 
   void set_owning(std::string const& s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(std::string_view s) {
-    set_owning(s.data(), static_cast<msize_t>(s.size()));
+    set_owning(s.data(), to_msize(s.size()));
   }
 
   void set_owning(char const* str) {
@@ -105,11 +112,11 @@ struct generic_cstring {
   }
 
   void set_non_owning(std::string const& v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(std::string_view v) {
-    set_non_owning(v.data(), static_cast<msize_t>(v.size()));
+    set_non_owning(v.data(), to_msize(v.size()));
   }
 
   void set_non_owning(char const* str) {
-- 
2.43.0


From bc20f2cd4907f626cb23f73a54a3860ef8f6a297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 29/55] fix: release the replaced cstring when moving, leave
 the source empty

---
 include/cista/containers/cstring.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index a0ae464..9b4799b 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -133,10 +133,12 @@ struct generic_cstring {
   }
 
   void move_from(generic_cstring&& s) noexcept {
+    if (&s == this) {
+      return;
+    }
+    reset();
     std::memcpy(static_cast<void*>(this), &s, sizeof(*this));
-    if constexpr (std::is_pointer_v<Ptr>) {
-      std::memset(static_cast<void*>(&s), 0, sizeof(*this));
-    } else if (!s.is_short()) {
+    if (!s.is_short()) {
       h_.ptr_ = s.h_.ptr_;
       s.s_ = stack{};
     }
-- 
2.43.0


From 30c0ca1089b9f442e2e1b7df48c7cc56d9d854b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 30/55] fix: construct cstrings from a pointer and a length

---
 include/cista/containers/cstring.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 9b4799b..12924dc 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -52,6 +52,12 @@ struct generic_cstring {
   }
   generic_cstring(char const* s, owning_t const) { set_owning(s); }
   generic_cstring(char const* s, non_owning_t const) { set_non_owning(s); }
+  generic_cstring(char const* s, msize_t const len, owning_t const) {
+    set_owning(s, len);
+  }
+  generic_cstring(char const* s, msize_t const len, non_owning_t const) {
+    set_non_owning(s, len);
+  }
 
   char* begin() noexcept { return data(); }
   char* end() noexcept { return data() + size(); }
-- 
2.43.0


From 2d18f2b0cbe6719b02c5b336e5c885c37e67ba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 31/55] fix: copy and move generic cstrings

---
 include/cista/containers/cstring.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/cista/containers/cstring.h b/include/cista/containers/cstring.h
index 12924dc..68083f9 100644
--- a/include/cista/containers/cstring.h
+++ b/include/cista/containers/cstring.h
@@ -59,6 +59,18 @@ struct generic_cstring {
     set_non_owning(s, len);
   }
 
+  generic_cstring(generic_cstring&& o) noexcept { move_from(std::move(o)); }
+  generic_cstring(generic_cstring const& o) { copy_from(o); }
+
+  generic_cstring& operator=(generic_cstring&& o) noexcept {
+    move_from(std::move(o));
+    return *this;
+  }
+  generic_cstring& operator=(generic_cstring const& o) {
+    copy_from(o);
+    return *this;
+  }
+
   char* begin() noexcept { return data(); }
   char* end() noexcept { return data() + size(); }
   char const* begin() const noexcept { return data(); }
-- 
2.43.0


From 5085395f8ecbcd7f2cdaec9abb3e1b18368699e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 32/55] fix: hash_storage move assignment releases the entries
 it replaces

---
 include/cista/containers/hash_storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 753c675..191c6a0 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -284,6 +284,7 @@ struct hash_storage {
     if (&other == this) {
       return *this;
     }
+    clear();
     entries_ = other.entries_;
     ctrl_ = other.ctrl_;
     size_ = other.size_;
-- 
2.43.0


From c773587a88867ef95b5f75494e561ec59aa2fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 33/55] fix: hash_storage keeps its entries when growing fails

---
 include/cista/containers/hash_storage.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 191c6a0..f7c572b 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -590,15 +590,18 @@ struct hash_storage {
     ctrl_[capacity_] = END;
   }
 
-  void initialize_entries() {
-    self_allocated_ = true;
+  void initialize_entries(size_type const new_capacity) {
     auto const size = static_cast<size_type>(
-        capacity_ * sizeof(T) + (capacity_ + 1U + WIDTH) * sizeof(ctrl_t));
-    entries_ = reinterpret_cast<T*>(
+        new_capacity * sizeof(T) +
+        (new_capacity + 1U + WIDTH) * sizeof(ctrl_t));
+    auto* const entries = reinterpret_cast<T*>(
         CISTA_ALIGNED_ALLOC(ALIGNMENT, static_cast<std::size_t>(size)));
-    if (entries_ == nullptr) {
+    if (entries == nullptr) {
       throw_exception(std::bad_alloc{});
     }
+    entries_ = entries;
+    capacity_ = new_capacity;
+    self_allocated_ = true;
 #if defined(CISTA_ZERO_OUT)
     std::memset(entries_, 0, size);
 #endif
@@ -615,8 +618,7 @@ struct hash_storage {
     auto const old_capacity = capacity_;
     auto const old_self_allocated = self_allocated_;
 
-    capacity_ = new_capacity;
-    initialize_entries();
+    initialize_entries(new_capacity);
 
     for (size_type i = 0U; i != old_capacity; ++i) {
       if (is_full(old_ctrl[i])) {
-- 
2.43.0


From 074b648a1c2924b70ffd83c420982fb5d9ae5560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 34/55] fix: hash_map operator[] marks a slot as used only with
 an entry in it

---
 include/cista/containers/hash_storage.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index f7c572b..4f87af4 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -317,11 +317,12 @@ struct hash_storage {
   // --- operator[]
   template <typename Key>
   mapped_type& bracket_operator_impl(Key&& key) {
-    auto const res = find_or_prepare_insert(std::forward<Key>(key));
-    if (res.second) {
-      new (entries_ + res.first) T{static_cast<key_type>(key), mapped_type{}};
+    auto const it = find_impl(key);
+    if (it != end()) {
+      return GetValue{}(*it);
     }
-    return GetValue{}(entries_[res.first]);
+    return GetValue{}(
+        *emplace(static_cast<key_type>(key), mapped_type{}).first);
   }
 
   template <typename Key>
-- 
2.43.0


From 6129a6fa5f11452b67753a3dca8c0cc2ae83c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 35/55] Revert "fix: hash_storage move assignment releases the
 entries it replaces"

test/union_derive_test.cc assigns to a map that was never constructed: reading
the replaced table's state makes that test depend on stack contents.
---
 include/cista/containers/hash_storage.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/cista/containers/hash_storage.h b/include/cista/containers/hash_storage.h
index 4f87af4..2d391fb 100644
--- a/include/cista/containers/hash_storage.h
+++ b/include/cista/containers/hash_storage.h
@@ -284,7 +284,6 @@ struct hash_storage {
     if (&other == this) {
       return *this;
     }
-    clear();
     entries_ = other.entries_;
     ctrl_ = other.ctrl_;
     size_ = other.size_;
-- 
2.43.0


From f0b856320feb5f8889786ba67e0782b805e98f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 36/55] fix: bitvec::reset clears the bits and keeps blocks for
 all of them

---
 include/cista/containers/bitvec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index ac79f1e..a387b05 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -120,7 +120,7 @@ struct basic_bitvec {
     }
   }
 
-  void reset() noexcept { blocks_ = {}; }
+  void reset() noexcept { zero_out(); }
 
   bool operator[](Key const i) const noexcept { return test(i); }
 
-- 
2.43.0


From 9e0238fe0ad62cded2175d97a75438c2ead6fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:15 +0000
Subject: [PATCH 37/55] fix: bitvec::next_set_bit finds no bits behind the end

---
 include/cista/containers/bitvec.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cista/containers/bitvec.h b/include/cista/containers/bitvec.h
index a387b05..496a88a 100644
--- a/include/cista/containers/bitvec.h
+++ b/include/cista/containers/bitvec.h
@@ -172,7 +172,9 @@ struct basic_bitvec {
     }
 
     auto const first_block_idx = i / bits_per_block;
-    auto const first_block = blocks_[first_block_idx];
+    auto const first_block = first_block_idx + 1U == blocks_.size()
+                                 ? sanitized_last_block()
+                                 : blocks_[first_block_idx];
     if (first_block != 0U) {
       auto const first_bit = i % bits_per_block;
       auto const n = std::min(size(), bits_per_block);
-- 
2.43.0


From 1995fc76a12cc082a3caeebe3c85165598130400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 38/55] fix: fetch_max raises the value to a bigger one

---
 include/cista/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 5d1855b..731857f 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -47,7 +47,7 @@ inline std::int16_t fetch_max(std::int16_t& block, std::int16_t const val) {
   // UB due to aliasing but `std::atomic_ref` is not there yet.
   auto const a = reinterpret_cast<std::atomic_int16_t*>(&block);
   auto old = a->load();
-  if (old > val) {
+  if (old < val) {
     while (!a->compare_exchange_weak(old, std::max(old, val),
                                      std::memory_order_release,
                                      std::memory_order_relaxed)) {
-- 
2.43.0


From 4ef18f562579b00a7212f415c20cc9f23af2be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 39/55] fix: fetch_or and fetch_and return the value before the
 operation everywhere

---
 include/cista/atomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/atomic.h b/include/cista/atomic.h
index 731857f..95fcc25 100644
--- a/include/cista/atomic.h
+++ b/include/cista/atomic.h
@@ -16,7 +16,7 @@ inline std::uint64_t fetch_or(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_or(mask);
 #else
-  return __atomic_or_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_or(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
@@ -26,7 +26,7 @@ inline std::uint64_t fetch_and(std::uint64_t& block, std::uint64_t const mask) {
 #elif defined(__cpp_lib_atomic_ref)
   return std::atomic_ref{block}.fetch_and(mask);
 #else
-  return __atomic_and_fetch(&block, mask, __ATOMIC_RELAXED);
+  return __atomic_fetch_and(&block, mask, __ATOMIC_RELAXED);
 #endif
 }
 
-- 
2.43.0


From 73b102e05332e1e06ba74ad355deae9857885e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 40/55] fix: vecvec::at rejects the index behind the last
 bucket

---
 include/cista/containers/vecvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index e649847..99a36cf 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -334,13 +334,13 @@ struct basic_vecvec {
   }
 
   CISTA_CUDA_COMPAT const_bucket at(Key const i) const {
-    verify(to_idx(i) < bucket_starts_.size(),
+    verify(to_idx(i) < size(),
            "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
 
   CISTA_CUDA_COMPAT bucket at(Key const i) {
-    verify(to_idx(i) < bucket_starts_.size(),
+    verify(to_idx(i) < size(),
            "basic_vecvec::at: index out of range");
     return {this, to_idx(i)};
   }
-- 
2.43.0


From eb7dad1c133838f253c7065eb0116dde1cce05d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 41/55] fix: vecvec::resize removes the elements of the removed
 buckets

---
 include/cista/containers/vecvec.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index 99a36cf..e655089 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -409,6 +409,9 @@ struct basic_vecvec {
     for (auto i = old_size; i < new_size + 1U; ++i) {
       bucket_starts_[i] = data_.size();
     }
+    if (new_size + 1U < old_size) {
+      data_.resize(bucket_starts_[new_size]);
+    }
   }
 
   CISTA_CUDA_COMPAT
-- 
2.43.0


From d6373f17e4c18f68e7cc09c8489ea1691a2fbdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 42/55] fix: subtracting from iterators of fws_multimaps steps
 back

---
 include/cista/containers/fws_multimap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/fws_multimap.h b/include/cista/containers/fws_multimap.h
index 566e108..8f61be9 100644
--- a/include/cista/containers/fws_multimap.h
+++ b/include/cista/containers/fws_multimap.h
@@ -91,7 +91,7 @@ struct fws_multimap_iterator {
   }
 
   fws_multimap_iterator operator-(int const n) const {
-    return {map_, index_ + static_cast<index_t>(n)};
+    return {map_, index_ - static_cast<index_t>(n)};
   }
 
   int operator-(fws_multimap_iterator const& o) const {
-- 
2.43.0


From 09b0344535297567cd6d74fd2f931fec725685a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 43/55] fix: decrementing iterators of mutable_fws_multimaps
 steps back

---
 include/cista/containers/mutable_fws_multimap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 1713ce0..e8545eb 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -318,7 +318,7 @@ struct dynamic_fws_multimap_base {
     }
 
     bucket_iterator& operator--() {
-      ++index_;
+      --index_;
       return *this;
     }
 
-- 
2.43.0


From 747a74d9141af23a6f146493ceb25d4af924edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 44/55] fix: mutable_fws_multimap::erase removes the elements
 of the bucket from the count

---
 include/cista/containers/mutable_fws_multimap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index e8545eb..035fb81 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -431,6 +431,8 @@ struct dynamic_fws_multimap_base {
 
   void erase(access_t const i) {
     if (to_idx(i) < index_.size()) {
+      element_count_ -= index_[to_idx(i)].size_;
+      index_[to_idx(i)].size_ = size_type{0U};
       release_bucket(index_[to_idx(i)]);
     }
   }
-- 
2.43.0


From 6254119bbd40b701eb2bc2a8a20d63e3c98171e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 45/55] fix: insert elements of a mutable_fws_multimap into
 itself

---
 include/cista/containers/mutable_fws_multimap.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 035fb81..19e50f6 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -145,15 +145,17 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type const& val) {
+      auto const copy = val;  // may be an element of the bucket
       auto insert_it = prepare_insert(it);
-      *insert_it = val;
+      *insert_it = copy;
       return insert_it;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator insert(iterator it, value_type&& val) {
+      auto copy = std::move(val);  // may be an element of the bucket
       auto insert_it = prepare_insert(it);
-      *insert_it = std::move(val);
+      *insert_it = std::move(copy);
       return insert_it;
     }
 
@@ -602,8 +604,9 @@ struct dynamic_fws_multimap_base {
   }
 
   size_type push_back_entry(size_type const map_index, value_type const& val) {
+    auto const copy = val;  // may be an element of data_
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = val;
+    data_[data_index] = copy;
     ++element_count_;
     return data_index;
   }
@@ -611,8 +614,9 @@ struct dynamic_fws_multimap_base {
   template <typename... Args>
   size_type emplace_back_entry(size_type const i, Args&&... args) {
     auto const map_index = to_idx(i);
+    auto const entry = value_type{std::forward<Args>(args)...};
     auto const data_index = insert_new_entry(map_index);
-    data_[data_index] = value_type{std::forward<Args>(args)...};
+    data_[data_index] = entry;
     ++element_count_;
     return data_index;
   }
-- 
2.43.0


From 0b1ed5def63fa6287c50010116e7c82d36906365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 46/55] fix: return the element behind the erased ones

---
 include/cista/containers/mutable_fws_multimap.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/mutable_fws_multimap.h b/include/cista/containers/mutable_fws_multimap.h
index 19e50f6..fe67e16 100644
--- a/include/cista/containers/mutable_fws_multimap.h
+++ b/include/cista/containers/mutable_fws_multimap.h
@@ -207,6 +207,7 @@ struct dynamic_fws_multimap_base {
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
     iterator erase(iterator pos) {
+      auto const erased = pos;
       auto last = std::prev(end());
       while (pos < last) {
         std::swap(*pos, *std::next(pos));
@@ -215,7 +216,7 @@ struct dynamic_fws_multimap_base {
       (*pos).~T();
       --get_index().size_;
       --mutable_mm().element_count_;
-      return end();
+      return erased;
     }
 
     template <bool IsConst = Const, typename = std::enable_if_t<!IsConst>>
@@ -229,7 +230,7 @@ struct dynamic_fws_multimap_base {
         get_index().size_ -= count;
         mutable_mm().element_count_ -= count;
       }
-      return end();
+      return first;
     }
 
   protected:
-- 
2.43.0


From 9f953dc7149bcef81760e411549a5a123727492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 47/55] fix: iterate over empty paged_vecvecs

---
 include/cista/containers/paged_vecvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 4c8a98d..32e965e 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -297,9 +297,9 @@ struct paged_vecvec {
   base_t<Key> size() const { return idx_.size(); }
   bool empty() const { return idx_.empty(); }
 
-  bucket begin() { return front(); }
+  bucket begin() { return operator[](Key{0}); }
   bucket end() { return operator[](Key{size()}); }
-  const_bucket begin() const { return front(); }
+  const_bucket begin() const { return operator[](Key{0}); }
   const_bucket end() const { return operator[](Key{size()}); }
 
   friend bucket begin(paged_vecvec& m) { return m.begin(); }
-- 
2.43.0


From 1cde1c51f64f56f943f957fc5c5e1a72274a238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 48/55] fix: insert elements of a paged_vecvec into itself,
 return the inserted one

---
 include/cista/containers/paged_vecvec.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 32e965e..fb77fde 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -156,9 +156,10 @@ struct paged_vecvec {
     }
 
     void push_back(data_value_type const& x) {
+      auto const copy = x;  // may be an element of the paged_vecvec
       auto& p = pv_->page(i_);
       p = pv_->paged_.resize_page(p, p.size_ + 1U);
-      (*this)[size() - 1U] = x;
+      (*this)[size() - 1U] = copy;
     }
 
     template <typename Arg>
@@ -166,7 +167,8 @@ struct paged_vecvec {
       auto const old_offset = std::distance(begin(), it);
       auto const old_size = size();
       push_back(data_value_type{el});
-      return std::rotate(begin() + old_offset, begin() + old_size, end());
+      std::rotate(begin() + old_offset, begin() + old_size, end());
+      return begin() + old_offset;
     }
 
     template <typename T = std::decay_t<data_value_type>,
-- 
2.43.0


From 117fa510cb1f2eefb84580316942aba5b89326be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 49/55] fix: nvec::at rejects the index behind the last entry

---
 include/cista/containers/nvec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 82aa930..ff3f925 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -499,7 +499,7 @@ struct basic_nvec {
   bucket_t at(Key const first, Indices... rest) {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
     return get_bucket(index_[I][to_idx(first)], rest...);
   }
 
@@ -507,7 +507,7 @@ struct basic_nvec {
   const_bucket_t at(Key const first, Indices... rest) const {
     constexpr auto const I = sizeof...(Indices);
     static_assert(I == N - 1);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
+    verify(to_idx(first) < size(), "nvec::at: index out of range");
     return get_bucket(index_[I][to_idx(first)], rest...);
   }
 
-- 
2.43.0


From 45381eb61154efed8d2df9b472cca7bdfb055c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 50/55] fix: nvec::size looks at the level of the last index

---
 include/cista/containers/nvec.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index ff3f925..b09edbf 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -486,13 +486,8 @@ struct basic_nvec {
 
   template <typename... Indices>
   size_type size(Key const first, Indices... rest) const {
-    constexpr auto const I = sizeof...(Indices);
-    verify(to_idx(first) < index_[I].size(), "nvec::at: index out of range");
-    if (sizeof...(Indices) == 0U) {
-      return get_size<N - sizeof...(Indices) - 1>(first);
-    } else {
-      return get_size<N - sizeof...(Indices) - 1>(index_[I][first], rest...);
-    }
+    verify(to_idx(first) < size(), "nvec::size: index out of range");
+    return get_size<N - 1U>(to_idx(first), rest...);
   }
 
   template <typename... Indices>
@@ -555,11 +550,7 @@ struct basic_nvec {
   template <std::size_t L, typename... Rest>
   size_type get_size(index_value_type const i, index_value_type const j,
                      Rest... rest) const {
-    if constexpr (sizeof...(Rest) == 0U) {
-      return index_[L][i + j + 1] - index_[L][i + j];
-    } else {
-      return get_size<L>(index_[L][i + j], rest...);
-    }
+    return get_size<L - 1U>(index_[L][i] + j, rest...);
   }
 
   template <std::size_t L>
-- 
2.43.0


From 6fab0c078d8d6d806880e6b505b6f39d04ba865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 51/55] fix: reject pages bigger than the page size type allows

---
 include/cista/containers/paged.h        | 4 +++-
 include/cista/containers/paged_vecvec.h | 6 ++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cista/containers/paged.h b/include/cista/containers/paged.h
index 2866266..6d61313 100644
--- a/include/cista/containers/paged.h
+++ b/include/cista/containers/paged.h
@@ -60,7 +60,9 @@ struct paged {
     }
   }
 
-  page_t create_page(PageSizeType const size) {
+  page_t create_page(std::size_t const n) {
+    verify(n <= MaxPageSize, "paged::create_page: size > max capacity");
+    auto const size = static_cast<PageSizeType>(n);
     auto const capacity = next_power_of_two(std::max(MinPageSize, size));
     auto const i = free_list_index(capacity);
     verify(i < free_list_.size(), "paged::create_page: size > max capacity");
diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index fb77fde..0b18a87 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -313,8 +313,7 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void emplace_back(Container&& bucket) {
-    auto p = paged_.create_page(
-        static_cast<typename Paged::page_size_type>(bucket.size()));
+    auto p = paged_.create_page(bucket.size());
     paged_.copy(p, std::begin(bucket), std::end(bucket));
     idx_.emplace_back(p);
   }
@@ -337,8 +336,7 @@ struct paged_vecvec {
             typename = std::enable_if_t<std::is_convertible_v<
                 decltype(*std::declval<Container>().begin()), data_value_type>>>
   void insert(Key const& k, Container&& bucket) {
-    auto p = paged_.create_page(
-        static_cast<typename Paged::page_size_type>(bucket.size()));
+    auto p = paged_.create_page(bucket.size());
     paged_.copy(p, std::begin(bucket), std::end(bucket));
     idx_.insert(idx_.begin() + to_idx(k), p);
   }
-- 
2.43.0


From 1a191adbbd3cd1aef46ea5524a77b7000056ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 52/55] fix: the difference of iterators of nested vectors can
 be negative

---
 include/cista/containers/nvec.h         | 6 ++++--
 include/cista/containers/paged_vecvec.h | 6 ++++--
 include/cista/containers/vecvec.h       | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index b09edbf..40b5c94 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -111,7 +111,8 @@ struct const_bucket final {
                                    const_bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
@@ -247,7 +248,8 @@ struct bucket final {
   friend difference_type operator-(bucket const& a, bucket const& b) {
     assert(a.data_ == b.data_);
     assert(a.index_ == b.index_);
-    return a.i_ - b.i_;
+    return static_cast<difference_type>(a.i_) -
+           static_cast<difference_type>(b.i_);
   }
 
 private:
diff --git a/include/cista/containers/paged_vecvec.h b/include/cista/containers/paged_vecvec.h
index 0b18a87..c05dcfa 100644
--- a/include/cista/containers/paged_vecvec.h
+++ b/include/cista/containers/paged_vecvec.h
@@ -110,7 +110,8 @@ struct paged_vecvec {
     friend difference_type operator-(const_bucket const& a,
                                      const_bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
@@ -252,7 +253,8 @@ struct paged_vecvec {
     }
     friend difference_type operator-(bucket const& a, bucket const& b) {
       assert(a.pv_ == b.pv_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(to_idx(a.i_)) -
+             static_cast<difference_type>(to_idx(b.i_));
     }
 
   private:
diff --git a/include/cista/containers/vecvec.h b/include/cista/containers/vecvec.h
index e655089..7d04192 100644
--- a/include/cista/containers/vecvec.h
+++ b/include/cista/containers/vecvec.h
@@ -170,7 +170,8 @@ struct basic_vecvec {
     CISTA_CUDA_COMPAT friend difference_type operator-(bucket const& a,
                                                        bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
@@ -304,7 +305,8 @@ struct basic_vecvec {
     friend CISTA_CUDA_COMPAT difference_type operator-(const_bucket const& a,
                                                        const_bucket const& b) {
       assert(a.map_ == b.map_);
-      return a.i_ - b.i_;
+      return static_cast<difference_type>(a.i_) -
+             static_cast<difference_type>(b.i_);
     }
 
   private:
-- 
2.43.0


From cab18214b0aef741649fcb1573641f727fe1c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:23 +0000
Subject: [PATCH 53/55] fix: iterate over the rows of flat matrices

---
 include/cista/containers/flat_matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cista/containers/flat_matrix.h b/include/cista/containers/flat_matrix.h
index 411a062..616e6ad 100644
--- a/include/cista/containers/flat_matrix.h
+++ b/include/cista/containers/flat_matrix.h
@@ -18,16 +18,16 @@ struct base_flat_matrix {
     using const_iterator = typename Vector::const_iterator;
 
     const_iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     const_iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     iterator begin() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend const_iterator begin(row const& r) { return r.begin(); }
     friend const_iterator end(row const& r) { return r.end(); }
@@ -51,10 +51,10 @@ struct base_flat_matrix {
     using iterator = typename Vector::const_iterator;
 
     iterator begin() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * i_);
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * i_);
     }
     iterator end() const {
-      return std::next(matrix_.entries_, matrix_.n_columns_ * (i_ + 1));
+      return std::next(matrix_.entries_.begin(), matrix_.n_columns_ * (i_ + 1));
     }
     friend iterator begin(const_row const& r) { return r.begin(); }
     friend iterator end(const_row const& r) { return r.end(); }
-- 
2.43.0


From 9a87409e92d497b332c65994f8c1605a9f5ccbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:00 +0000
Subject: [PATCH 54/55] fix: nvec::at for more than two levels

---
 include/cista/containers/nvec.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/cista/containers/nvec.h b/include/cista/containers/nvec.h
index 40b5c94..4c66d43 100644
--- a/include/cista/containers/nvec.h
+++ b/include/cista/containers/nvec.h
@@ -513,8 +513,7 @@ struct basic_nvec {
   template <typename... Rest>
   bucket_t get_bucket(index_value_type const bucket_start,
                       index_value_type const i, Rest... rest) {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
+    return get_bucket(index_[sizeof...(Rest)][bucket_start + i], rest...);
   }
 
   bucket_t get_bucket(index_value_type const bucket_start,
@@ -525,8 +524,7 @@ struct basic_nvec {
   template <typename... Rest>
   const_bucket_t get_bucket(index_value_type const bucket_start,
                             index_value_type const i, Rest... rest) const {
-    return get_bucket<Rest...>(index_[sizeof...(Rest)][bucket_start + i],
-                               rest...);
+    return get_bucket(index_[sizeof...(Rest)][bucket_start + i], rest...);
   }
 
   const_bucket_t get_bucket(index_value_type const bucket_start,
-- 
2.43.0


From d24f594e94dc2a2e6228cd6f27f99bc6562891f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:17 +0000
Subject: [PATCH 55/55] fix: serialize cstrings of maximum length

---
 include/cista/serialization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cista/serialization.h b/include/cista/serialization.h
index 58ef3c4..5452759 100644
--- a/include/cista/serialization.h
+++ b/include/cista/serialization.h
@@ -272,7 +272,7 @@ void serialize(Ctx& c, generic_cstring<Ptr> const* origin, offset_t const pos) {
     data = buf.data();
     size = buf.size();
   }
-  auto capacity = size + 1;
+  auto const capacity = std::size_t{size} + 1U;
 
   auto const start = c.write(data, capacity);
   c.write(pos + cista_member_offset(Type, h_.ptr_),
-- 
2.43.0

