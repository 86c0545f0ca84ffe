From 65defc657b007fcb1b25981aa396327ffce0108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:48 +0000
Subject: [PATCH 1/9] fix: do not overflow on the most negative value in two's
 complement

The platform-agnostic two's complement conversions negated the most negative
value of the type, which overflows for int and wider types.
---
 include/upd/detail/signed_representation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/upd/detail/signed_representation.hpp b/include/upd/detail/signed_representation.hpp
index d34ad05..617ca73 100644
--- a/include/upd/detail/signed_representation.hpp
+++ b/include/upd/detail/signed_representation.hpp
@@ -24,7 +24,7 @@ T from_signed_mode_impl(unsigned long long value) {
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 T from_signed_mode_impl(unsigned long long value) {
   constexpr auto sign_mask = 0b10000000ull << 8 * (sizeof(T) - 1);
-  return value & sign_mask ? T(-T(~value + 1)) : T(value);
+  return value & sign_mask ? T(-T(~value) - 1) : T(value);
 }
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 T from_signed_mode_impl(unsigned long long value) {
@@ -56,7 +56,7 @@ unsigned long long to_signed_mode_impl(T value) {
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::TWOS_COMPLEMENT> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-  return value >= 0 ? static_cast<unsigned long long>(value) : static_cast<unsigned long long>(~(-value - 1));
+  return value >= 0 ? static_cast<unsigned long long>(value) : static_cast<unsigned long long>(~(-(value + 1)));
 }
 template<signed_mode Signed_Mode, typename T, detail::require<Signed_Mode == signed_mode::OFFSET_BINARY> = 0>
 unsigned long long to_signed_mode_impl(T value) {
-- 
2.43.0


From 590cf3668066c423ed150b85b87e6f10d5737a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 2/9] fix: never build an invalid bool when reading with a
 declared platform endianess

The byte was copied as it is into a bool, which is undefined for any value other than 0 and 1.
---
 include/upd/detail/serialization.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index 37130b0..f706254 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -58,7 +58,9 @@ T read_as(It begin);
 #else
 template<typename T, endianess Endianess, signed_mode, detail::require_unsigned_integer<T> = 0>
 T read_as(const byte_t *sequence) {
-  return detail::from_endianess<T, Endianess>(sequence, sizeof(T));
+  // A byte may hold any value, whereas copying anything but 0 or 1 into a `bool` is an undefined behavior
+  using integer_t = typename std::conditional<std::is_same<T, bool>::value, unsigned long long, T>::type;
+  return static_cast<T>(detail::from_endianess<integer_t, Endianess>(sequence, sizeof(T)));
 }
 template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_signed_integer<T> = 0>
 T read_as(const byte_t *sequence) {
-- 
2.43.0


From 2fb9ffcd7b9313ba3c34ebb151734404be5dc971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 3/9] fix: convert integers narrower than long long on declared
 big-endian platforms

The platform-specific conversions copied the first bytes of an unsigned long long,
which are its most significant ones on a big-endian platform.
---
 include/upd/detail/endianess.hpp             |  6 ++++--
 include/upd/detail/signed_representation.hpp | 14 ++++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/upd/detail/endianess.hpp b/include/upd/detail/endianess.hpp
index 14561ef..8342d13 100644
--- a/include/upd/detail/endianess.hpp
+++ b/include/upd/detail/endianess.hpp
@@ -40,7 +40,8 @@ T from_endianess_impl(const byte_t *raw_data, std::size_t n) {
 template<typename T, endianess Endianess, UPD_REQUIRE(platform_info.endianess == Endianess)>
 T from_endianess(const byte_t *raw_data, std::size_t n) {
   auto retval = T(0);
-  memcpy(&retval, raw_data, n);
+  constexpr auto is_big = Endianess == endianess::BIG;
+  memcpy(reinterpret_cast<byte_t *>(&retval) + (is_big ? sizeof(T) - n : 0), raw_data, n);
 
   return retval;
 }
@@ -64,7 +65,8 @@ void to_endianess_impl(byte_t *raw_data, T x, std::size_t n) {
 //! \brief Serialize an integer into a sequence of byte according to the provided endianess
 template<endianess Endianess, typename T, UPD_REQUIRE(platform_info.endianess == Endianess)>
 void to_endianess(byte_t *raw_data, const T &x, std::size_t n) {
-  memcpy(raw_data, &x, n);
+  constexpr auto is_big = Endianess == endianess::BIG;
+  memcpy(raw_data, reinterpret_cast<const byte_t *>(&x) + (is_big ? sizeof(T) - n : 0), n);
 }
 template<endianess Endianess, typename T, UPD_REQUIRE(platform_info.endianess != Endianess)>
 void to_endianess(byte_t *raw_data, const T &x, std::size_t n) {
diff --git a/include/upd/detail/signed_representation.hpp b/include/upd/detail/signed_representation.hpp
index 617ca73..d5296d5 100644
--- a/include/upd/detail/signed_representation.hpp
+++ b/include/upd/detail/signed_representation.hpp
@@ -5,10 +5,15 @@
 #include "../format.hpp"
 #include "../upd.hpp"
 #include "type_traits/require.hpp"
+#include "type_traits/smallest.hpp"
 
 namespace upd {
 namespace detail {
 
+//! \brief Unsigned integer type with the same size as `T`
+template<typename T>
+using same_size_unsigned_t = smallest_unsigned_t<(~0ull >> 8 * (sizeof(unsigned long long) - sizeof(T)))>;
+
 //! \brief Platform-agnostic implementations of `from_signed_mode`
 template<typename T, signed_mode Signed_Mode, detail::require<Signed_Mode == signed_mode::SIGNED_MAGNITUDE> = 0>
 T from_signed_mode_impl(unsigned long long value) {
@@ -35,8 +40,9 @@ T from_signed_mode_impl(unsigned long long value) {
 //! \brief Interpret a sequence of bytes as an integer using the provided signed number representation
 template<typename T, signed_mode Signed_Mode, UPD_REQUIRE(platform_info.signed_mode == Signed_Mode)>
 T from_signed_mode(unsigned long long value) {
+  const auto representation = static_cast<same_size_unsigned_t<T>>(value);
   T retval;
-  memcpy(&retval, &value, sizeof(retval));
+  memcpy(&retval, &representation, sizeof(retval));
   return retval;
 }
 template<typename T, signed_mode Signed_Mode, UPD_REQUIRE(platform_info.signed_mode != Signed_Mode)>
@@ -67,10 +73,10 @@ unsigned long long to_signed_mode_impl(T value) {
 //! \brief Serialize an integer using the provided signed number representation
 template<signed_mode Signed_Mode, typename T, UPD_REQUIRE(platform_info.signed_mode == Signed_Mode)>
 unsigned long long to_signed_mode(T value) {
-  unsigned long long retval;
-  memcpy(&retval, &value, sizeof value);
+  same_size_unsigned_t<T> representation;
+  memcpy(&representation, &value, sizeof value);
 
-  return retval;
+  return representation;
 }
 template<signed_mode Signed_Mode, typename T, UPD_REQUIRE(platform_info.signed_mode != Signed_Mode)>
 unsigned long long to_signed_mode(T value) {
-- 
2.43.0


From be17c443a43849a6e338f0a097a1d2341404b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 4/9] fix: size output buffers for the responses rather than
 for the requests

The output buffer of the buffered dispatchers was as large as the largest
parameter list, so a larger return value overflowed it.
---
 include/upd/buffered_dispatcher.hpp          |  5 +++--
 include/upd/detail/type_traits/signature.hpp | 11 +++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 081f0b0..7c709f0 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -20,6 +20,7 @@
 #include "detail/type_traits/typelist.hpp"
 
 // IWYU pragma: no_forward_declare upd::detail::map_parameters_size
+// IWYU pragma: no_forward_declare upd::detail::map_return_type_size
 
 namespace upd {
 namespace detail {
@@ -33,7 +34,7 @@ using needed_input_buffer_size =
 
 //! \brief How many bytes that would be needed to represent any action response of `Keyring`
 template<typename Keyring>
-using needed_output_buffer_size = detail::max<detail::map_parameters_size<typename Keyring::signatures_t::type>>;
+using needed_output_buffer_size = detail::max<detail::map_return_type_size<typename Keyring::signatures_t::type>>;
 
 } // namespace detail
 
@@ -377,7 +378,7 @@ public:
   double_buffered_dispatcher() = default;
 
 private:
-  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size];
+  byte_t m_ibuf[input_buffer_size], m_obuf[output_buffer_size > 0 ? output_buffer_size : 1];
 };
 
 #if __cplusplus >= 201703L
diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index 661b5f0..eebe840 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -127,6 +127,17 @@ struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
+//! \name
+//! \brief Map `return_type_size` over a typelist of invocable type
+//! @{
+
+template<typename>
+struct map_return_type_size;
+template<typename... Fs>
+struct map_return_type_size<tlist_t<Fs...>> : tlist_t<return_type_size<Fs>...> {};
+
+//! @}
+
 UPD_DETAIL_MAKE_DETECTOR(
     has_signature_impl,
     UPD_PACK(typename F, typename R, typename... Args),
-- 
2.43.0


From dbffa1f45a474a488d891be42d76c38f2784b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:16 +0000
Subject: [PATCH 5/9] fix: advertise the serialized size of user-extended types

Payload lengths, sizes of actions without storage and buffer sizes relied on
sizeof(T) rather than on the size of the fields the extension serializes.
---
 include/upd/detail/type_traits/signature.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/upd/detail/type_traits/signature.hpp b/include/upd/detail/type_traits/signature.hpp
index eebe840..dea3869 100644
--- a/include/upd/detail/type_traits/signature.hpp
+++ b/include/upd/detail/type_traits/signature.hpp
@@ -6,6 +6,7 @@
 #include <type_traits>
 
 #include "detector.hpp"
+#include "remove_cv_ref.hpp"
 #include "typelist.hpp"
 
 #include "../../upd.hpp"
@@ -97,14 +98,17 @@ UPD_DETAIL_MAKE_DETECTOR(
 template<typename F>
 struct is_invocable : decltype(is_invocable_impl<F>(0)) {};
 
+template<typename T>
+struct serialization_size; // IWYU pragma: keep
+
 //! \name
-//! \brief Sums the sizes of the parameters of `F`
+//! \brief Sums the sizes of the parameters of `F` once serialized
 //! @{
 
 template<typename F>
 struct parameters_size : parameters_size<signature_t<F>> {};
 template<typename R, typename... Args>
-struct parameters_size<R(Args...)> : sum<detail::tlist_t<std::integral_constant<std::size_t, sizeof(Args)>...>> {};
+struct parameters_size<R(Args...)> : sum<detail::tlist_t<serialization_size<remove_cv_ref_t<Args>>...>> {};
 
 //! @}
 
@@ -119,11 +123,12 @@ struct map_parameters_size<tlist_t<Fs...>> : tlist_t<parameters_size<Fs>...> {};
 
 //! @}
 
-//! \brief Gets the size of the return type of `F`
+//! \brief Gets the size of the return type of `F` once serialized
 template<typename F>
 struct return_type_size : return_type_size<detail::signature_t<F>> {};
 template<typename R, typename... Args>
-struct return_type_size<R(Args...)> : std::integral_constant<std::size_t, sizeof(R)> {};
+struct return_type_size<R(Args...)>
+    : std::integral_constant<std::size_t, serialization_size<remove_cv_ref_t<R>>::value> {};
 template<typename... Args>
 struct return_type_size<void(Args...)> : std::integral_constant<std::size_t, 0> {};
 
-- 
2.43.0


From d2c20c29e3e84cd52b80b92d34beb6c078a60535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 6/9] fix: serialize arrays of user-extended types and go
 through any iterator with their serialized size

Arrays of extended types did not compile, and reading or writing an extended type
through an iterator other than a pointer transferred sizeof(T) bytes instead of the
serialized size.
---
 include/upd/detail/serialization.hpp | 22 +++++++++++++++-------
 include/upd/tuple.hpp                |  8 ++++++++
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/upd/detail/serialization.hpp b/include/upd/detail/serialization.hpp
index f706254..f5c57ff 100644
--- a/include/upd/detail/serialization.hpp
+++ b/include/upd/detail/serialization.hpp
@@ -11,6 +11,7 @@
 #include "endianess.hpp"
 #include "signed_representation.hpp"
 #include "type_traits/detector.hpp"
+#include "type_traits/remove_cv_ref.hpp"
 #include "type_traits/require.hpp"
 #include "type_traits/signature.hpp"
 
@@ -27,6 +28,9 @@ tuple_view<It, Endianess, Signed_Mode, Args...> make_view_for(const It &it, sign
   return tuple_view<It, Endianess, Signed_Mode, Args...>{it};
 }
 
+template<typename T>
+struct serialization_size; // IWYU pragma: keep
+
 //! \name
 //! \brief Get the `std::array` corresponding to the array type `T`
 //! @{
@@ -68,6 +72,8 @@ T read_as(const byte_t *sequence) {
 
   return detail::from_signed_mode<T, Signed_Mode>(tmp);
 }
+template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_is_user_serializable<T> = 0>
+T read_as(const byte_t *sequence);
 template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_array<T> = 0>
 detail::array_t<T> read_as(const byte_t *sequence) {
   detail::array_t<T> retval;
@@ -76,11 +82,11 @@ detail::array_t<T> read_as(const byte_t *sequence) {
   constexpr auto size = retval.size();
 
   for (std::size_t i = 0; i < size; i++)
-    retval[i] = read_as<element_t, Endianess, Signed_Mode>(sequence + i * sizeof(element_t));
+    retval[i] = read_as<element_t, Endianess, Signed_Mode>(sequence + i * serialization_size<element_t>::value);
 
   return retval;
 }
-template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_is_user_serializable<T> = 0>
+template<typename T, endianess Endianess, signed_mode Signed_Mode, detail::require_is_user_serializable<T>>
 T read_as(const byte_t *sequence) {
   auto view = detail::make_view_for<Endianess, Signed_Mode>(
       sequence, detail::examine_invocable<decltype(upd_extension<T>::unserialize)>{});
@@ -88,7 +94,7 @@ T read_as(const byte_t *sequence) {
 }
 template<typename T, endianess Endianess, signed_mode Signed_Mode, typename It, detail::require_not_pointer<It> = 0>
 decltype(read_as<T, Endianess, Signed_Mode>(std::declval<byte_t *>())) read_as(It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
   for (byte_t &byte : buf)
     byte = *it++;
   return read_as<T, Endianess, Signed_Mode>(buf);
@@ -136,14 +142,16 @@ void write_as(const T &x, byte_t *sequence) {
 
   detail::to_endianess<Endianess>(sequence, tmp, sizeof(x));
 }
+template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T> = 0>
+void write_as(const T &x, byte_t *sequence);
 template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_array<T> = 0>
 void write_as(const T &array, byte_t *sequence) {
-  using element_t = decltype(array[0]);
+  using element_t = detail::remove_cv_ref_t<decltype(array[0])>;
   constexpr auto array_size = sizeof(array) / sizeof(array[0]);
   for (std::size_t i = 0; i < array_size; i++)
-    write_as<Endianess, Signed_Mode>(array[i], sequence + i * sizeof(element_t));
+    write_as<Endianess, Signed_Mode>(array[i], sequence + i * serialization_size<element_t>::value);
 }
-template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T> = 0>
+template<endianess Endianess, signed_mode Signed_Mode, typename T, detail::require_is_user_serializable<T>>
 void write_as(const T &x, byte_t *sequence) {
   auto view = detail::make_view_for<Endianess, Signed_Mode>(
       sequence, detail::examine_invocable<decltype(upd_extension<T>::unserialize)>{});
@@ -151,7 +159,7 @@ void write_as(const T &x, byte_t *sequence) {
 }
 template<endianess Endianess, signed_mode Signed_Mode, typename T, typename It, detail::require_not_pointer<It> = 0>
 void write_as(const T &value, It it) {
-  byte_t buf[sizeof(T)];
+  byte_t buf[serialization_size<T>::value];
 
   write_as<Endianess, Signed_Mode>(value, buf);
   for (const byte_t &byte : buf)
diff --git a/include/upd/tuple.hpp b/include/upd/tuple.hpp
index 18ed54f..bd5089d 100644
--- a/include/upd/tuple.hpp
+++ b/include/upd/tuple.hpp
@@ -65,6 +65,14 @@ template<typename T>
 struct serialization_size {
   constexpr static auto value = serialization_size_impl<T>(0);
 };
+template<typename T, std::size_t N>
+struct serialization_size<T[N]> {
+  constexpr static auto value = N * serialization_size<T>::value;
+};
+template<typename T, std::size_t N>
+struct serialization_size<std::array<T, N>> {
+  constexpr static auto value = N * serialization_size<T>::value;
+};
 
 //! \brief Make a tuple view according to a typelist
 template<endianess Endianess, signed_mode Signed_Mode, typename It, typename... Ts>
-- 
2.43.0


From 5d483f8a0fd624f08ee441f20fc04270ab0806fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 7/9] fix: do not send uninitialized memory at the end of a
 reply

---
 include/upd/buffered_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/upd/buffered_dispatcher.hpp b/include/upd/buffered_dispatcher.hpp
index 7c709f0..90bf3a1 100644
--- a/include/upd/buffered_dispatcher.hpp
+++ b/include/upd/buffered_dispatcher.hpp
@@ -240,7 +240,7 @@ public:
 
     using buf_t = typename Key::tuple_t::template arg_t<0>;
 
-    buf_t buf;
+    buf_t buf{};
     write_to(std::begin(buf));
     k(buf).write_to(UPD_FWD(output));
 
-- 
2.43.0


From 4da57f6c2182f71ccb1a31356e112880944fa862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 8/9] fix: make actions keep a copy of the callbacks they are
 given as lvalues

Only a reference was kept, which dangled once the original callback was destroyed.
---
 include/upd/action.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index 611a33b..a327ab1 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 
 #include "format.hpp"
 #include "tuple.hpp"
@@ -76,9 +77,12 @@ template<typename F, endianess Endianess, signed_mode Signed_Mode>
 struct action_model_impl {
   using tuple_t = input_tuple<Endianess, Signed_Mode, F>;
 
-  explicit action_model_impl(F &&ftor) : ftor{UPD_FWD(ftor)} {}
+  explicit action_model_impl(F &&ftor) : ftor(UPD_FWD(ftor)) {}
 
-  F ftor;
+  //! \brief Copy of the functor (or reference to the function)
+  typename std::conditional<std::is_function<typename std::remove_reference<F>::type>::value,
+                            F,
+                            typename std::decay<F>::type>::type ftor;
 };
 
 //! \brief Abstract class used for setting up type erasure in the `action` class
@@ -110,7 +114,9 @@ public:
     action_model::output_size = flatten_tuple_t<Endianess, Signed_Mode, return_t<F>>::size;
   }
 
-  void operator()(src_t &&src, dest_t &&dest) final { return detail::call<tuple_t>(src, dest, UPD_FWD(m_impl.ftor)); }
+  void operator()(src_t &&src, dest_t &&dest) final {
+    return detail::call<tuple_t>(src, dest, static_cast<F &&>(m_impl.ftor));
+  }
 
 private:
   impl_t m_impl;
-- 
2.43.0


From 9b9e422413f7a144c214e24d9c2387819387e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:56 +0000
Subject: [PATCH 9/9] fix: let no-storage actions and weak references return
 arrays

---
 include/upd/action.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/upd/action.hpp b/include/upd/action.hpp
index a327ab1..71011dd 100644
--- a/include/upd/action.hpp
+++ b/include/upd/action.hpp
@@ -141,7 +141,8 @@ void static_storage_duration_callback_wrapper(src_t &&src, dest_t &&dest) {
   input_tuple<Endianess, Signed_Mode, F> parameters_tuple;
   for (auto &byte : parameters_tuple)
     byte = src();
-  auto return_tuple = make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
+  auto return_tuple =
+      upd::make_tuple(endianess_h<Endianess>{}, signed_mode_h<Signed_Mode>{}, parameters_tuple.invoke(Ftor));
   for (auto byte : return_tuple)
     dest(byte);
 }
-- 
2.43.0

