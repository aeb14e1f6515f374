#pragma once
#include <cstring>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/int128.h"
namespace yacl {
inline Buffer SerializeUint128(uint128_t v) { return Buffer(&v, sizeof(v)); }
inline uint128_t DeserializeUint128(ByteContainerView b) {
  YACL_ENFORCE(b.size() == sizeof(uint128_t));
  uint128_t v;
  std::memcpy(&v, b.data(), sizeof(v));
  return v;
}
inline Buffer SerializeInt128(int128_t v) { return Buffer(&v, sizeof(v)); }
inline int128_t DeserializeInt128(ByteContainerView b) { return static_cast<int128_t>(DeserializeUint128(b)); }
namespace ser {
template <typename T, typename = void> struct Codec {
  static_assert(std::is_trivially_copyable_v<T>);
  static void put(std::string& o, const T& v) { o.append(reinterpret_cast<const char*>(&v), sizeof(T)); }
  static T get(const char*& p, const char* e) {
    YACL_ENFORCE(static_cast<size_t>(e - p) >= sizeof(T));
    T v; std::memcpy(&v, p, sizeof(T)); p += sizeof(T); return v;
  }
};
template <> struct Codec<std::string> {
  static void put(std::string& o, const std::string& v) { Codec<uint64_t>::put(o, v.size()); o += v; }
  static std::string get(const char*& p, const char* e) {
    auto n = Codec<uint64_t>::get(p, e);
    YACL_ENFORCE(static_cast<size_t>(e - p) >= n);
    std::string s(p, n); p += n; return s;
  }
};
template <> struct Codec<Buffer> {
  static void put(std::string& o, const Buffer& v) { Codec<uint64_t>::put(o, v.size()); o.append(v.data<char>(), v.size()); }
  static Buffer get(const char*& p, const char* e) {
    auto n = Codec<uint64_t>::get(p, e);
    YACL_ENFORCE(static_cast<size_t>(e - p) >= n);
    Buffer s(p, n); p += n; return s;
  }
};
template <typename U> struct Codec<std::vector<U>> {
  static void put(std::string& o, const std::vector<U>& v) { Codec<uint64_t>::put(o, v.size()); for (const auto& x : v) Codec<U>::put(o, x); }
  static std::vector<U> get(const char*& p, const char* e) {
    auto n = Codec<uint64_t>::get(p, e);
    std::vector<U> r; for (uint64_t i = 0; i < n; ++i) r.push_back(Codec<U>::get(p, e)); return r;
  }
};
}  // namespace ser
template <typename... T>
Buffer SerializeVars(const T&... v) {
  std::string o;
  (ser::Codec<T>::put(o, v), ...);
  return Buffer(o.data(), o.size());
}
template <typename... T>
auto DeserializeVars(ByteContainerView b) {
  const char* p = reinterpret_cast<const char*>(b.data());
  const char* e = p + b.size();
  if constexpr (sizeof...(T) == 1) {
    return ser::Codec<std::tuple_element_t<0, std::tuple<T...>>>::get(p, e);
  } else {
    return std::tuple<T...>{ser::Codec<T>::get(p, e)...};
  }
}
}  // namespace yacl
