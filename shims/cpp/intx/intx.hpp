// Offline stand-in for the intx 256-bit integer library (API subset used by,
// or plausibly used by, Tosca's C++ sources). Written for /verif; the results
// are validated against the TLA+ word arithmetic (spec/Word.tla).
#pragma once
#include <algorithm>
#include <bit>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>

namespace intx {

template <unsigned N>
struct uint;

template <typename T>
struct result_with_carry {
  T value;
  bool carry;
};
template <typename QuotT, typename RemT = QuotT>
struct div_result {
  QuotT quot;
  RemT rem;
  bool operator==(const div_result&) const = default;
};

template <unsigned N>
struct uint {
  using word_type = uint64_t;
  static constexpr auto word_num_bits = sizeof(word_type) * 8;
  static constexpr auto num_bits = N;
  static constexpr auto num_words = num_bits / word_num_bits;
  static_assert(N % 64 == 0 && N >= 64);

 private:
  uint64_t words_[num_words]{};

 public:
  constexpr uint() noexcept = default;

  template <typename... T>
  requires(sizeof...(T) > 0 && sizeof...(T) <= N / 64 && (std::is_convertible_v<T, uint64_t> && ...))
  constexpr uint(T... v) noexcept : words_{static_cast<uint64_t>(v)...} {}

  template <unsigned M>
  requires(M < N)
  constexpr uint(const uint<M>& x) noexcept {
    for (size_t i = 0; i < uint<M>::num_words; ++i) words_[i] = x[i];
  }
  constexpr uint(unsigned __int128 v) noexcept
  requires(N >= 128)
  {
    words_[0] = static_cast<uint64_t>(v);
    words_[1] = static_cast<uint64_t>(v >> 64);
  }

  constexpr uint64_t& operator[](size_t i) noexcept { return words_[i]; }
  constexpr const uint64_t& operator[](size_t i) const noexcept { return words_[i]; }

  constexpr explicit operator bool() const noexcept { return *this != uint{}; }

  template <unsigned M>
  requires(M < N)
  constexpr explicit operator uint<M>() const noexcept {
    uint<M> r;
    for (size_t i = 0; i < uint<M>::num_words; ++i) r[i] = words_[i];
    return r;
  }
  template <typename Int>
  requires(std::is_integral_v<Int> && !std::is_same_v<Int, bool>)
  constexpr explicit operator Int() const noexcept { return static_cast<Int>(words_[0]); }

  friend constexpr bool operator==(const uint& a, const uint& b) noexcept {
    for (size_t i = 0; i < num_words; ++i)
      if (a.words_[i] != b.words_[i]) return false;
    return true;
  }
  friend constexpr bool operator<(const uint& a, const uint& b) noexcept {
    for (size_t i = num_words; i-- > 0;) {
      if (a.words_[i] != b.words_[i]) return a.words_[i] < b.words_[i];
    }
    return false;
  }
  friend constexpr bool operator>(const uint& a, const uint& b) noexcept { return b < a; }
  friend constexpr bool operator<=(const uint& a, const uint& b) noexcept { return !(b < a); }
  friend constexpr bool operator>=(const uint& a, const uint& b) noexcept { return !(a < b); }

  friend constexpr uint operator~(const uint& a) noexcept {
    uint r;
    for (size_t i = 0; i < num_words; ++i) r.words_[i] = ~a.words_[i];
    return r;
  }
  friend constexpr uint operator|(const uint& a, const uint& b) noexcept {
    uint r;
    for (size_t i = 0; i < num_words; ++i) r.words_[i] = a.words_[i] | b.words_[i];
    return r;
  }
  friend constexpr uint operator&(const uint& a, const uint& b) noexcept {
    uint r;
    for (size_t i = 0; i < num_words; ++i) r.words_[i] = a.words_[i] & b.words_[i];
    return r;
  }
  friend constexpr uint operator^(const uint& a, const uint& b) noexcept {
    uint r;
    for (size_t i = 0; i < num_words; ++i) r.words_[i] = a.words_[i] ^ b.words_[i];
    return r;
  }
  friend constexpr uint operator<<(const uint& a, uint64_t s) noexcept {
    uint r;
    if (s >= N) return r;
    const size_t w = s / 64;
    const unsigned b = static_cast<unsigned>(s % 64);
    for (size_t i = num_words; i-- > w;) {
      r.words_[i] = a.words_[i - w] << b;
      if (b != 0 && i > w) r.words_[i] |= a.words_[i - w - 1] >> (64 - b);
    }
    return r;
  }
  friend constexpr uint operator>>(const uint& a, uint64_t s) noexcept {
    uint r;
    if (s >= N) return r;
    const size_t w = s / 64;
    const unsigned b = static_cast<unsigned>(s % 64);
    for (size_t i = 0; i + w < num_words; ++i) {
      r.words_[i] = a.words_[i + w] >> b;
      if (b != 0 && i + w + 1 < num_words) r.words_[i] |= a.words_[i + w + 1] << (64 - b);
    }
    return r;
  }
  friend constexpr uint operator<<(const uint& a, const uint& s) noexcept {
    for (size_t i = 1; i < num_words; ++i)
      if (s.words_[i] != 0) return {};
    return a << s.words_[0];
  }
  friend constexpr uint operator>>(const uint& a, const uint& s) noexcept {
    for (size_t i = 1; i < num_words; ++i)
      if (s.words_[i] != 0) return {};
    return a >> s.words_[0];
  }
  template <typename Int>
  requires(std::is_integral_v<Int> && !std::is_same_v<Int, uint64_t>)
  friend constexpr uint operator<<(const uint& a, Int s) noexcept { return a << static_cast<uint64_t>(s); }
  template <typename Int>
  requires(std::is_integral_v<Int> && !std::is_same_v<Int, uint64_t>)
  friend constexpr uint operator>>(const uint& a, Int s) noexcept { return a >> static_cast<uint64_t>(s); }

  friend constexpr uint operator+(const uint& a, const uint& b) noexcept {
    uint r;
    unsigned __int128 c = 0;
    for (size_t i = 0; i < num_words; ++i) {
      c += static_cast<unsigned __int128>(a.words_[i]) + b.words_[i];
      r.words_[i] = static_cast<uint64_t>(c);
      c >>= 64;
    }
    return r;
  }
  friend constexpr uint operator-(const uint& a) noexcept { return ~a + uint{1}; }
  friend constexpr uint operator-(const uint& a, const uint& b) noexcept {
    uint r;
    uint64_t borrow = 0;
    for (size_t i = 0; i < num_words; ++i) {
      const unsigned __int128 d = static_cast<unsigned __int128>(a.words_[i]) - b.words_[i] - borrow;
      r.words_[i] = static_cast<uint64_t>(d);
      borrow = static_cast<uint64_t>(d >> 64) & 1;
    }
    return r;
  }
  friend constexpr uint operator*(const uint& a, const uint& b) noexcept {
    uint r;
    for (size_t i = 0; i < num_words; ++i) {
      uint64_t carry = 0;
      for (size_t j = 0; i + j < num_words; ++j) {
        const unsigned __int128 p =
            static_cast<unsigned __int128>(a.words_[i]) * b.words_[j] + r.words_[i + j] + carry;
        r.words_[i + j] = static_cast<uint64_t>(p);
        carry = static_cast<uint64_t>(p >> 64);
      }
    }
    return r;
  }

  constexpr uint& operator+=(const uint& o) noexcept { return *this = *this + o; }
  constexpr uint& operator-=(const uint& o) noexcept { return *this = *this - o; }
  constexpr uint& operator*=(const uint& o) noexcept { return *this = *this * o; }
  constexpr uint& operator/=(const uint& o) noexcept { return *this = *this / o; }
  constexpr uint& operator%=(const uint& o) noexcept { return *this = *this % o; }
  constexpr uint& operator|=(const uint& o) noexcept { return *this = *this | o; }
  constexpr uint& operator&=(const uint& o) noexcept { return *this = *this & o; }
  constexpr uint& operator^=(const uint& o) noexcept { return *this = *this ^ o; }
  constexpr uint& operator<<=(const uint& o) noexcept { return *this = *this << o; }
  constexpr uint& operator>>=(const uint& o) noexcept { return *this = *this >> o; }
  constexpr uint& operator++() noexcept { return *this += uint{1}; }
  constexpr uint operator++(int) noexcept { auto t = *this; ++*this; return t; }
  constexpr uint& operator--() noexcept { return *this -= uint{1}; }
  constexpr uint operator--(int) noexcept { auto t = *this; --*this; return t; }
};

using uint128 = uint<128>;
using uint192 = uint<192>;
using uint256 = uint<256>;
using uint320 = uint<320>;
using uint384 = uint<384>;
using uint512 = uint<512>;

template <unsigned N>
constexpr unsigned clz(const uint<N>& x) noexcept {
  unsigned n = 0;
  for (size_t i = uint<N>::num_words; i-- > 0;) {
    if (x[i] != 0) return n + static_cast<unsigned>(std::countl_zero(x[i]));
    n += 64;
  }
  return n;
}
template <unsigned N>
constexpr unsigned ctz(const uint<N>& x) noexcept {
  unsigned n = 0;
  for (size_t i = 0; i < uint<N>::num_words; ++i) {
    if (x[i] != 0) return n + static_cast<unsigned>(std::countr_zero(x[i]));
    n += 64;
  }
  return n;
}
template <unsigned N>
constexpr unsigned bit_width(const uint<N>& x) noexcept { return N - clz(x); }
template <unsigned N>
constexpr unsigned count_significant_bytes(const uint<N>& x) noexcept { return (bit_width(x) + 7) / 8; }
template <unsigned N>
constexpr unsigned count_significant_words(const uint<N>& x) noexcept {
  for (size_t i = uint<N>::num_words; i > 0; --i)
    if (x[i - 1] != 0) return static_cast<unsigned>(i);
  return 0;
}

template <unsigned N>
constexpr div_result<uint<N>> udivrem(const uint<N>& u, const uint<N>& v) noexcept {
  if (u < v) return {uint<N>{}, u};
  if (count_significant_words(u) <= 1) return {uint<N>{u[0] / v[0]}, uint<N>{u[0] % v[0]}};
  uint<N> q, r;
  if (count_significant_words(v) == 1) {
    unsigned __int128 rem = 0;
    for (size_t i = uint<N>::num_words; i-- > 0;) {
      rem = (rem << 64) | u[i];
      q[i] = static_cast<uint64_t>(rem / v[0]);
      rem %= v[0];
    }
    return {q, uint<N>{static_cast<uint64_t>(rem)}};
  }
  const unsigned bits = bit_width(u);
  for (unsigned i = bits; i-- > 0;) {
    const bool top = (r[uint<N>::num_words - 1] >> 63) != 0;
    r = r << uint64_t{1};
    r[0] |= (u[i / 64] >> (i % 64)) & 1;
    if (top || r >= v) {
      r = r - v;
      q[i / 64] |= uint64_t{1} << (i % 64);
    }
  }
  return {q, r};
}
template <unsigned N>
constexpr uint<N> operator/(const uint<N>& a, const uint<N>& b) noexcept { return udivrem(a, b).quot; }
template <unsigned N>
constexpr uint<N> operator%(const uint<N>& a, const uint<N>& b) noexcept { return udivrem(a, b).rem; }
template <unsigned N, typename Int>
requires(std::is_integral_v<Int>)
constexpr uint<N> operator/(const uint<N>& a, Int b) noexcept { return udivrem(a, uint<N>(b)).quot; }
template <unsigned N, typename Int>
requires(std::is_integral_v<Int>)
constexpr uint<N> operator%(const uint<N>& a, Int b) noexcept { return udivrem(a, uint<N>(b)).rem; }

template <unsigned N>
constexpr div_result<uint<N>> sdivrem(const uint<N>& u, const uint<N>& v) noexcept {
  const auto neg = [](const uint<N>& x) { return (x[uint<N>::num_words - 1] >> 63) != 0; };
  const bool un = neg(u), vn = neg(v);
  const auto r = udivrem(un ? -u : u, vn ? -v : v);
  return {(un != vn) ? -r.quot : r.quot, un ? -r.rem : r.rem};
}
template <unsigned N>
constexpr bool slt(const uint<N>& x, const uint<N>& y) noexcept {
  const bool xn = (x[uint<N>::num_words - 1] >> 63) != 0;
  const bool yn = (y[uint<N>::num_words - 1] >> 63) != 0;
  return xn != yn ? xn : x < y;
}
template <unsigned N>
constexpr result_with_carry<uint<N>> addc(const uint<N>& x, const uint<N>& y, bool carry = false) noexcept {
  uint<N> r;
  unsigned __int128 c = carry;
  for (size_t i = 0; i < uint<N>::num_words; ++i) {
    c += static_cast<unsigned __int128>(x[i]) + y[i];
    r[i] = static_cast<uint64_t>(c);
    c >>= 64;
  }
  return {r, c != 0};
}
template <unsigned N>
constexpr result_with_carry<uint<N>> subc(const uint<N>& x, const uint<N>& y, bool carry = false) noexcept {
  const auto d = x - y - uint<N>{carry ? 1 : 0};
  return {d, carry ? x <= y : x < y};
}
template <unsigned N>
constexpr uint<2 * N> umul(const uint<N>& a, const uint<N>& b) noexcept {
  return uint<2 * N>(a) * uint<2 * N>(b);
}
template <unsigned N>
constexpr uint<N> exp(uint<N> base, uint<N> exponent) noexcept {
  uint<N> r{1};
  while (exponent != uint<N>{}) {
    if (exponent[0] & 1) r *= base;
    base *= base;
    exponent = exponent >> uint64_t{1};
  }
  return r;
}
constexpr uint256 addmod(const uint256& x, const uint256& y, const uint256& mod) noexcept {
  const auto s = uint<320>(x) + uint<320>(y);
  return static_cast<uint256>(udivrem(s, uint<320>(mod)).rem);
}
constexpr uint256 mulmod(const uint256& x, const uint256& y, const uint256& mod) noexcept {
  return static_cast<uint256>(udivrem(umul(x, y), uint512(mod)).rem);
}

constexpr uint64_t bswap(uint64_t x) noexcept { return __builtin_bswap64(x); }
constexpr uint32_t bswap(uint32_t x) noexcept { return __builtin_bswap32(x); }
template <unsigned N>
constexpr uint<N> bswap(const uint<N>& x) noexcept {
  uint<N> r;
  for (size_t i = 0; i < uint<N>::num_words; ++i) r[uint<N>::num_words - 1 - i] = bswap(x[i]);
  return r;
}

template <typename T>
inline uint8_t* as_bytes(T& x) noexcept { return reinterpret_cast<uint8_t*>(&x); }
template <typename T>
inline const uint8_t* as_bytes(const T& x) noexcept { return reinterpret_cast<const uint8_t*>(&x); }
template <unsigned N>
inline uint64_t* as_words(uint<N>& x) noexcept { return &x[0]; }
template <unsigned N>
inline const uint64_t* as_words(const uint<N>& x) noexcept { return &x[0]; }

template <unsigned N>
inline std::string to_string(uint<N> x, int base = 10) {
  if (base < 2 || base > 36) throw std::invalid_argument("base");
  if (x == uint<N>{}) return "0";
  std::string s;
  while (x != uint<N>{}) {
    const auto r = udivrem(x, uint<N>(base));
    const auto d = static_cast<int>(r.rem[0]);
    s.push_back(static_cast<char>(d < 10 ? '0' + d : 'a' + d - 10));
    x = r.quot;
  }
  std::reverse(s.begin(), s.end());
  return s;
}
template <unsigned N>
inline std::string hex(uint<N> x) { return to_string(x, 16); }
template <typename Int>
constexpr Int from_string(const char* s) {
  Int x{};
  int base = 10;
  if (s[0] == '0' && s[1] == 'x') { base = 16; s += 2; }
  for (; *s; ++s) {
    const int d = *s <= '9' ? *s - '0' : (*s | 0x20) - 'a' + 10;
    x = x * Int(base) + Int(d);
  }
  return x;
}
inline namespace literals {
constexpr uint256 operator""_u256(const char* s) { return from_string<uint256>(s); }
}  // namespace literals

namespace be {
template <typename IntT, unsigned M>
inline IntT load(const uint8_t (&src)[M]) noexcept {
  static_assert(M <= IntT::num_bits / 8);
  IntT x;
  for (unsigned i = 0; i < M; ++i) {
    const unsigned pos = M - 1 - i;  // byte significance
    x[pos / 8] |= static_cast<uint64_t>(src[i]) << (8 * (pos % 8));
  }
  return x;
}
template <typename IntT, typename T>
inline IntT load(const T& t) noexcept { return load<IntT>(t.bytes); }

template <unsigned N>
inline void store(uint8_t (&dst)[N / 8], const uint<N>& x) noexcept {
  for (unsigned i = 0; i < N / 8; ++i) {
    const unsigned pos = N / 8 - 1 - i;
    dst[i] = static_cast<uint8_t>(x[pos / 8] >> (8 * (pos % 8)));
  }
}
template <typename T, unsigned N>
inline T store(const uint<N>& x) noexcept {
  T r{};
  store(r.bytes, x);
  return r;
}
template <unsigned M, unsigned N>
inline void trunc(uint8_t (&dst)[M], const uint<N>& x) noexcept {
  uint8_t full[N / 8];
  store(full, x);
  std::memcpy(dst, full + (N / 8 - M), M);
}
template <typename T, unsigned N>
inline T trunc(const uint<N>& x) noexcept {
  T r{};
  trunc(r.bytes, x);
  return r;
}
namespace unsafe {
template <typename IntT>
inline IntT load(const uint8_t* src) noexcept {
  uint8_t b[IntT::num_bits / 8];
  std::memcpy(b, src, sizeof(b));
  return be::load<IntT>(b);
}
template <unsigned N>
inline void store(uint8_t* dst, const uint<N>& x) noexcept {
  uint8_t b[N / 8];
  be::store(b, x);
  std::memcpy(dst, b, sizeof(b));
}
}  // namespace unsafe
}  // namespace be

namespace le {
template <typename IntT, unsigned M>
inline IntT load(const uint8_t (&src)[M]) noexcept {
  IntT x;
  for (unsigned i = 0; i < M; ++i) x[i / 8] |= static_cast<uint64_t>(src[i]) << (8 * (i % 8));
  return x;
}
template <unsigned N>
inline void store(uint8_t (&dst)[N / 8], const uint<N>& x) noexcept {
  for (unsigned i = 0; i < N / 8; ++i) dst[i] = static_cast<uint8_t>(x[i / 8] >> (8 * (i % 8)));
}
namespace unsafe {
template <typename IntT>
inline IntT load(const uint8_t* src) noexcept {
  uint8_t b[IntT::num_bits / 8];
  std::memcpy(b, src, sizeof(b));
  return le::load<IntT>(b);
}
template <unsigned N>
inline void store(uint8_t* dst, const uint<N>& x) noexcept {
  uint8_t b[N / 8];
  le::store(b, x);
  std::memcpy(dst, b, sizeof(b));
}
}  // namespace unsafe
}  // namespace le

}  // namespace intx

template <unsigned N>
struct std::numeric_limits<intx::uint<N>> {
  static constexpr bool is_specialized = true;
  static constexpr bool is_integer = true;
  static constexpr bool is_signed = false;
  static constexpr intx::uint<N> min() noexcept { return {}; }
  static constexpr intx::uint<N> max() noexcept { return ~intx::uint<N>{}; }
};
