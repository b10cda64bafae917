// Offline stand-in for the EVMC C++ API (subset), written for /verif.
#pragma once
#include <evmc/evmc.h>

#include <algorithm>
#include <cstring>
#include <functional>
#include <string>
#include <utility>

namespace evmc {

using bytes = std::basic_string<uint8_t>;
using bytes_view = std::basic_string_view<uint8_t>;

struct address : evmc_address {
  constexpr address(evmc_address init = {}) noexcept : evmc_address{init} {}
  explicit constexpr address(uint64_t v) noexcept
      : evmc_address{{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, static_cast<uint8_t>(v >> 56), static_cast<uint8_t>(v >> 48),
                      static_cast<uint8_t>(v >> 40), static_cast<uint8_t>(v >> 32), static_cast<uint8_t>(v >> 24),
                      static_cast<uint8_t>(v >> 16), static_cast<uint8_t>(v >> 8), static_cast<uint8_t>(v >> 0)}} {}
  inline constexpr explicit operator bool() const noexcept;
};

struct bytes32 : evmc_bytes32 {
  constexpr bytes32(evmc_bytes32 init = {}) noexcept : evmc_bytes32{init} {}
  explicit constexpr bytes32(uint64_t v) noexcept
      : evmc_bytes32{{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
                      static_cast<uint8_t>(v >> 56), static_cast<uint8_t>(v >> 48), static_cast<uint8_t>(v >> 40),
                      static_cast<uint8_t>(v >> 32), static_cast<uint8_t>(v >> 24), static_cast<uint8_t>(v >> 16),
                      static_cast<uint8_t>(v >> 8), static_cast<uint8_t>(v >> 0)}} {}
  inline constexpr explicit operator bool() const noexcept;
};
using uint256be = bytes32;

constexpr int cmp(const uint8_t* a, const uint8_t* b, size_t n) noexcept {
  for (size_t i = 0; i < n; ++i) {
    if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  }
  return 0;
}
inline constexpr bool operator==(const address& a, const address& b) noexcept { return cmp(a.bytes, b.bytes, 20) == 0; }
inline constexpr bool operator!=(const address& a, const address& b) noexcept { return !(a == b); }
inline constexpr bool operator<(const address& a, const address& b) noexcept { return cmp(a.bytes, b.bytes, 20) < 0; }
inline constexpr bool operator>(const address& a, const address& b) noexcept { return b < a; }
inline constexpr bool operator<=(const address& a, const address& b) noexcept { return !(b < a); }
inline constexpr bool operator>=(const address& a, const address& b) noexcept { return !(a < b); }
inline constexpr bool operator==(const bytes32& a, const bytes32& b) noexcept { return cmp(a.bytes, b.bytes, 32) == 0; }
inline constexpr bool operator!=(const bytes32& a, const bytes32& b) noexcept { return !(a == b); }
inline constexpr bool operator<(const bytes32& a, const bytes32& b) noexcept { return cmp(a.bytes, b.bytes, 32) < 0; }
inline constexpr bool operator>(const bytes32& a, const bytes32& b) noexcept { return b < a; }
inline constexpr bool operator<=(const bytes32& a, const bytes32& b) noexcept { return !(b < a); }
inline constexpr bool operator>=(const bytes32& a, const bytes32& b) noexcept { return !(a < b); }

inline constexpr bool is_zero(const address& a) noexcept { return a == address{}; }
inline constexpr bool is_zero(const bytes32& a) noexcept { return a == bytes32{}; }
inline constexpr address::operator bool() const noexcept { return !is_zero(*this); }
inline constexpr bytes32::operator bool() const noexcept { return !is_zero(*this); }

constexpr int hexval(char c) noexcept { return c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10; }
template <typename T>
constexpr T parse_hex_literal(const char* s) noexcept {
  T r{};
  size_t len = 0;
  while (s[len]) ++len;
  if (len >= 2 && s[0] == '0' && (s[1] | 0x20) == 'x') { s += 2; len -= 2; }
  size_t nib = 0;
  for (size_t i = len; i-- > 0 && nib < 2 * sizeof(r.bytes); ++nib) {
    r.bytes[sizeof(r.bytes) - 1 - nib / 2] |= static_cast<uint8_t>(hexval(s[i]) << (4 * (nib % 2)));
  }
  return r;
}
inline namespace literals {
constexpr address operator""_address(const char* s) noexcept { return parse_hex_literal<address>(s); }
constexpr bytes32 operator""_bytes32(const char* s) noexcept { return parse_hex_literal<bytes32>(s); }
}  // namespace literals

inline const char* to_string(evmc_status_code c) noexcept {
  switch (c) {
    case EVMC_SUCCESS: return "success";
    case EVMC_REVERT: return "revert";
    case EVMC_OUT_OF_GAS: return "out of gas";
    default: return "failure";
  }
}

class Result : private evmc_result {
 public:
  using evmc_result::create_address;
  using evmc_result::gas_left;
  using evmc_result::gas_refund;
  using evmc_result::output_data;
  using evmc_result::output_size;
  using evmc_result::status_code;

  explicit Result(evmc_status_code c, int64_t gas_left, int64_t gas_refund, const uint8_t* data, size_t size) noexcept
      : evmc_result{} {
    this->status_code = c;
    this->gas_left = gas_left;
    this->gas_refund = gas_refund;
    if (size != 0) {
      auto* buf = new uint8_t[size];
      std::memcpy(buf, data, size);
      output_data = buf;
      output_size = size;
      release = [](const evmc_result* r) { delete[] r->output_data; };
    }
  }
  explicit Result(evmc_status_code c = EVMC_INTERNAL_ERROR, int64_t gas_left = 0, int64_t gas_refund = 0) noexcept
      : Result{c, gas_left, gas_refund, nullptr, 0} {}
  explicit Result(evmc_status_code c, int64_t gas_left, int64_t gas_refund, const evmc_address& a) noexcept
      : Result{c, gas_left, gas_refund} {
    create_address = a;
  }
  explicit Result(const evmc_result& res) noexcept : evmc_result{res} {}
  ~Result() noexcept {
    if (release != nullptr) release(this);
  }
  Result(Result&& o) noexcept : evmc_result{o} { o.release = nullptr; }
  Result(const Result&) = delete;
  Result& operator=(const Result&) = delete;
  Result& operator=(Result&& o) noexcept {
    this->~Result();
    static_cast<evmc_result&>(*this) = o;
    o.release = nullptr;
    return *this;
  }
  const evmc_result& raw() const noexcept { return *this; }
  evmc_result release_raw() noexcept {
    const auto r = evmc_result{*this};
    this->release = nullptr;
    return r;
  }
};
using result = Result;

class HostInterface {
 public:
  virtual ~HostInterface() noexcept = default;
  virtual bool account_exists(const address& addr) const noexcept = 0;
  virtual bytes32 get_storage(const address& addr, const bytes32& key) const noexcept = 0;
  virtual evmc_storage_status set_storage(const address& addr, const bytes32& key, const bytes32& value) noexcept = 0;
  virtual uint256be get_balance(const address& addr) const noexcept = 0;
  virtual size_t get_code_size(const address& addr) const noexcept = 0;
  virtual bytes32 get_code_hash(const address& addr) const noexcept = 0;
  virtual size_t copy_code(const address& addr, size_t code_offset, uint8_t* buffer_data,
                           size_t buffer_size) const noexcept = 0;
  virtual bool selfdestruct(const address& addr, const address& beneficiary) noexcept = 0;
  virtual Result call(const evmc_message& msg) noexcept = 0;
  virtual evmc_tx_context get_tx_context() const noexcept = 0;
  virtual bytes32 get_block_hash(int64_t block_number) const noexcept = 0;
  virtual void emit_log(const address& addr, const uint8_t* data, size_t data_size, const bytes32 topics[],
                        size_t num_topics) noexcept = 0;
  virtual evmc_access_status access_account(const address& addr) noexcept = 0;
  virtual evmc_access_status access_storage(const address& addr, const bytes32& key) noexcept = 0;
  virtual bytes32 get_transient_storage(const address& addr, const bytes32& key) const noexcept = 0;
  virtual void set_transient_storage(const address& addr, const bytes32& key, const bytes32& value) noexcept = 0;
};

class HostContext : public HostInterface {
  const evmc_host_interface* host = nullptr;
  evmc_host_context* context = nullptr;

 public:
  HostContext() = default;
  HostContext(const evmc_host_interface& interface, evmc_host_context* ctx) noexcept
      : host{&interface}, context{ctx} {}
  bool account_exists(const address& a) const noexcept final { return host->account_exists(context, &a); }
  bytes32 get_storage(const address& a, const bytes32& k) const noexcept final {
    return host->get_storage(context, &a, &k);
  }
  evmc_storage_status set_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final {
    return host->set_storage(context, &a, &k, &v);
  }
  uint256be get_balance(const address& a) const noexcept final { return host->get_balance(context, &a); }
  size_t get_code_size(const address& a) const noexcept final { return host->get_code_size(context, &a); }
  bytes32 get_code_hash(const address& a) const noexcept final { return host->get_code_hash(context, &a); }
  size_t copy_code(const address& a, size_t off, uint8_t* buf, size_t size) const noexcept final {
    return host->copy_code(context, &a, off, buf, size);
  }
  bool selfdestruct(const address& a, const address& b) noexcept final { return host->selfdestruct(context, &a, &b); }
  Result call(const evmc_message& m) noexcept final { return Result{host->call(context, &m)}; }
  evmc_tx_context get_tx_context() const noexcept final { return host->get_tx_context(context); }
  bytes32 get_block_hash(int64_t n) const noexcept final { return host->get_block_hash(context, n); }
  void emit_log(const address& a, const uint8_t* d, size_t n, const bytes32 t[], size_t c) noexcept final {
    host->emit_log(context, &a, d, n, t, c);
  }
  evmc_access_status access_account(const address& a) noexcept final { return host->access_account(context, &a); }
  evmc_access_status access_storage(const address& a, const bytes32& k) noexcept final {
    return host->access_storage(context, &a, &k);
  }
  bytes32 get_transient_storage(const address& a, const bytes32& k) const noexcept final {
    return host->get_transient_storage(context, &a, &k);
  }
  void set_transient_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final {
    host->set_transient_storage(context, &a, &k, &v);
  }
};

class Host : public HostInterface {
 public:
  static const evmc_host_interface& get_interface() noexcept;
  evmc_host_context* to_context() noexcept { return reinterpret_cast<evmc_host_context*>(this); }
  template <typename D = Host>
  static D* from_context(evmc_host_context* c) noexcept { return reinterpret_cast<D*>(c); }
};

namespace internal {
inline Host* H(evmc_host_context* h) noexcept { return Host::from_context(h); }
}  // namespace internal

inline const evmc_host_interface& Host::get_interface() noexcept {
  using internal::H;
  static constexpr evmc_host_interface i = {
      [](evmc_host_context* h, const evmc_address* a) { return H(h)->account_exists(*a); },
      [](evmc_host_context* h, const evmc_address* a, const evmc_bytes32* k) -> evmc_bytes32 {
        return H(h)->get_storage(*a, *k);
      },
      [](evmc_host_context* h, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) {
        return H(h)->set_storage(*a, *k, *v);
      },
      [](evmc_host_context* h, const evmc_address* a) -> evmc_uint256be { return H(h)->get_balance(*a); },
      [](evmc_host_context* h, const evmc_address* a) { return H(h)->get_code_size(*a); },
      [](evmc_host_context* h, const evmc_address* a) -> evmc_bytes32 { return H(h)->get_code_hash(*a); },
      [](evmc_host_context* h, const evmc_address* a, size_t o, uint8_t* b, size_t n) {
        return H(h)->copy_code(*a, o, b, n);
      },
      [](evmc_host_context* h, const evmc_address* a, const evmc_address* b) { return H(h)->selfdestruct(*a, *b); },
      [](evmc_host_context* h, const evmc_message* m) { return H(h)->call(*m).release_raw(); },
      [](evmc_host_context* h) { return H(h)->get_tx_context(); },
      [](evmc_host_context* h, int64_t n) -> evmc_bytes32 { return H(h)->get_block_hash(n); },
      [](evmc_host_context* h, const evmc_address* a, const uint8_t* d, size_t n, const evmc_bytes32* t, size_t c) {
        H(h)->emit_log(*a, d, n, static_cast<const bytes32*>(t), c);
      },
      [](evmc_host_context* h, const evmc_address* a) { return H(h)->access_account(*a); },
      [](evmc_host_context* h, const evmc_address* a, const evmc_bytes32* k) { return H(h)->access_storage(*a, *k); },
      [](evmc_host_context* h, const evmc_address* a, const evmc_bytes32* k) -> evmc_bytes32 {
        return H(h)->get_transient_storage(*a, *k);
      },
      [](evmc_host_context* h, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) {
        H(h)->set_transient_storage(*a, *k, *v);
      },
  };
  return i;
}

}  // namespace evmc

template <>
struct std::hash<evmc::address> {
  size_t operator()(const evmc::address& s) const noexcept {
    size_t h = 0xcbf29ce484222325ull;
    for (auto b : s.bytes) h = (h ^ b) * 0x100000001b3ull;
    return h;
  }
};
template <>
struct std::hash<evmc::bytes32> {
  size_t operator()(const evmc::bytes32& s) const noexcept {
    size_t h = 0xcbf29ce484222325ull;
    for (auto b : s.bytes) h = (h ^ b) * 0x100000001b3ull;
    return h;
  }
};
