// Runs cases (text file) on the real evmzero through its EVMC interface and
// records what it does: stepwise (state after every batch of instructions) and
// uninterrupted, in several configurations, nested, and on several threads.
//
//   evm CASES OUT MODE [ARG]
//     steps        step by step + default execution
//     exec         uninterrupted only, in every configuration
//     batches N    N random ways to cut each execution into batches
//     threads N    N threads share one instance per configuration
//     nested       every nested call first executes another case on the same instance
//     profile      histories of executions, options, resets and dumps (file PLAN) on instances that keep profiles
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <vector>

#include <fcntl.h>
#include <sched.h>
#include <x86intrin.h>
#include <unistd.h>

#include "evmc/evmc.h"
#include "evmc/evmc.hpp"

// With EVM_RUST defined, the interpreter is the Rust one: it has no profiles and
// fewer options, and the status codes of failures are folded by the caller.
extern "C" {
#ifdef EVM_RUST
evmc_vm* evmc_create_evmrs();
evmc_vm_steppable* evmc_create_steppable_evmrs();
static evmc_vm* create() { return evmc_create_evmrs(); }
static evmc_vm_steppable* create_steppable() { return evmc_create_steppable_evmrs(); }
#else
evmc_vm* evmc_create_evmzero();
evmc_vm_steppable* evmc_create_steppable_evmzero();
void evmzero_dump_profile(evmc_vm* vm);
void evmzero_reset_profiler(evmc_vm* vm);
static evmc_vm* create() { return evmc_create_evmzero(); }
static evmc_vm_steppable* create_steppable() { return evmc_create_steppable_evmzero(); }
#endif
}

using Bytes = std::vector<uint8_t>;

static Bytes Hex(const std::string& s) {
  Bytes r;
  if (s == "-") return r;
  auto d = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(d(s[i]) * 16 + d(s[i + 1]));
  return r;
}
template <class T>
static T Fixed(const Bytes& b) {  // right aligned
  T r{};
  size_t n = std::min(b.size(), sizeof(r.bytes));
  std::copy(b.end() - n, b.end(), r.bytes + sizeof(r.bytes) - n);
  return r;
}
static int64_t Int(const Bytes& b) {
  uint64_t r = 0;
  for (auto x : b) r = r << 8 | x;
  return static_cast<int64_t>(r);
}

using B32 = evmc_bytes32;
struct Less {
  bool operator()(const B32& a, const B32& b) const { return std::memcmp(&a, &b, 32) < 0; }
};
static bool IsZero(const B32& a) { return B32{}.bytes[0] == a.bytes[0] && std::memcmp(a.bytes, B32{}.bytes, 32) == 0; }
static B32 Word(const evmc_address& a) {
  B32 r{};
  std::copy(a.bytes, a.bytes + 20, r.bytes + 12);
  return r;
}

struct Acct { B32 bal{}; Bytes code; B32 hash{}; bool ex = false; };
struct Slot { B32 o{}, c{}; };
struct Script { int st = 0; int64_t gas = 0, ref = 0; Bytes out, addr; std::vector<std::pair<B32, B32>> writes; };
struct Case {
  std::string id;
  int rev = 0, depth = 0;
  bool is_static = false, destructed = false;
  int64_t gas = 0;
  Bytes code, input, codehash;
  int hashmode = 2;  // 0 no hash, 1 zero hash, 2 given hash
  std::map<std::string, Bytes> env;
  std::vector<B32> blobs;
  std::map<B32, Acct, Less> accts;
  std::map<B32, Slot, Less> slots;
  std::map<B32, B32, Less> trans;
  std::set<B32, Less> wa, ws;
  std::vector<Script> calls;
  std::vector<B32> stack;  // words on the stack at the start (stepwise executions)
  size_t limit = 3000, skip = 0;
};

static std::vector<Case> Load(const char* file) {
  std::vector<Case> cs;
  std::ifstream in(file);
  std::string line;
  Case c;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k, a, b, d, e;
    s >> k;
    if (k == "case") { c = Case{}; s >> c.id; }
    else if (k == "rev") s >> c.rev;
    else if (k == "static") { int x; s >> x; c.is_static = x; }
    else if (k == "depth") s >> c.depth;
    else if (k == "gas") s >> c.gas;
    else if (k == "limit") s >> c.limit;
    else if (k == "destructed") s >> c.destructed;
    else if (k == "skip") s >> c.skip;
    else if (k == "code") { s >> a; c.code = Hex(a); }
    else if (k == "input") { s >> a; c.input = Hex(a); }
    else if (k == "codehash") { s >> c.hashmode >> a; c.codehash = Hex(a); }
    else if (k == "env") { s >> a >> b; c.env[a] = Hex(b); }
    else if (k == "blob") { s >> a; c.blobs.push_back(Fixed<B32>(Hex(a))); }
    else if (k == "acct") {
      int x; std::string h;
      s >> a >> b >> d >> h >> x;
      Acct t; t.bal = Fixed<B32>(Hex(b)); t.code = Hex(d); t.hash = Fixed<B32>(Hex(h)); t.ex = x;
      c.accts[Fixed<B32>(Hex(a))] = t;
    }
    else if (k == "slot") { s >> a >> b >> d; c.slots[Fixed<B32>(Hex(a))] = {Fixed<B32>(Hex(b)), Fixed<B32>(Hex(d))}; }
    else if (k == "trans") { s >> a >> b; c.trans[Fixed<B32>(Hex(a))] = Fixed<B32>(Hex(b)); }
    else if (k == "stk") { s >> a; c.stack.push_back(Fixed<B32>(Hex(a))); }
    else if (k == "wa") { s >> a; c.wa.insert(Fixed<B32>(Hex(a))); }
    else if (k == "ws") { s >> a; c.ws.insert(Fixed<B32>(Hex(a))); }
    else if (k == "call") {
      Script t; size_t n;
      s >> t.st >> t.gas >> t.ref >> a >> b >> n;
      t.out = Hex(a); t.addr = Hex(b);
      for (size_t i = 0; i < n; i++) { s >> d >> e; t.writes.push_back({Fixed<B32>(Hex(d)), Fixed<B32>(Hex(e))}); }
      c.calls.push_back(t);
    }
    else if (k == "end") cs.push_back(c);
  }
  return cs;
}

// --- JSON ----------------------------------------------------------------------
struct Json {
  std::string s;
  void raw(const char* x) { s += x; }
  void num(int64_t x) { s += std::to_string(std::max<int64_t>(-1100000000, std::min<int64_t>(1100000000, x))); }
  void bytes(const uint8_t* p, size_t n) {
    s += '[';
    for (size_t i = 0; i < n; i++) { if (i) s += ','; s += std::to_string(p[i]); }
    s += ']';
  }
  void bytes(const Bytes& b) { bytes(b.data(), b.size()); }
  void word(const uint8_t* p, size_t n = 32) { while (n && *p == 0) { p++; n--; } bytes(p, n); }
  void word(const B32& w) { word(w.bytes); }
  void gas(int64_t g) {
    const int64_t mask = (1 << 30) - 1;
    s += '['; num(g >> 60); s += ','; num((g >> 30) & mask); s += ','; num(g & mask); s += ']';
  }
  void str(const char* k, const std::string& v) { s += '"'; s += k; s += "\":\""; s += v; s += '"'; }
  void key(const char* k) { s += '"'; s += k; s += "\":"; }
};

// --- the host --------------------------------------------------------------------
struct World {
  const Case* c = nullptr;
  B32 self{};
  std::map<B32, B32, Less> bal;
  std::set<B32, Less> ex;
  std::map<B32, Slot, Less> slots;
  std::map<B32, B32, Less> trans;
  std::set<B32, Less> wa, ws;
  size_t ncalls = 0;
  bool destructed = false;
  std::vector<std::string> eff;         // since last taken
  std::vector<B32> newa, news;
  std::function<void()> on_call;
  bool violated = false;

  void Reset(const Case& k) {
    c = &k;
    self = Env("self");
    bal.clear(); ex.clear();
    for (auto& [a, t] : k.accts) { bal[a] = t.bal; if (t.ex) ex.insert(a); }
    slots = k.slots; trans = k.trans; wa = k.wa; ws = k.ws;
    ncalls = 0; destructed = k.destructed;
    eff.clear(); newa.clear(); news.clear();
  }
  B32 Env(const char* n) const { auto i = c->env.find(n); return i == c->env.end() ? B32{} : Fixed<B32>(i->second); }
  void Bad(const char* what) { Json j; j.raw("{"); j.str("t", "bad"); j.raw(","); j.str("what", what); j.raw("}"); eff.push_back(j.s); }
  const Acct* Find(const evmc_address* a) const { auto i = c->accts.find(Word(*a)); return i == c->accts.end() ? nullptr : &i->second; }
};

static World* W(evmc_host_context* x) { return reinterpret_cast<World*>(x); }

static B32 AddW(const B32& a, const B32& b) { B32 r{}; int c = 0; for (int i = 31; i >= 0; i--) { int t = a.bytes[i] + b.bytes[i] + c; r.bytes[i] = t; c = t >> 8; } return r; }
static B32 SubW(const B32& a, const B32& b) { B32 r{}; int c = 0; for (int i = 31; i >= 0; i--) { int t = a.bytes[i] - b.bytes[i] - c; r.bytes[i] = t; c = t < 0; } return r; }
static bool Eq(const B32& a, const B32& b) { return std::memcmp(&a, &b, 32) == 0; }

static evmc_storage_status Status(const B32& o, const B32& c, const B32& v) {
  if (Eq(c, v)) return EVMC_STORAGE_ASSIGNED;
  bool oz = IsZero(o), cz = IsZero(c), vz = IsZero(v);
  if (Eq(o, c)) return oz ? EVMC_STORAGE_ADDED : vz ? EVMC_STORAGE_DELETED : EVMC_STORAGE_MODIFIED;
  if (oz) return vz ? EVMC_STORAGE_ADDED_DELETED : EVMC_STORAGE_ASSIGNED;
  if (cz) return Eq(o, v) ? EVMC_STORAGE_DELETED_RESTORED : EVMC_STORAGE_DELETED_ADDED;
  if (vz) return EVMC_STORAGE_MODIFIED_DELETED;
  return Eq(o, v) ? EVMC_STORAGE_MODIFIED_RESTORED : EVMC_STORAGE_ASSIGNED;
}

static evmc_host_interface MakeHost() {
  evmc_host_interface h{};
  h.account_exists = [](evmc_host_context* x, const evmc_address* a) { return W(x)->ex.count(Word(*a)) > 0; };
  h.get_storage = [](evmc_host_context* x, const evmc_address* a, const evmc_bytes32* k) {
    auto w = W(x);
    if (!Eq(Word(*a), w->self)) { w->Bad("get_storage"); return B32{}; }
    auto i = w->slots.find(*k);
    return i == w->slots.end() ? B32{} : i->second.c;
  };
  h.set_storage = [](evmc_host_context* x, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) {
    auto w = W(x);
    if (!Eq(Word(*a), w->self)) { w->Bad("set_storage"); return EVMC_STORAGE_ASSIGNED; }
    Slot& t = w->slots[*k];
    auto st = Status(t.o, t.c, *v);
    t.c = *v;
    Json j; j.raw("{"); j.str("t", "sstore"); j.raw(",\"k\":"); j.word(*k); j.raw(",\"v\":"); j.word(*v); j.raw("}");
    w->eff.push_back(j.s);
    return st;
  };
  h.get_balance = [](evmc_host_context* x, const evmc_address* a) {
    auto w = W(x);
    auto i = w->bal.find(Word(*a));
    return i == w->bal.end() ? B32{} : i->second;
  };
  h.get_code_size = [](evmc_host_context* x, const evmc_address* a) { auto t = W(x)->Find(a); return t ? t->code.size() : 0; };
  h.get_code_hash = [](evmc_host_context* x, const evmc_address* a) { auto t = W(x)->Find(a); return t ? t->hash : B32{}; };
  h.copy_code = [](evmc_host_context* x, const evmc_address* a, size_t off, uint8_t* buf, size_t n) -> size_t {
    auto t = W(x)->Find(a);
    if (!t || off >= t->code.size()) return 0;
    size_t m = std::min(n, t->code.size() - off);
    std::copy_n(t->code.begin() + off, m, buf);
    return m;
  };
  h.selfdestruct = [](evmc_host_context* x, const evmc_address* a, const evmc_address* b) {
    auto w = W(x);
    if (!Eq(Word(*a), w->self)) w->Bad("selfdestruct");
    Json j; j.raw("{"); j.str("t", "sd"); j.raw(",\"to\":"); j.word(Word(*b)); j.raw("}");
    w->eff.push_back(j.s);
    bool first = !w->destructed;
    w->destructed = true;
    return first;
  };
  h.call = [](evmc_host_context* x, const evmc_message* m) {
    auto w = W(x);
    const char* kind = m->kind == EVMC_CALL ? "call" : m->kind == EVMC_CALLCODE ? "callcode" : m->kind == EVMC_DELEGATECALL ? "delegatecall"
                       : m->kind == EVMC_CREATE ? "create" : m->kind == EVMC_CREATE2 ? "create2" : "unknown";
    bool create = m->kind == EVMC_CREATE || m->kind == EVMC_CREATE2;
    Json j;
    j.raw("{"); j.str("t", "call"); j.raw(","); j.str("kind", kind);
    j.raw(",\"static\":"); j.raw(m->flags & EVMC_STATIC ? "true" : "false");
    j.raw(",\"depth\":"); j.num(m->depth); j.raw(",\"gas\":"); j.gas(m->gas);
    j.raw(",\"rcpt\":"); j.word(create ? B32{} : Word(m->recipient)); j.raw(",\"sender\":"); j.word(Word(m->sender));
    j.raw(",\"codeaddr\":"); j.word(create ? B32{} : Word(m->code_address)); j.raw(",\"value\":"); j.word(m->value);
    j.raw(",\"input\":"); j.bytes(m->input_data, m->input_size);
    j.raw(",\"salt\":"); j.word(m->kind == EVMC_CREATE2 ? m->create2_salt : B32{}); j.raw("}");
    w->eff.push_back(j.s);
    if (w->on_call) w->on_call();
    Script none;
    const Script& r = w->ncalls < w->c->calls.size() ? w->c->calls[w->ncalls] : none;
    w->ncalls++;
    evmc_result res{};
    res.status_code = r.st == 0 ? EVMC_SUCCESS : r.st == 1 ? EVMC_REVERT : EVMC_OUT_OF_GAS;
    res.gas_refund = r.ref;
    if (r.st != 2) {
      res.gas_left = std::min(r.gas, m->gas);
      if (!r.out.empty()) {
        auto p = new uint8_t[r.out.size()];
        std::copy(r.out.begin(), r.out.end(), p);
        res.output_data = p;
        res.output_size = r.out.size();
        res.release = [](const evmc_result* q) { delete[] q->output_data; };
      }
    }
    if (r.st == 0) {
      res.create_address = Fixed<evmc_address>(r.addr);
      for (auto& [k, v] : r.writes) { w->slots[k].c = v; if (w->ws.insert(k).second) w->news.push_back(k); }
      if (!IsZero(m->value)) {
        if (m->kind == EVMC_CALL) {
          w->bal[w->self] = SubW(w->bal[w->self], m->value);
          B32 to = Word(m->recipient);
          w->bal[to] = AddW(w->bal[to], m->value);
          w->ex.insert(to);
        } else if (create) {
          w->bal[w->self] = SubW(w->bal[w->self], m->value);
        }
      }
    }
    return res;
  };
  h.get_tx_context = [](evmc_host_context* x) {
    auto w = W(x);
    evmc_tx_context t{};
    t.tx_gas_price = w->Env("gasprice");
    auto adr = [&](const char* n) { return Fixed<evmc_address>(w->c->env.count(n) ? w->c->env.at(n) : Bytes{}); };
    auto num = [&](const char* n) { return Int(w->c->env.count(n) ? w->c->env.at(n) : Bytes{}); };
    t.tx_origin = adr("origin");
    t.block_coinbase = adr("coinbase");
    t.block_number = num("number");
    t.block_timestamp = num("timestamp");
    t.block_gas_limit = num("gaslimit");
    t.block_prev_randao = w->Env("prevrandao");
    t.chain_id = w->Env("chainid");
    t.block_base_fee = w->Env("basefee");
    t.blob_base_fee = w->Env("blobbasefee");
    t.blob_hashes = w->c->blobs.data();
    t.blob_hashes_count = w->c->blobs.size();
    return t;
  };
  h.get_block_hash = [](evmc_host_context*, int64_t n) {
    B32 r{};
    for (int i = 0; i < 32; i++) r.bytes[i] = static_cast<uint8_t>((n & 255) + i * 13 + 1);
    return r;
  };
  h.emit_log = [](evmc_host_context* x, const evmc_address* a, const uint8_t* p, size_t n, const evmc_bytes32* topics, size_t nt) {
    auto w = W(x);
    if (!Eq(Word(*a), w->self)) w->Bad("emit_log");
    Json j; j.raw("{"); j.str("t", "log"); j.raw(",\"data\":"); j.bytes(p, n); j.raw(",\"topics\":[");
    for (size_t i = 0; i < nt; i++) { if (i) j.raw(","); j.word(topics[i]); }
    j.raw("]}");
    w->eff.push_back(j.s);
  };
  h.access_account = [](evmc_host_context* x, const evmc_address* a) {
    auto w = W(x);
    B32 k = Word(*a);
    if (w->wa.count(k)) return EVMC_ACCESS_WARM;
    w->wa.insert(k);
    w->newa.push_back(k);
    return EVMC_ACCESS_COLD;
  };
  h.access_storage = [](evmc_host_context* x, const evmc_address* a, const evmc_bytes32* k) {
    auto w = W(x);
    if (!Eq(Word(*a), w->self)) { w->Bad("access_storage"); return EVMC_ACCESS_COLD; }
    if (w->ws.count(*k)) return EVMC_ACCESS_WARM;
    w->ws.insert(*k);
    w->news.push_back(*k);
    return EVMC_ACCESS_COLD;
  };
  h.get_transient_storage = [](evmc_host_context* x, const evmc_address* a, const evmc_bytes32* k) {
    auto w = W(x);
    if (!Eq(Word(*a), w->self)) w->Bad("get_transient_storage");
    auto i = w->trans.find(*k);
    return i == w->trans.end() ? B32{} : i->second;
  };
  h.set_transient_storage = [](evmc_host_context* x, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) {
    auto w = W(x);
    if (!Eq(Word(*a), w->self)) w->Bad("set_transient_storage");
    w->trans[*k] = *v;
    Json j; j.raw("{"); j.str("t", "tstore"); j.raw(",\"k\":"); j.word(*k); j.raw(",\"v\":"); j.word(*v); j.raw("}");
    w->eff.push_back(j.s);
  };
  return h;
}
static const evmc_host_interface host = MakeHost();

static evmc_revision Rev(int r) {
  static const evmc_revision m[] = {EVMC_ISTANBUL, EVMC_BERLIN, EVMC_LONDON, EVMC_PARIS, EVMC_SHANGHAI, EVMC_CANCUN};
  return m[r];
}
struct Msg {
  evmc_message m{};
  evmc_bytes32 hash{};
  explicit Msg(const Case& c) {
    auto get = [&](const char* n) { return c.env.count(n) ? c.env.at(n) : Bytes{}; };
    m.kind = EVMC_CALL;
    m.flags = c.is_static ? static_cast<uint32_t>(EVMC_STATIC) : 0;
    m.depth = c.depth;
    m.gas = c.gas;
    m.recipient = Fixed<evmc_address>(get("self"));
    m.code_address = m.recipient;
    m.sender = Fixed<evmc_address>(get("sender"));
    m.input_data = c.input.data();
    m.input_size = c.input.size();
    m.value = Fixed<B32>(get("value"));
    if (c.hashmode == 2) hash = Fixed<B32>(c.codehash);
    m.code_hash = c.hashmode == 0 ? nullptr : &hash;
  }
};

static void Effects(Json& j, World& w) {
  j.raw(",\"eff\":[");
  for (size_t i = 0; i < w.eff.size(); i++) { if (i) j.raw(","); j.raw(w.eff[i].c_str()); }
  j.raw("]");
}

// The case being executed, for the report of a crash or hang.
static int progress = -1;
static void Progress(const Case& c) {
  char buf[128] = {};
  std::snprintf(buf, sizeof(buf), "%-120s\n", c.id.c_str());
  if (progress >= 0 && pwrite(progress, buf, 121, 0) < 0) std::abort();
}

// The interface the CT and Go use accepts these codes for failed executions; any
// other is an error of the interpreter (go/interpreter/evmc/evmc_interpreter.go).
static int Code(int code, bool step_reverted = false) {
#ifdef EVM_RUST
  if (step_reverted && code == EVMC_SUCCESS) return EVMC_REVERT;
  if (code >= 3 && code <= 9) return -2;
  if (code == 11) return -2;
#endif
  (void)step_reverted;
  return code;
}

// --- stepwise execution -------------------------------------------------------------
struct Snap {
  evmc_step_status_code st = EVMC_STEP_RUNNING;
  int code = 0;
  uint64_t pc = 0;
  int64_t gas = 0, ref = 0;
  std::vector<B32> stack;
  Bytes mem, ret, out;
};
static Snap Step(evmc_vm_steppable* vm, const Case& c, World& w, const Snap& s, int n) {
  Msg m(c);
  m.m.gas = s.gas;
  std::vector<B32> stack = s.stack;
  Bytes mem = s.mem, ret = s.ret;
  auto r = vm->step_n(vm, &host, reinterpret_cast<evmc_host_context*>(&w), Rev(c.rev), &m.m, c.code.data(), c.code.size(), s.st, s.pc, s.ref,
                      stack.data(), stack.size(), mem.data(), mem.size(), ret.data(), ret.size(), n);
  Snap t;
  t.st = r.step_status_code;
  t.code = Code(r.status_code, t.st == EVMC_STEP_REVERTED);
  t.pc = r.pc;
  t.gas = r.gas_left;
  t.ref = r.gas_refund;
  t.stack.assign(r.stack, r.stack + r.stack_size);
  t.mem.assign(r.memory, r.memory + r.memory_size);
  t.ret.assign(r.last_call_return_data, r.last_call_return_data + r.last_call_return_data_size);
  t.out.assign(r.output_data, r.output_data + r.output_size);
#ifdef EVM_RUST
  if (s.st != EVMC_STEP_RUNNING) t.out = s.out;  // the interface has no place for the output of an ended execution
#endif
  if (r.release) r.release(&r);
  return t;
}
static void Observe(Json& j, const Snap& s, const Snap& t, World& w, int n) {
  static const char* names[] = {"run", "stop", "ret", "rev", "fail"};
  const char* st = t.st == EVMC_STEP_RUNNING ? names[0] : t.st == EVMC_STEP_STOPPED ? names[1] : t.st == EVMC_STEP_RETURNED ? names[2]
                   : t.st == EVMC_STEP_REVERTED ? names[3] : names[4];
  j.raw("{"); j.key("n"); j.num(n); j.raw(","); j.str("st", st);
  j.raw(",\"code\":"); j.num(t.code);
  j.raw(",\"pc\":"); j.num(static_cast<int64_t>(std::min<uint64_t>(t.pc, 1000000000)));
  j.raw(",\"gas\":"); j.gas(t.gas); j.raw(",\"ref\":"); j.num(t.ref);
  size_t keep = 0;
  while (keep < s.stack.size() && keep < t.stack.size() && Eq(s.stack[keep], t.stack[keep])) keep++;
  j.raw(",\"keep\":"); j.num(keep); j.raw(",\"top\":[");
  for (size_t i = keep; i < t.stack.size(); i++) { if (i > keep) j.raw(","); j.word(t.stack[i]); }
  j.raw("],\"msz\":"); j.num(t.mem.size()); j.raw(",\"md\":[");
  bool first = true;
  auto old = [&](size_t i) -> uint8_t { return i < s.mem.size() ? s.mem[i] : 0; };
  for (size_t i = 0; i < t.mem.size();) {
    if (t.mem[i] == old(i)) { i++; continue; }
    size_t e = i;
    for (size_t f = i; f < t.mem.size() && f < e + 16; f++) if (t.mem[f] != old(f)) e = f + 1;
    if (!first) j.raw(",");
    first = false;
    j.raw("["); j.num(i); j.raw(","); j.bytes(t.mem.data() + i, e - i); j.raw("]");
    i = e;
  }
  j.raw("],\"rc\":");
  bool rc = s.ret != t.ret;
  j.raw(rc ? "true" : "false"); j.raw(",\"ret\":"); j.bytes(rc ? t.ret : Bytes{});
  // While an execution goes on, the output repeats the return data of the last call.
  j.raw(",\"out\":"); j.bytes(t.st == EVMC_STEP_RUNNING ? Bytes{} : t.out);
  Effects(j, w);
  j.raw(",\"wa\":["); for (size_t i = 0; i < w.newa.size(); i++) { if (i) j.raw(","); j.word(w.newa[i]); }
  j.raw("],\"ws\":["); for (size_t i = 0; i < w.news.size(); i++) { if (i) j.raw(","); j.word(w.news[i]); }
  j.raw("]}");
  w.eff.clear(); w.newa.clear(); w.news.clear();
}

// --- uninterrupted execution ----------------------------------------------------------
static std::string Execute(evmc_vm* vm, const Case& c, std::function<void()> on_call = nullptr, int depth = -1) {
  Progress(c);
  World w;
  w.Reset(c);
  w.on_call = on_call;
  Msg m(c);
  if (depth >= 0) m.m.depth = depth;
  auto r = vm->execute(vm, &host, reinterpret_cast<evmc_host_context*>(&w), Rev(c.rev), &m.m, c.code.data(), c.code.size());
  Json j;
  j.key("code"); j.num(Code(r.status_code)); j.raw(",\"gas\":"); j.gas(r.gas_left); j.raw(",\"ref\":"); j.num(r.gas_refund);
  j.raw(",\"out\":"); j.bytes(r.output_data, r.output_size);
  Effects(j, w);
  if (r.release) r.release(&r);
  return j.s;
}

struct Config { const char* name; std::vector<const char*> on, off; };
static const std::vector<Config> configs = {
    {"default", {}, {}},
#ifdef EVM_RUST
    {"logging", {"logging"}, {}},
#else
    {"no-analysis", {}, {"analysis_cache"}},
    {"no-sha3", {}, {"sha3_cache"}},
    {"no-caches", {}, {"analysis_cache", "sha3_cache"}},
    {"logging", {"logging"}, {}},
    {"profiling", {"profiling"}, {}},
    {"profiling-external", {"profiling_external"}, {}},
    {"all", {"logging", "profiling", "profiling_external"}, {}},
#endif
};
static const std::vector<size_t> few = configs.size() > 2 ? std::vector<size_t>{0, 3, 5} : std::vector<size_t>{0, 1};
static const std::vector<size_t> shared = configs.size() > 2 ? std::vector<size_t>{0, 2, 3, 1} : std::vector<size_t>{0};
static evmc_vm* Make(const Config& c) {
  evmc_vm* vm = create();
  for (auto o : c.on) if (vm->set_option(vm, o, "true") != EVMC_SET_OPTION_SUCCESS) std::abort();
  for (auto o : c.off) if (vm->set_option(vm, o, "false") != EVMC_SET_OPTION_SUCCESS) std::abort();
  return vm;
}

struct Outcomes {  // distinct results with the tags they were seen under
  std::map<std::string, std::string> res;
  std::vector<std::string> order;
  void Add(const std::string& r, const std::string& tag) {
    auto [i, fresh] = res.try_emplace(r, tag);
    if (fresh) order.push_back(r);
    else if (i->second.size() < 60) i->second += "," + tag;
  }
  void Print(Json& j) {
    j.raw("\"fin\":[");
    for (size_t i = 0; i < order.size(); i++) {
      if (i) j.raw(",");
      j.raw("{"); j.str("tag", res[order[i]]); j.raw(","); j.s += order[i]; j.raw("}");
    }
    j.raw("]");
  }
};

#ifndef EVM_RUST
// --- profiles --------------------------------------------------------------------------
static uint64_t WallNs() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// Appends what a dump says; times are only compared with the time that passed.
static void Dump(Json& j, evmc_vm* vm, const std::string& file, const std::map<std::string, int>& names, uint64_t ticks0, uint64_t ns0, bool whole) {
  unlink(file.c_str());
  evmzero_dump_profile(vm);
  unsigned aux;
  const double ticks = __rdtscp(&aux) - ticks0, ns = WallNs() - ns0;
  std::ifstream in(file);
  std::string line, n;
  uint64_t runs = 0;
  double rt = 0, sum = 0, sumns = 0;
  bool first = true;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string name;
    std::getline(s, name, ',');
    uint64_t a = 0, b = 0, d = 0;
    char x = 0, y = 0;
    if (!(s >> a >> x >> b >> y >> d) || x != ',' || y != ',') continue;
    if (name == "INTERPRETER") { runs = a; rt = b; if (static_cast<double>(d) > 2 * ns + 1e6) sumns = 1e30; continue; }
    auto i = names.find(name);
    n += (first ? "[" : ",[") + std::to_string(i == names.end() ? -2 : i->second) + "," + std::to_string(std::min<uint64_t>(a, 1000000000)) + "]";
    first = false;
    sum += b; sumns += d;
  }
  bool ok = rt <= ticks && sum <= ticks && sumns <= 2 * ns + 1e6 && (!whole || sum <= rt);
  j.raw("{\"t\":\"dump\",\"n\":["); j.s += n; j.raw("],\"runs\":"); j.num(runs); j.raw(",\"timeok\":"); j.raw(ok ? "true" : "false"); j.raw("}");
}

// Plan: "h ID", "opt log|full|ext 0|1", "exec DEPTH CASE NESTED...", "reset", "dump", "end".
static void Profiles(const std::vector<Case>& cases, const char* plan, std::ostream& out, const std::string& file) {
  cpu_set_t one;
  CPU_ZERO(&one);
  CPU_SET(sched_getcpu(), &one);
  sched_setaffinity(0, sizeof(one), &one);  // one clock
  setenv("EVMZERO_PROFILE_FILE", file.c_str(), 1);
  static const std::map<std::string, int> names = {
#define EVMZERO_OPCODE(name, value) {#name, value},
#include "vm/evmzero/opcodes.inc"
  };
  std::ifstream in(plan);
  std::string line, id;
  evmc_vm* vm = nullptr;
  Json j;
  bool first = true, whole = true;
  uint64_t ticks0 = 0, ns0 = 0;
  auto item = [&] { if (!first) j.raw(","); first = false; };
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "h") {
      s >> id;
      unsigned aux;
      ticks0 = __rdtscp(&aux);
      ns0 = WallNs();
      vm = evmc_create_evmzero();
      j = Json{};
      first = whole = true;
    } else if (k == "opt") {
      std::string o; int v;
      s >> o >> v;
      if (vm->set_option(vm, o == "log" ? "logging" : o == "full" ? "profiling" : "profiling_external", v ? "true" : "false") != EVMC_SET_OPTION_SUCCESS) std::abort();
      item(); j.raw("{"); j.str("t", "opt"); j.raw(","); j.str("o", o); j.raw(v ? ",\"v\":true}" : ",\"v\":false}");
    } else if (k == "exec") {
      size_t d, c, n;
      s >> d >> c;
      std::vector<size_t> nested;
      while (s >> n) nested.push_back(n);
      size_t next = 0;
      if (d) whole = false;
      std::function<void(size_t, size_t)> go = [&](size_t i, size_t depth) {
        item(); j.raw("{"); j.str("t", "exec"); j.raw(",\"c\":"); j.num(i + 1); j.raw(",\"d\":"); j.num(depth); j.raw("}");
        Execute(vm, cases[i], [&] { if (next < nested.size()) go(nested[next++], depth + 1); }, depth);
      };
      go(c, d);
    } else if (k == "reset") { evmzero_reset_profiler(vm); item(); j.raw("{\"t\":\"reset\"}"); }
    else if (k == "dump") { item(); Dump(j, vm, file, names, ticks0, ns0, whole); }
    else if (k == "end") {
      vm->destroy(vm);
      out << "{\"id\":\"" << id << "\",\"items\":[" << j.s << "]}\n";
    }
  }
}

#endif

int main(int argc, char** argv) {
  if (argc < 4) return 2;
#ifndef EVM_RUST
  if (std::string(argv[3]) == "profile") {
    const auto cases = Load(argv[1]);
    std::ofstream out(argv[2]);
    progress = open((std::string(argv[2]) + ".case").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    Profiles(cases, argv[4], out, std::string(argv[2]) + ".dump");
    return 0;
  }
#endif
  const auto cases = Load(argv[1]);
  std::ofstream out(argv[2]);
  const std::string mode = argv[3];
  progress = open((std::string(argv[2]) + ".case").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  const int arg = argc > 4 ? std::atoi(argv[4]) : 0;
  const char* seed = std::getenv("VERIF_SEED");
  std::mt19937_64 rnd(seed ? std::strtoull(seed, nullptr, 10) : 1);

  std::vector<Outcomes> fin(cases.size());
  std::vector<std::vector<std::pair<std::string, std::string>>> runs(cases.size());  // tag, observations

  if (mode == "steps" || mode == "batches") {
    auto vm = create_steppable();
    auto plain = Make(configs[0]);
    int variants = mode == "steps" ? 1 : arg;
    for (size_t i = 0; i < cases.size(); i++) {
      const Case& c = cases[i];
      if (c.stack.empty()) fin[i].Add(Execute(plain, c), "default");
      for (int v = 0; v < variants; v++) {
        Progress(c);
        World w;
        w.Reset(c);
        Snap s;
        s.gas = c.gas;
        s.stack = c.stack;
        Json j;
        j.raw("[");
        size_t done = 0, extra = 0, count = 0;
        while (count < c.limit) {
          int n = mode == "steps" && count == 0 && c.skip ? static_cast<int>(c.skip) : 1;
          if (mode == "batches") {
            uint64_t x = rnd();
            n = v == 0 ? (count == 0 ? 1000000 : 1) : x % 5 == 0 ? 0 : x % 5 == 1 ? 1 + (x >> 8) % 40 : 1 + (x >> 8) % 4;
          }
          Snap t = Step(vm, c, w, s, n);
          if (done++) j.raw(",");
          Observe(j, s, t, w, n);
          s = t;
          count += n ? n : 1;
          // an ended execution is resumed twice in batch mode
          if (s.st != EVMC_STEP_RUNNING && (mode == "steps" || s.st == EVMC_STEP_FAILED || ++extra > 2)) break;
        }
        j.raw("]");
        runs[i].push_back({mode == "steps" ? "steps" : "batches" + std::to_string(v), j.s});
      }
    }
  } else if (mode == "exec") {
    // Every configuration runs all cases, in different orders, on one instance.
    for (size_t k = 0; k < configs.size(); k++) {
      auto vm = Make(configs[k]);
      for (int round = 0; round < 2; round++)
        for (size_t x = 0; x < cases.size(); x++) {
          size_t i = round == 0 ? x : (x * 7919 + 13 * k) % cases.size();
          fin[i].Add(Execute(vm, cases[i]), std::string(configs[k].name) + (round ? "/again" : ""));
        }
      vm->destroy(vm);
    }
  } else if (mode == "nested") {
    for (size_t k : few) {
      auto vm = Make(configs[k]);
      int depth = 0;
      std::function<void(size_t)> run = [&](size_t i) {
        depth++;
        auto r = Execute(vm, cases[i], [&] { if (depth < 4) run(rnd() % cases.size()); });
        depth--;
        fin[i].Add(r, std::string(configs[k].name) + "/depth" + std::to_string(depth));
      };
      for (size_t i = 0; i < cases.size(); i++) run(i);
      vm->destroy(vm);
    }
  } else if (mode == "threads") {
    for (size_t k : shared) {
      auto vm = Make(configs[k]);
      std::vector<std::vector<std::string>> res(arg, std::vector<std::string>(cases.size()));
      std::vector<std::thread> ts;
      std::atomic<int> ready{0};
      for (int t = 0; t < arg; t++)
        ts.emplace_back([&, t] {
          ready++;
          while (ready < arg) std::this_thread::yield();
          for (size_t x = 0; x < cases.size(); x++) {
            size_t i = (x + (t / 2) * cases.size() / (arg / 2 + 1)) % cases.size();
            res[t][i] = Execute(vm, cases[i]);
          }
        });
      for (auto& t : ts) t.join();
      for (int t = 0; t < arg; t++)
        for (size_t i = 0; i < cases.size(); i++) fin[i].Add(res[t][i], std::string(configs[k].name) + "/thread" + std::to_string(t));
      vm->destroy(vm);
    }
  } else {
    return 2;
  }

  for (size_t i = 0; i < cases.size(); i++) {
    if (runs[i].empty()) runs[i].push_back({mode, "[]"});
    for (auto& [tag, e] : runs[i]) {
      Json j;
      j.raw("{"); j.key("c"); j.num(i + 1); j.raw(","); j.str("tag", tag); j.raw(",\"e\":"); j.s += e; j.raw(",");
      fin[i].Print(j);
      j.raw("}\n");
      out << j.s;
    }
  }
  return 0;
}
