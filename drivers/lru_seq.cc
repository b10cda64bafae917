// Replays the state graph of spec/LruModel.tla into the real LruCache and
// records long histories of it for spec/LruTrace.tla.
//
//   lru_seq replay CAP VARIANT GRAPH    W-method: for every edge of the graph,
//       drive a fresh cache to its source, take the edge, and then identify the
//       reached state by suffixes that observe presence, value and age of every key.
//   lru_seq trace CAP VARIANT SEED N KEYS   prints one history as JSON.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "common/lru_cache.h"

using namespace tosca;
using std::string;

struct ConstHash { template <class T> size_t operator()(const T&) const { return 7; } };
struct Mod2Hash { size_t operator()(int k) const { return k & 1; } };

// Keys equal up to letter case, to exercise custom equality.
struct CiHash { size_t operator()(const string& s) const { size_t h = 0; for (char c : s) h = h * 31 + (c | 32); return h; } };
struct CiEq { bool operator()(const string& a, const string& b) const {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if ((a[i] | 32) != (b[i] | 32)) return false;
  return true; } };

struct Result { int r; int mk; };

struct Iface {
  virtual ~Iface() = default;
  virtual int get(int k) = 0;
  virtual int ins(int k, int v) = 0;
  virtual Result goi(int k, int v) = 0;
  virtual void clr() = 0;
  virtual size_t max() = 0;
};

template <class K> K MakeKey(int k, unsigned n);
template <> inline int MakeKey<int>(int k, unsigned) { return k; }
template <> inline string MakeKey<string>(int k, unsigned n) {
  string s = "a long key that does not fit into the small buffer " + std::to_string(k);
  for (size_t i = 0; i < s.size(); i++) if (n >> (i % 5) & 1) s[i] = toupper(s[i]);
  return s;
}
template <class V> V MakeVal(int v);
template <> inline int MakeVal<int>(int v) { return v; }
template <> inline string MakeVal<string>(int v) { return "value " + std::to_string(v); }
template <> inline std::shared_ptr<int> MakeVal<std::shared_ptr<int>>(int v) { return std::make_shared<int>(v); }
inline int ValInt(int v) { return v; }
inline int ValInt(const string& s) { return s.size() < 7 ? -2 : atoi(s.c_str() + 6); }
inline int ValInt(const std::shared_ptr<int>& p) { return p ? *p : -2; }

template <class K, class V, size_t Cap, class H, class Eq>
struct Impl : Iface {
  LruCache<K, V, Cap, H, Eq> c;
  unsigned n = 0;
  unsigned Next() { return n = n * 5 + 3; }
  int get(int k) override { auto r = c.Get(MakeKey<K>(k, Next())); return r ? ValInt(*r) : -1; }
  int ins(int k, int v) override { return ValInt(c.InsertOrAssign(MakeKey<K>(k, Next()), MakeVal<V>(v))); }
  Result goi(int k, int v) override {
    int mk = 0;
    int r = ValInt(c.GetOrInsert(MakeKey<K>(k, Next()), [&] { mk++; return MakeVal<V>(v); }));
    return {r, mk};
  }
  void clr() override { c.Clear(); }
  size_t max() override { return c.GetMaxSize(); }
};

// The parts are compiled separately, to save time.
template <size_t Cap, int Part> std::unique_ptr<Iface> Make(int);
#define V0 Impl<int, int, CAP, std::hash<int>, std::equal_to<int>>
#define V1 Impl<int, string, CAP, ConstHash, std::equal_to<int>>
#define V2 Impl<string, string, CAP, CiHash, CiEq>
#define V3 Impl<int, std::shared_ptr<int>, CAP, Mod2Hash, std::equal_to<int>>
#define V4 Impl<string, int, CAP, ConstHash, CiEq>
#define EXPORT(cap, v) Iface* Make_##cap##_##v() { constexpr size_t CAP = cap; return new V##v; }
#define IMPORT(cap, v) Iface* Make_##cap##_##v();
#define PART1(X) X(2, 0) X(2, 1) X(3, 0) X(4, 0)
#define PART2(X) X(2, 2) X(3, 2) X(16, 2)
#define PART3(X) X(2, 3) X(3, 3) X(33, 3) X(100, 0)
#define PART4(X) X(2, 4) X(3, 4) X(64, 4)
#define PART5(X) X(3, 1) X(4, 1) X(7, 1)
#if PART == 1
PART1(EXPORT)
#elif PART == 2
PART2(EXPORT)
#elif PART == 3
PART3(EXPORT)
#elif PART == 4
PART4(EXPORT)
#elif PART == 5
PART5(EXPORT)
#else
PART1(IMPORT) PART2(IMPORT) PART3(IMPORT) PART4(IMPORT) PART5(IMPORT)
std::unique_ptr<Iface> Make(int cap, int variant) {
#define CHOOSE(c, v) if (cap == c && variant == v) return std::unique_ptr<Iface>(Make_##c##_##v());
  PART1(CHOOSE) PART2(CHOOSE) PART3(CHOOSE) PART4(CHOOSE) PART5(CHOOSE)
  abort();
}

struct Edge { char op; int k, v, r, next; };
struct Graph {
  std::vector<std::vector<Edge>> out;
  std::vector<std::vector<int>> keys;  // keys held by a state, most recent first
};

struct Fail : std::exception {};
string trail;

void Take(Iface& c, const Edge& e) {
  Result r{0, 0};
  switch (e.op) {
    case 'g': r = {c.get(e.k), 0}; break;
    case 'i': r = {c.ins(e.k, e.v), 0}; break;
    case 'o': r = c.goi(e.k, e.v); break;
    case 'c': c.clr(); r = {-3, 0}; break;
  }
  std::ostringstream s;
  s << e.op << " k=" << e.k << " v=" << e.v << " -> " << r.r << "; ";
  trail += s.str();
  if (r.r != e.r) { std::cout << "MISMATCH expected " << e.r << " after: " << trail << "\n"; throw Fail(); }
}

int Replay(int cap, int variant, const char* file) {
  Graph g;
  std::ifstream in(file);
  int ns, ne;
  in >> ns >> ne;
  g.out.resize(ns); g.keys.resize(ns);
  for (int i = 0; i < ns; i++) { int n; in >> n; g.keys[i].resize(n); for (auto& k : g.keys[i]) in >> k; }
  std::set<int> allkeys;
  for (int i = 0; i < ne; i++) {
    int s; Edge e;
    in >> s >> e.op >> e.k >> e.v >> e.r >> e.next;
    if (e.op != 'c') allkeys.insert(e.k);
    g.out[s].push_back(e);
  }
  // Breadth-first paths from state 0.
  std::vector<std::vector<const Edge*>> path(ns);
  std::vector<char> seen(ns);
  std::vector<int> q{0};
  seen[0] = 1;
  for (size_t h = 0; h < q.size(); h++)
    for (auto& e : g.out[q[h]])
      if (!seen[e.next]) { seen[e.next] = 1; path[e.next] = path[q[h]]; path[e.next].push_back(&e); q.push_back(e.next); }
  long tests = 0, ops = 0;
  int bad = 0;
  auto find = [&](int s, char op, int k) -> const Edge* {
    for (auto& e : g.out[s]) if (e.op == op && e.k == k) return &e;
    abort();
  };
  for (int s = 0; s < ns && bad < 5; s++)
    for (auto& e : g.out[s])
      for (int k : allkeys)
        for (int age = 0; age <= cap && bad < 5; age++)
        for (int used = 0; used < 2; used++) {  // also on a cache that was filled and cleared
          trail.clear();
          tests++;
          try {
            auto c = Make(cap, variant);
            if (c->max() != (size_t)cap) { std::cout << "MISMATCH maximum size\n"; bad++; continue; }
            if (used) {
              int before = (tests * 7919) % ns;
              for (auto* p : path[before]) Take(*c, *p), ops++;
              for (auto& x : g.out[before]) if (x.op == 'c') { Take(*c, x); break; }
            }
            for (auto* p : path[s]) Take(*c, *p), ops++;
            Take(*c, e);
            int st = e.next;
            // Age the cache by inserting keys it does not hold, then observe k.
            for (int i = 0; i < age; i++) {
              int fresh = -1;
              for (int x : allkeys) {
                bool held = x == k;
                for (int y : g.keys[st]) held |= x == y;
                if (!held) { fresh = x; break; }
              }
              if (fresh < 0) break;
              auto* ie = find(st, i & 1 ? 'o' : 'i', fresh);
              Take(*c, *ie); ops++;
              st = ie->next;
            }
            auto* ge = find(st, 'g', k);
            Take(*c, *ge); ops += 2;
          } catch (Fail&) { bad++; }
        }
  std::cout << "REPLAYED " << tests << " tests " << ops << " operations " << q.size() << " states\n";
  return bad ? 1 : 0;
}

int Trace(int cap, int variant, unsigned seed, int n, int keys) {
  std::mt19937 rng(seed);
  auto c = Make(cap, variant);
  std::cout << "{\"id\":\"cap" << cap << "/variant" << variant << "/seed" << seed << "\",\"cap\":" << cap << ",\"ops\":[";
  int phase = 0;
  for (int i = 0; i < n; i++) {
    if (rng() % 50 == 0) phase = rng() % 4;
    // Phases favour a working set around the capacity, scans, or updates.
    int k = phase == 0 ? rng() % keys : phase == 1 ? rng() % (cap + 1) : phase == 2 ? i % keys : rng() % (cap > 2 ? cap - 1 : 2);
    int v = rng() % 100000;
    int op = rng() % 100;
    Result r{0, 0};
    const char* name;
    if (op < 35) { name = "get"; r = {c->get(k), 0}; }
    else if (op < 65) { name = "ins"; r = {c->ins(k, v), 0}; }
    else if (op < 98 || (int)(rng() % (1 + cap / 8))) { name = "goi"; r = c->goi(k, v); }
    else { name = "clr"; c->clr(); }
    std::cout << (i ? "," : "") << "{\"op\":\"" << name << "\",\"k\":" << k << ",\"v\":" << v << ",\"r\":" << r.r << ",\"mk\":" << r.mk << "}";
  }
  // Final probe: in random order, then everything is pushed out again.
  for (int k = 0; k < keys; k++) {
    int r = c->get(k);
    std::cout << ",{\"op\":\"get\",\"k\":" << k << ",\"v\":0,\"r\":" << r << ",\"mk\":0}";
  }
  std::cout << "]}\n";
  return 0;
}

int main(int argc, char** argv) {
  string mode = argv[1];
  int cap = atoi(argv[2]), variant = atoi(argv[3]);
  if (mode == "replay") return Replay(cap, variant, argv[4]);
  return Trace(cap, variant, atoi(argv[4]), atoi(argv[5]), atoi(argv[6]));
}
#endif
