// Drives the real profiler with events (text file) under an artificial clock
// and records its profiles.
//   profiler EVENTS OUT DUMPFILE
// A history: "h MODE ID", events "enter D DT", "pre OP DT", ..., "end".
#include <x86intrin.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

static unsigned long long vclock = 1000;
static inline unsigned long long VClock(unsigned*) { return vclock; }
#define __rdtscp VClock
#define __rdtsc() VClock(nullptr)
#include "vm/evmzero/profiler.h"

using namespace tosca::evmzero;

struct Ev { std::string e; int x; long dt; };

// What a dump reports: byte value -> calls, ticks; -1 for the interpreter.
static std::vector<std::pair<int, std::pair<uint64_t, uint64_t>>> ParseDump(const char* file) {
  static std::map<std::string, int> names;
  if (names.empty()) {
    for (int i = 255; i >= 0; i--)
      if (op::IsUsedOpCode(static_cast<op::OpCode>(i))) names[op::ToString(static_cast<op::OpCode>(i))] = i;
    names["INTERPRETER"] = -1;
  }
  std::vector<std::pair<int, std::pair<uint64_t, uint64_t>>> res;
  std::ifstream in(file);
  std::string line;
  while (std::getline(in, line)) {
    auto c = line.find(',');
    if (c == std::string::npos) continue;
    auto n = names.find(line.substr(0, c));
    if (n == names.end()) { if (line.substr(0, c) != "opcode" && line.find(':') == std::string::npos) res.push_back({-2, {}}); continue; }
    std::istringstream s(line.substr(c + 1));
    uint64_t a = 0, b = 0; char x;
    s >> a >> x >> b;
    res.push_back({n->second, {a, b}});
  }
  return res;
}

template <ProfilerMode M>
static void Run(const std::string& mode, const std::string& id, const std::vector<Ev>& evs, std::ostream& out, const char* dump) {
  auto p = std::make_unique<Profiler<M>>();
  std::unique_ptr<Profile<M>> saved = std::make_unique<Profile<M>>(p->Collect());
  std::vector<std::unique_ptr<evmc_message>> stack;
  std::ostringstream ev, obs;
  bool first = true;
  std::string listed;
  for (size_t i = 0; i < evs.size(); i++) {
    const Ev& x = evs[i];
    vclock += x.dt;
    ev << (i ? "," : "") << "{\"e\":\"" << x.e << "\",\"o\":" << (x.e == "pre" || x.e == "post" ? x.x : 0) << ",\"d\":" << (x.e == "enter" ? x.x : 0) << ",\"dt\":" << x.dt << "}";
    if (x.e == "enter") {
      auto m = std::make_unique<evmc_message>();
      m->depth = x.x;
      stack.push_back(std::move(m));
      p->PreRun(InterpreterArgs{.message = stack.back().get()});
    } else if (x.e == "leave") {
      p->PostRun(InterpreterArgs{.message = stack.back().get()});
      stack.pop_back();
    } else if (x.e == "pre" || x.e == "post") {
      internal::Context ctx{};
      ctx.message = stack.back().get();
      if (x.e == "pre") p->PreInstruction(static_cast<op::OpCode>(x.x), ctx);
      else p->PostInstruction(static_cast<op::OpCode>(x.x), ctx);
    } else if (x.e == "reset") p->Reset();
    else if (x.e == "save") saved = std::make_unique<Profile<M>>(p->Collect());
    else if (x.e == "merge") p->Merge(*saved);
    else if (x.e == "load") p = std::make_unique<Profiler<M>>(*saved);
    else std::abort();
    if (!stack.empty()) continue;
    // Both what the profile returns and what its dump says, if they differ.
    const auto& r = p->Collect();
    auto print = [&](auto num, uint64_t runs, uint64_t rt) {
      obs << (first ? "" : ",") << "{\"i\":" << i + 1 << ",\"n\":[";
      first = false;
      auto cap = [](uint64_t v) { return v > 2000000000 ? uint64_t{2000000000} : v; };
      bool f = true;
      for (int o = 0; o < 256; o++) if (auto v = num(o).first) { obs << (f ? "" : ",") << "[" << o << "," << cap(v) << "]"; f = false; }
      obs << "],\"t\":[";
      f = true;
      for (int o = 0; o < 256; o++) if (auto v = num(o).second) { obs << (f ? "" : ",") << "[" << o << "," << cap(v) << "]"; f = false; }
      obs << "],\"runs\":" << cap(runs) << ",\"rt\":" << cap(rt) << "}";
    };
    bool last = i + 1 == evs.size();
    if (!last) {
      print([&](int o) { auto s = r.GetInstructionStats(static_cast<op::OpCode>(o)); return std::pair<uint64_t, uint64_t>(s.num_calls, s.total_ticks); },
            r.GetInterpreterStats().num_calls, r.GetInterpreterStats().total_ticks);
    } else {
      // The last observation is that of the dump.
      std::remove(dump);
      r.Dump();
      std::map<int, std::pair<uint64_t, uint64_t>> d;
      for (auto& [o, v] : ParseDump(dump)) {
        d[o] = v;
        if (o != -1) listed += (listed.empty() ? "" : ",") + std::to_string(o);
      }
      print([&](int o) { return d.count(o) ? d[o] : std::pair<uint64_t, uint64_t>(0, 0); }, d[-1].first, d[-1].second);
    }
  }
  out << "{\"id\":\"" << id << "\",\"mode\":\"" << mode << "\",\"ev\":[" << ev.str() << "],\"obs\":[" << obs.str() << "],\"listed\":[" << listed << "]}\n";
}

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  setenv("EVMZERO_PROFILE_FILE", argv[3], 1);
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line, mode, id;
  std::vector<Ev> evs;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    std::string k;
    s >> k;
    if (k == "h") { s >> mode >> id; evs.clear(); }
    else if (k == "end") {
      if (mode == "full") Run<ProfilerMode::kFull>(mode, id, evs, out, argv[3]);
      else Run<ProfilerMode::kExternal>(mode, id, evs, out, argv[3]);
    } else { Ev e; e.e = k; s >> e.x >> e.dt; evs.push_back(e); }
  }
  return 0;
}
