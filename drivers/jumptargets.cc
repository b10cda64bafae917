// Runs the jump-target analysis on codes given in hex, one per line, each in a
// heap block of exactly its size, and prints code and flags as JSON.
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <string>
#include "vm/evmzero/opcodes.h"
using namespace tosca::evmzero;
static int h(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
int main() {
  std::string l;
  while (std::getline(std::cin, l)) {
    size_t n = l.size() / 2;
    std::unique_ptr<uint8_t[]> p(new uint8_t[n]);
    for (size_t i = 0; i < n; i++) p[i] = h(l[2 * i]) * 16 + h(l[2 * i + 1]);
    std::unique_ptr<uint8_t[]> before(new uint8_t[n]);
    if (n) memcpy(before.get(), p.get(), n);
    auto r = op::CalculateValidJumpTargets({p.get(), n});
    bool same = n == 0 || memcmp(before.get(), p.get(), n) == 0;
    std::string s = "{\"code\":[";
    for (size_t i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(p[i]);
    s += "],\"flags\":[";
    for (size_t i = 0; i < r.size(); i++) s += std::string(i ? "," : "") + (r[i] ? "1" : "0");
    std::cout << s << "],\"same\":" << (same ? "true" : "false") << "}\n";
  }
}
