// Prints what cpp/vm/evmzero/opcodes.h says about every byte value.
#include <cstdio>
#include "vm/evmzero/opcodes.h"
using namespace tosca::evmzero;
#define B(x) ((x) ? "true" : "false")
#define E(n) printf("{\"kind\":\"enum\",\"enum\":\"%s\",\"value\":%d}\n", #n, (int)op::n);
int main() {
  // Both as constant expressions and at run time.
  static_assert(op::IsUsedOpCode(op::STOP) == op::IsUsedOpCode(static_cast<op::OpCode>(0)));
  for (int i = 0; i < 256; i++) {
    auto o = static_cast<op::OpCode>(i);
    printf("{\"kind\":\"cpp\",\"op\":%d,\"name\":\"%s\",\"used\":%s,\"call\":%s,\"ext\":%s}\n", i, op::ToString(o), B(op::IsUsedOpCode(o)), B(op::IsCallOpCode(o)), B(op::IsExternalOpCode(o)));
  }
  printf("{\"kind\":\"const\",\"num_used\":%zu,\"num_unused\":%zu,\"num_all\":%zu}\n", op::kNumOpCodes, op::kNumUnusedOpCodes, op::kNumUsedAndUnusedOpCodes);
ENUMS
}
