#include "shim.h"
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include "_cgo_export.h"

void* shim_load(const char* file, const char* symbol, const char** error) {
  void* lib = dlopen(file, RTLD_LAZY);
  void* (*create)(void) = lib ? (void* (*)(void))dlsym(lib, symbol) : 0;
  if (!create) {
    *error = dlerror();
    return 0;
  }
  return create();
}

#define C ((uintptr_t)c)
typedef struct evmc_host_context H;
static bool account_exists(H* c, const evmc_address* a) { return shimAccountExists(C, (void*)a); }
static evmc_bytes32 get_storage(H* c, const evmc_address* a, const evmc_bytes32* k) { evmc_bytes32 r; shimGetStorage(C, (void*)a, (void*)k, &r); return r; }
static enum evmc_storage_status set_storage(H* c, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { return shimSetStorage(C, (void*)a, (void*)k, (void*)v); }
static evmc_uint256be get_balance(H* c, const evmc_address* a) { evmc_bytes32 r; shimGetBalance(C, (void*)a, &r); return r; }
static size_t get_code_size(H* c, const evmc_address* a) { return shimGetCodeSize(C, (void*)a); }
static evmc_bytes32 get_code_hash(H* c, const evmc_address* a) { evmc_bytes32 r; shimGetCodeHash(C, (void*)a, &r); return r; }
static size_t copy_code(H* c, const evmc_address* a, size_t offset, uint8_t* buffer, size_t size) { return shimCopyCode(C, (void*)a, offset, buffer, size); }
static bool selfdestruct(H* c, const evmc_address* a, const evmc_address* b) { return shimSelfdestruct(C, (void*)a, (void*)b); }
static struct evmc_result call(H* c, const struct evmc_message* m) { struct evmc_result r; shimCall(C, (void*)m, &r); return r; }
static struct evmc_tx_context get_tx_context(H* c) { struct evmc_tx_context r; memset(&r, 0, sizeof r); shimGetTxContext(C, &r); return r; }
static evmc_bytes32 get_block_hash(H* c, int64_t n) { evmc_bytes32 r; shimGetBlockHash(C, n, &r); return r; }
static void emit_log(H* c, const evmc_address* a, const uint8_t* data, size_t size, const evmc_bytes32 topics[], size_t n) { shimEmitLog(C, (void*)a, (void*)data, size, (void*)topics, n); }
static enum evmc_access_status access_account(H* c, const evmc_address* a) { return shimAccessAccount(C, (void*)a); }
static enum evmc_access_status access_storage(H* c, const evmc_address* a, const evmc_bytes32* k) { return shimAccessStorage(C, (void*)a, (void*)k); }
static evmc_bytes32 get_transient_storage(H* c, const evmc_address* a, const evmc_bytes32* k) { evmc_bytes32 r; shimGetTransientStorage(C, (void*)a, (void*)k, &r); return r; }
static void set_transient_storage(H* c, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { shimSetTransientStorage(C, (void*)a, (void*)k, (void*)v); }

static const struct evmc_host_interface host = {account_exists, get_storage, set_storage, get_balance, get_code_size, get_code_hash, copy_code, selfdestruct, call, get_tx_context,
                                                get_block_hash, emit_log, access_account, access_storage, get_transient_storage, set_transient_storage};

struct evmc_result shim_execute(struct evmc_vm* vm, uintptr_t ctx, int rev, const struct evmc_message* msg, const uint8_t* code, size_t size) {
  return vm->execute(vm, &host, (H*)ctx, (enum evmc_revision)rev, msg, code, size);
}
struct evmc_step_result shim_step_n(struct evmc_vm_steppable* vm, uintptr_t ctx, int rev, const struct evmc_message* msg, const uint8_t* code, size_t size,
                                    int status, uint64_t pc, int64_t refunds, uint8_t* stack, size_t words, uint8_t* memory, size_t msize, uint8_t* ret, size_t rsize, int32_t steps) {
  return vm->step_n(vm, &host, (H*)ctx, (enum evmc_revision)rev, msg, code, size, (enum evmc_step_status_code)status, pc, refunds, (evmc_uint256be*)stack, words, memory, msize, ret, rsize, steps);
}
int shim_set_option(struct evmc_vm* vm, const char* name, const char* value) { return vm->set_option ? vm->set_option(vm, name, value) : 1; }
void shim_destroy(struct evmc_vm* vm) { vm->destroy(vm); }
void shim_destroy_steppable(struct evmc_vm_steppable* vm) { vm->destroy(vm); }
void shim_release(struct evmc_result* r) { if (r->release) r->release(r); }
void shim_release_step(struct evmc_step_result* r) { if (r->release) r->release(r); }
static void release(const struct evmc_result* r) { free((void*)r->output_data); }
struct evmc_result shim_make_result(int status, int64_t gas, int64_t refund, const uint8_t* data, size_t size, evmc_address created) {
  struct evmc_result r;
  memset(&r, 0, sizeof r);
  r.status_code = (enum evmc_status_code)status;
  r.gas_left = gas;
  r.gas_refund = refund;
  if (size) {
    uint8_t* copy = malloc(size);
    memcpy(copy, data, size);
    r.output_data = copy;
    r.output_size = size;
    r.release = release;
  }
  r.create_address = created;
  return r;
}
