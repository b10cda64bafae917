#pragma once
#include <evmc/evmc.h>

// Loads evmc_create_<name> or evmc_create_steppable_<name> from a library.
void* shim_load(const char* file, const char* symbol, const char** error);
struct evmc_result shim_execute(struct evmc_vm* vm, uintptr_t ctx, int rev, const struct evmc_message* msg, const uint8_t* code, size_t size);
struct evmc_step_result shim_step_n(struct evmc_vm_steppable* vm, uintptr_t ctx, int rev, const struct evmc_message* msg, const uint8_t* code, size_t size,
                                    int status, uint64_t pc, int64_t refunds, uint8_t* stack, size_t words, uint8_t* memory, size_t msize, uint8_t* ret, size_t rsize, int32_t steps);
int shim_set_option(struct evmc_vm* vm, const char* name, const char* value);
void shim_destroy(struct evmc_vm* vm);
void shim_destroy_steppable(struct evmc_vm_steppable* vm);
void shim_release(struct evmc_result* r);
void shim_release_step(struct evmc_step_result* r);
struct evmc_result shim_make_result(int status, int64_t gas, int64_t refund, const uint8_t* data, size_t size, evmc_address created);
