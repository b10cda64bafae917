package evmc

/*
#include <stdlib.h>
#include "shim.h"
*/
import "C"

import (
	"runtime/cgo"
	"unsafe"
)

func host(id C.uintptr_t) *hostCall { return cgo.Handle(id).Value().(*hostCall) }

// guard keeps panics of the context out of the library; they are raised again when it has returned.
func guard(h *hostCall) {
	if p := recover(); p != nil && h.panic == nil {
		h.panic = p
	}
}

func adr(p unsafe.Pointer) Address { return *(*Address)(p) }
func hsh(p unsafe.Pointer) Hash    { return *(*Hash)(p) }

//export shimAccountExists
func shimAccountExists(id C.uintptr_t, a unsafe.Pointer) (r C.int) {
	h := host(id)
	defer guard(h)
	if h.ctx.AccountExists(adr(a)) {
		return 1
	}
	return 0
}

//export shimGetStorage
func shimGetStorage(id C.uintptr_t, a, k unsafe.Pointer, r *C.evmc_bytes32) {
	h := host(id)
	defer guard(h)
	*r = toHash(h.ctx.GetStorage(adr(a), hsh(k)))
}

//export shimSetStorage
func shimSetStorage(id C.uintptr_t, a, k, v unsafe.Pointer) (r C.int) {
	h := host(id)
	defer guard(h)
	return C.int(h.ctx.SetStorage(adr(a), hsh(k), hsh(v)))
}

//export shimGetBalance
func shimGetBalance(id C.uintptr_t, a unsafe.Pointer, r *C.evmc_bytes32) {
	h := host(id)
	defer guard(h)
	*r = toHash(h.ctx.GetBalance(adr(a)))
}

//export shimGetCodeSize
func shimGetCodeSize(id C.uintptr_t, a unsafe.Pointer) (r C.size_t) {
	h := host(id)
	defer guard(h)
	return C.size_t(h.ctx.GetCodeSize(adr(a)))
}

//export shimGetCodeHash
func shimGetCodeHash(id C.uintptr_t, a unsafe.Pointer, r *C.evmc_bytes32) {
	h := host(id)
	defer guard(h)
	*r = toHash(h.ctx.GetCodeHash(adr(a)))
}

//export shimCopyCode
func shimCopyCode(id C.uintptr_t, a unsafe.Pointer, offset C.size_t, buffer *C.uint8_t, size C.size_t) (r C.size_t) {
	h := host(id)
	defer guard(h)
	code := h.ctx.GetCode(adr(a))
	if uint64(offset) >= uint64(len(code)) {
		return 0
	}
	return C.size_t(copy(unsafe.Slice((*byte)(buffer), int(size)), code[offset:]))
}

//export shimSelfdestruct
func shimSelfdestruct(id C.uintptr_t, a, b unsafe.Pointer) (r C.int) {
	h := host(id)
	defer guard(h)
	if h.ctx.Selfdestruct(adr(a), adr(b)) {
		return 1
	}
	return 0
}

//export shimCall
func shimCall(id C.uintptr_t, msg unsafe.Pointer, r *C.struct_evmc_result) {
	h := host(id)
	defer guard(h)
	m := (*C.struct_evmc_message)(msg)
	input := C.GoBytes(unsafe.Pointer(m.input_data), C.int(m.input_size))
	*r = C.struct_evmc_result{status_code: C.EVMC_INTERNAL_ERROR}
	output, left, refund, created, err := h.ctx.Call(CallKind(m.kind), adr(unsafe.Pointer(&m.recipient)), adr(unsafe.Pointer(&m.sender)), hsh(unsafe.Pointer(&m.value)), input, int64(m.gas), int(m.depth),
		m.flags != 0, hsh(unsafe.Pointer(&m.create2_salt)), adr(unsafe.Pointer(&m.code_address)))
	status := C.int(C.EVMC_SUCCESS)
	if err != nil {
		status = C.int(err.(Error))
	}
	var data *C.uint8_t
	if len(output) > 0 {
		data = (*C.uint8_t)(&output[0])
	}
	*r = C.shim_make_result(status, C.int64_t(left), C.int64_t(refund), data, C.size_t(len(output)), toAddress(created))
}

//export shimGetTxContext
func shimGetTxContext(id C.uintptr_t, r *C.struct_evmc_tx_context) {
	h := host(id)
	defer guard(h)
	t := h.ctx.GetTxContext()
	r.tx_gas_price, r.tx_origin, r.block_coinbase = toHash(t.GasPrice), toAddress(t.Origin), toAddress(t.Coinbase)
	r.block_number, r.block_timestamp, r.block_gas_limit = C.int64_t(t.Number), C.int64_t(t.Timestamp), C.int64_t(t.GasLimit)
	r.block_prev_randao, r.chain_id, r.block_base_fee, r.blob_base_fee = toHash(t.PrevRandao), toHash(t.ChainID), toHash(t.BaseFee), toHash(t.BlobBaseFee)
	if n := len(t.BlobHashes); n > 0 {
		if h.blobs == nil {
			h.blobs = C.malloc(C.size_t(32 * n))
		}
		copy(unsafe.Slice((*Hash)(h.blobs), n), t.BlobHashes)
		r.blob_hashes, r.blob_hashes_count = (*C.evmc_bytes32)(h.blobs), C.size_t(n)
	}
}

//export shimGetBlockHash
func shimGetBlockHash(id C.uintptr_t, n C.int64_t, r *C.evmc_bytes32) {
	h := host(id)
	defer guard(h)
	*r = toHash(h.ctx.GetBlockHash(int64(n)))
}

//export shimEmitLog
func shimEmitLog(id C.uintptr_t, a, data unsafe.Pointer, size C.size_t, topics unsafe.Pointer, n C.size_t) {
	h := host(id)
	defer guard(h)
	t := make([]Hash, int(n))
	if n > 0 {
		copy(t, unsafe.Slice((*Hash)(topics), int(n)))
	}
	h.ctx.EmitLog(adr(a), t, C.GoBytes(data, C.int(size)))
}

//export shimAccessAccount
func shimAccessAccount(id C.uintptr_t, a unsafe.Pointer) (r C.int) {
	h := host(id)
	defer guard(h)
	return C.int(h.ctx.AccessAccount(adr(a)))
}

//export shimAccessStorage
func shimAccessStorage(id C.uintptr_t, a, k unsafe.Pointer) (r C.int) {
	h := host(id)
	defer guard(h)
	return C.int(h.ctx.AccessStorage(adr(a), hsh(k)))
}

//export shimGetTransientStorage
func shimGetTransientStorage(id C.uintptr_t, a, k unsafe.Pointer, r *C.evmc_bytes32) {
	h := host(id)
	defer guard(h)
	*r = toHash(h.ctx.GetTransientStorage(adr(a), hsh(k)))
}

//export shimSetTransientStorage
func shimSetTransientStorage(id C.uintptr_t, a, k, v unsafe.Pointer) {
	h := host(id)
	defer guard(h)
	h.ctx.SetTransientStorage(adr(a), hsh(k), hsh(v))
}
