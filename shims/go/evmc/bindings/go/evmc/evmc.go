// Package evmc is an offline stand-in for the Go bindings of EVMC (v11, with
// the extensions Tosca uses), written for /verif: EVMC itself is not available
// in this sandbox. A library named "scripted:..." is played by Go functions.
package evmc

/*
#cgo CFLAGS: -I${SRCDIR}/../../../../../cpp
#cgo LDFLAGS: -ldl
#include <stdlib.h>
#include "shim.h"
*/
import "C"

import (
	"errors"
	"fmt"
	"path/filepath"
	"runtime"
	"runtime/cgo"
	"strings"
	"unsafe"
)

type Hash [32]byte
type Address [20]byte
type Error int32

const (
	Failure = Error(C.EVMC_FAILURE)
	Revert  = Error(C.EVMC_REVERT)
)

func (e Error) IsInternalError() bool { return e < 0 }
func (e Error) Error() string         { return fmt.Sprintf("EVMC status %d", int32(e)) }

type Revision int32

const (
	Frontier         Revision = C.EVMC_FRONTIER
	Homestead        Revision = C.EVMC_HOMESTEAD
	TangerineWhistle Revision = C.EVMC_TANGERINE_WHISTLE
	SpuriousDragon   Revision = C.EVMC_SPURIOUS_DRAGON
	Byzantium        Revision = C.EVMC_BYZANTIUM
	Constantinople   Revision = C.EVMC_CONSTANTINOPLE
	Petersburg       Revision = C.EVMC_PETERSBURG
	Istanbul         Revision = C.EVMC_ISTANBUL
	Berlin           Revision = C.EVMC_BERLIN
	London           Revision = C.EVMC_LONDON
	Paris            Revision = C.EVMC_PARIS
	Shanghai         Revision = C.EVMC_SHANGHAI
	Cancun           Revision = C.EVMC_CANCUN
)

type CallKind int

const (
	Call         CallKind = C.EVMC_CALL
	DelegateCall CallKind = C.EVMC_DELEGATECALL
	CallCode     CallKind = C.EVMC_CALLCODE
	Create       CallKind = C.EVMC_CREATE
	Create2      CallKind = C.EVMC_CREATE2
)

type AccessStatus int

const (
	ColdAccess AccessStatus = C.EVMC_ACCESS_COLD
	WarmAccess AccessStatus = C.EVMC_ACCESS_WARM
)

type StorageStatus int

const (
	StorageAssigned         StorageStatus = C.EVMC_STORAGE_ASSIGNED
	StorageAdded            StorageStatus = C.EVMC_STORAGE_ADDED
	StorageDeleted          StorageStatus = C.EVMC_STORAGE_DELETED
	StorageModified         StorageStatus = C.EVMC_STORAGE_MODIFIED
	StorageDeletedAdded     StorageStatus = C.EVMC_STORAGE_DELETED_ADDED
	StorageModifiedDeleted  StorageStatus = C.EVMC_STORAGE_MODIFIED_DELETED
	StorageDeletedRestored  StorageStatus = C.EVMC_STORAGE_DELETED_RESTORED
	StorageAddedDeleted     StorageStatus = C.EVMC_STORAGE_ADDED_DELETED
	StorageModifiedRestored StorageStatus = C.EVMC_STORAGE_MODIFIED_RESTORED
)

type StepStatus int

const (
	Running  StepStatus = C.EVMC_STEP_RUNNING
	Stopped  StepStatus = C.EVMC_STEP_STOPPED
	Returned StepStatus = C.EVMC_STEP_RETURNED
	Reverted StepStatus = C.EVMC_STEP_REVERTED
	Failed   StepStatus = C.EVMC_STEP_FAILED
)

type TxContext struct {
	GasPrice    Hash
	Origin      Address
	Coinbase    Address
	Number      int64
	Timestamp   int64
	GasLimit    int64
	PrevRandao  Hash
	ChainID     Hash
	BaseFee     Hash
	BlobBaseFee Hash
	BlobHashes  []Hash
}

type HostContext interface {
	AccountExists(addr Address) bool
	GetStorage(addr Address, key Hash) Hash
	SetStorage(addr Address, key Hash, value Hash) StorageStatus
	GetBalance(addr Address) Hash
	GetCodeSize(addr Address) int
	GetCodeHash(addr Address) Hash
	GetCode(addr Address) []byte
	Selfdestruct(addr Address, beneficiary Address) bool
	GetTxContext() TxContext
	GetBlockHash(number int64) Hash
	EmitLog(addr Address, topics []Hash, data []byte)
	Call(kind CallKind, recipient Address, sender Address, value Hash, input []byte, gas int64, depth int,
		static bool, salt Hash, codeAddress Address) (output []byte, gasLeft int64, gasRefund int64, createAddr Address, err error)
	AccessAccount(addr Address) AccessStatus
	AccessStorage(addr Address, key Hash) AccessStatus
	GetTransientStorage(addr Address, key Hash) Hash
	SetTransientStorage(addr Address, key Hash, value Hash)
}

type Result struct {
	Output    []byte
	GasLeft   int64
	GasRefund int64
}

type StepParameters struct {
	Context        HostContext
	Revision       Revision
	Kind           CallKind
	Static         bool
	Depth          int
	Gas            int64
	GasRefund      int64
	Recipient      Address
	Sender         Address
	Input          []byte
	LastCallResult []byte
	Value          Hash
	CodeHash       *Hash
	Code           []byte
	StepStatusCode StepStatus
	Pc             uint64
	Stack          []byte
	Memory         []byte
	NumSteps       int
}

type StepResult struct {
	StepStatusCode     StepStatus
	StatusCode         Error
	Revision           Revision
	Pc                 uint64
	GasLeft            int64
	GasRefund          int64
	Output             []byte
	Stack              []byte
	Memory             []byte
	LastCallReturnData []byte
}

// ScriptedExecute and ScriptedStep play the libraries named "scripted:...".
type Message struct {
	Context           HostContext
	Revision          Revision
	Kind              CallKind
	Static            bool
	Depth             int
	Gas               int64
	Recipient, Sender Address
	Input             []byte
	Value             Hash
	CodeHash          *Hash
	Code              []byte
}

var ScriptedExecute func(name string, m Message) (Result, error)
var ScriptedStep func(name string, p StepParameters) (StepResult, error)
var ScriptedOption func(name, property, value string) error

type VM struct {
	handle   *C.struct_evmc_vm
	scripted string
}

type VMSteppable struct {
	handle   *C.struct_evmc_vm_steppable
	scripted string
}

func load(library, create string) (unsafe.Pointer, error) {
	name := filepath.Base(library)
	name = strings.TrimPrefix(strings.TrimSuffix(name, filepath.Ext(name)), "lib")
	f, s := C.CString(library), C.CString(create+name)
	defer C.free(unsafe.Pointer(f))
	defer C.free(unsafe.Pointer(s))
	var e *C.char
	p := C.shim_load(f, s, &e)
	if p == nil {
		return nil, errors.New(C.GoString(e))
	}
	return p, nil
}

func Load(library string) (*VM, error) {
	if strings.HasPrefix(library, "scripted:") {
		return &VM{scripted: library}, nil
	}
	p, err := load(library, "evmc_create_")
	if err != nil {
		return nil, err
	}
	return &VM{handle: (*C.struct_evmc_vm)(p)}, nil
}

func LoadSteppable(library string) (*VMSteppable, error) {
	if strings.HasPrefix(library, "scripted:") {
		return &VMSteppable{scripted: library}, nil
	}
	p, err := load(library, "evmc_create_steppable_")
	if err != nil {
		return nil, err
	}
	return &VMSteppable{handle: (*C.struct_evmc_vm_steppable)(p)}, nil
}

func (vm *VM) GetHandle() unsafe.Pointer { return unsafe.Pointer(vm.handle) }

func (vm *VM) Destroy() {
	if vm.scripted == "" {
		C.shim_destroy(vm.handle)
	}
}

func (vm *VMSteppable) Destroy() {
	if vm.scripted == "" {
		C.shim_destroy_steppable(vm.handle)
	}
}

func (vm *VM) SetOption(name string, value string) error {
	if vm.scripted != "" {
		return ScriptedOption(vm.scripted, name, value)
	}
	n, v := C.CString(name), C.CString(value)
	defer C.free(unsafe.Pointer(n))
	defer C.free(unsafe.Pointer(v))
	if r := C.shim_set_option(vm.handle, n, v); r != 0 {
		return fmt.Errorf("evmc: setting option %s failed: %d", name, int(r))
	}
	return nil
}

// hostCall is what an execution keeps for its callbacks.
type hostCall struct {
	ctx   HostContext
	blobs unsafe.Pointer
	panic any
}

func bytesOf(p *runtime.Pinner, b []byte) *C.uint8_t {
	if len(b) == 0 {
		return nil
	}
	p.Pin(&b[0])
	return (*C.uint8_t)(&b[0])
}

func message(p *runtime.Pinner, kind CallKind, static bool, depth int, gas int64, recipient, sender Address, input []byte, value Hash, codeHash *Hash) *C.struct_evmc_message {
	m := new(C.struct_evmc_message)
	m.kind = uint32(kind)
	if static {
		m.flags = C.EVMC_STATIC
	}
	m.depth, m.gas = C.int32_t(depth), C.int64_t(gas)
	m.recipient, m.sender = toAddress(recipient), toAddress(sender)
	m.input_data, m.input_size = bytesOf(p, input), C.size_t(len(input))
	m.value = toHash(value)
	if codeHash != nil {
		h := new(C.evmc_bytes32)
		*h = toHash(*codeHash)
		p.Pin(h)
		m.code_hash = h
	}
	p.Pin(m)
	return m
}

func (vm *VM) Execute(ctx HostContext, rev Revision, kind CallKind, static bool, depth int, gas int64,
	recipient Address, sender Address, input []byte, value Hash, codeHash *Hash, code []byte) (res Result, err error) {
	if vm.scripted != "" {
		return ScriptedExecute(vm.scripted, Message{ctx, rev, kind, static, depth, gas, recipient, sender, input, value, codeHash, code})
	}
	var p runtime.Pinner
	defer p.Unpin()
	h := &hostCall{ctx: ctx}
	id := cgo.NewHandle(h)
	r := C.shim_execute(vm.handle, C.uintptr_t(id), C.int(rev), message(&p, kind, static, depth, gas, recipient, sender, input, value, codeHash), bytesOf(&p, code), C.size_t(len(code)))
	id.Delete()
	C.free(h.blobs)
	res = Result{C.GoBytes(unsafe.Pointer(r.output_data), C.int(r.output_size)), int64(r.gas_left), int64(r.gas_refund)}
	if r.status_code != C.EVMC_SUCCESS {
		err = Error(r.status_code)
	}
	C.shim_release(&r)
	if h.panic != nil {
		panic(h.panic)
	}
	return
}

func (vm *VMSteppable) StepN(q StepParameters) (res StepResult, err error) {
	if vm.scripted != "" {
		return ScriptedStep(vm.scripted, q)
	}
	var p runtime.Pinner
	defer p.Unpin()
	h := &hostCall{ctx: q.Context}
	id := cgo.NewHandle(h)
	m := message(&p, q.Kind, q.Static, q.Depth, q.Gas, q.Recipient, q.Sender, q.Input, q.Value, q.CodeHash)
	r := C.shim_step_n(vm.handle, C.uintptr_t(id), C.int(q.Revision), m, bytesOf(&p, q.Code), C.size_t(len(q.Code)), C.int(q.StepStatusCode), C.uint64_t(q.Pc), C.int64_t(q.GasRefund),
		bytesOf(&p, q.Stack), C.size_t(len(q.Stack)/32), bytesOf(&p, q.Memory), C.size_t(len(q.Memory)), bytesOf(&p, q.LastCallResult), C.size_t(len(q.LastCallResult)), C.int32_t(q.NumSteps))
	id.Delete()
	C.free(h.blobs)
	get := func(b *C.uint8_t, n C.size_t) []byte { return C.GoBytes(unsafe.Pointer(b), C.int(n)) }
	res = StepResult{StepStatus(r.step_status_code), Error(r.status_code), Revision(r.revision), uint64(r.pc), int64(r.gas_left), int64(r.gas_refund), get(r.output_data, r.output_size),
		C.GoBytes(unsafe.Pointer(r.stack), C.int(r.stack_size*32)), get(r.memory, r.memory_size), get(r.last_call_return_data, r.last_call_return_data_size)}
	C.shim_release_step(&r)
	if h.panic != nil {
		panic(h.panic)
	}
	return
}

func toHash(h Hash) C.evmc_bytes32       { return *(*C.evmc_bytes32)(unsafe.Pointer(&h)) }
func toAddress(a Address) C.evmc_address { return *(*C.evmc_address)(unsafe.Pointer(&a)) }
