package vm

// The parts of go-ethereum's EVM that the repository's geth adapter, geth
// interpreter and opera processor use: messages between accounts, as
// go-ethereum 1.14 and Fantom's variant of it (exchangeable interpreters,
// state contracts, interceptors) define them.

import (
	"errors"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/stateless"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie/utils"
	"github.com/holiman/uint256"
)

var (
	ErrOutOfGas                 = errors.New("out of gas")
	ErrCodeStoreOutOfGas        = errors.New("contract creation code storage out of gas")
	ErrDepth                    = errors.New("max call depth exceeded")
	ErrInsufficientBalance      = errors.New("insufficient balance for transfer")
	ErrContractAddressCollision = errors.New("contract address collision")
	ErrExecutionReverted        = errors.New("execution reverted")
	ErrMaxCodeSizeExceeded      = errors.New("max code size exceeded")
	ErrMaxInitCodeSizeExceeded  = errors.New("max initcode size exceeded")
	ErrInvalidJump              = errors.New("invalid jump destination")
	ErrWriteProtection          = errors.New("write protection")
	ErrReturnDataOutOfBounds    = errors.New("return data out of bounds")
	ErrGasUintOverflow          = errors.New("gas uint64 overflow")
	ErrInvalidCode              = errors.New("invalid code: must not begin with 0xef")
	ErrNonceUintOverflow        = errors.New("nonce uint64 overflow")
)

type OpCode byte

type ErrStackUnderflow struct{ stackLen, required int }

func (e ErrStackUnderflow) Error() string {
	return fmt.Sprintf("stack underflow (%d <=> %d)", e.stackLen, e.required)
}

type ErrStackOverflow struct{ stackLen, limit int }

func (e ErrStackOverflow) Error() string {
	return fmt.Sprintf("stack limit reached %d (%d)", e.stackLen, e.limit)
}

type ErrInvalidOpCode struct{ opcode OpCode }

func (e *ErrInvalidOpCode) Error() string { return fmt.Sprintf("invalid opcode: %d", e.opcode) }

type StateDB interface {
	CreateAccount(common.Address)
	CreateContract(common.Address)
	SubBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	AddBalance(common.Address, *uint256.Int, tracing.BalanceChangeReason)
	GetBalance(common.Address) *uint256.Int
	GetNonce(common.Address) uint64
	SetNonce(common.Address, uint64)
	GetCodeHash(common.Address) common.Hash
	GetCode(common.Address) []byte
	SetCode(common.Address, []byte)
	GetCodeSize(common.Address) int
	AddRefund(uint64)
	SubRefund(uint64)
	GetRefund() uint64
	GetCommittedState(common.Address, common.Hash) common.Hash
	GetState(common.Address, common.Hash) common.Hash
	SetState(common.Address, common.Hash, common.Hash)
	GetStorageRoot(addr common.Address) common.Hash
	GetTransientState(addr common.Address, key common.Hash) common.Hash
	SetTransientState(addr common.Address, key, value common.Hash)
	SelfDestruct(common.Address)
	HasSelfDestructed(common.Address) bool
	Selfdestruct6780(common.Address)
	Exist(common.Address) bool
	Empty(common.Address) bool
	AddressInAccessList(addr common.Address) bool
	SlotInAccessList(addr common.Address, slot common.Hash) (addressOk bool, slotOk bool)
	AddAddressToAccessList(addr common.Address)
	AddSlotToAccessList(addr common.Address, slot common.Hash)
	PointCache() *utils.PointCache
	Prepare(rules params.Rules, sender, coinbase common.Address, dest *common.Address, precompiles []common.Address, txAccesses types.AccessList)
	RevertToSnapshot(int)
	Snapshot() int
	AddLog(*types.Log)
	AddPreimage(common.Hash, []byte)
	Witness() *stateless.Witness
}

type (
	CanTransferFunc func(StateDB, common.Address, *uint256.Int) bool
	TransferFunc    func(StateDB, common.Address, common.Address, *uint256.Int)
	GetHashFunc     func(uint64) common.Hash
)

type BlockContext struct {
	CanTransfer CanTransferFunc
	Transfer    TransferFunc
	GetHash     GetHashFunc
	Coinbase    common.Address
	GasLimit    uint64
	BlockNumber *big.Int
	Time        uint64
	Difficulty  *big.Int
	BaseFee     *big.Int
	BlobBaseFee *big.Int
	Random      *common.Hash
}

type TxContext struct {
	Origin     common.Address
	GasPrice   *big.Int
	BlobHashes []common.Hash
	BlobFeeCap *big.Int
}

type ContractRef interface{ Address() common.Address }
type AccountRef common.Address

func (a AccountRef) Address() common.Address { return common.Address(a) }

type Contract struct {
	CallerAddress common.Address
	caller        ContractRef
	self          ContractRef
	Code          []byte
	CodeHash      common.Hash
	CodeAddr      *common.Address
	Input         []byte
	IsDeployment  bool
	Gas           uint64
	value         *uint256.Int
}

func NewContract(caller ContractRef, object ContractRef, value *uint256.Int, gas uint64) *Contract {
	return &Contract{CallerAddress: caller.Address(), caller: caller, self: object, Gas: gas, value: value}
}
func (c *Contract) AsDelegate() *Contract {
	parent := c.caller.(*Contract)
	c.CallerAddress = parent.CallerAddress
	c.value = parent.value
	return c
}
func (c *Contract) Caller() common.Address  { return c.CallerAddress }
func (c *Contract) Address() common.Address { return c.self.Address() }
func (c *Contract) Value() *uint256.Int     { return c.value }
func (c *Contract) UseGas(gas uint64) bool {
	if c.Gas < gas {
		return false
	}
	c.Gas -= gas
	return true
}
func (c *Contract) SetCallCode(addr *common.Address, hash common.Hash, code []byte) {
	c.Code, c.CodeHash, c.CodeAddr = code, hash, addr
}

// Interpreter runs contracts.
type Interpreter interface {
	Run(contract *Contract, input []byte, static bool) ([]byte, error)
}
type InterpreterFactory func(evm *EVM) Interpreter

// PrecompiledStateContract is a contract of the client with access to the state.
type PrecompiledStateContract interface {
	Run(stateDB StateDB, blockCtx BlockContext, txCtx TxContext, caller common.Address, input []byte, suppliedGas uint64) ([]byte, uint64, error)
}

type CallInterceptor interface {
	Call(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error)
	CallCode(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64, value *uint256.Int) ([]byte, uint64, error)
	DelegateCall(env *EVM, me ContractRef, addr common.Address, data []byte, gas uint64) ([]byte, uint64, error)
	StaticCall(env *EVM, me ContractRef, addr common.Address, input []byte, gas uint64) ([]byte, uint64, error)
	Create(env *EVM, me ContractRef, code []byte, gas uint64, value *uint256.Int) ([]byte, common.Address, uint64, error)
	Create2(env *EVM, me ContractRef, code []byte, gas uint64, value *uint256.Int, salt *uint256.Int) ([]byte, common.Address, uint64, error)
}

type Config struct {
	Interpreter      InterpreterFactory
	StatePrecompiles map[common.Address]PrecompiledStateContract
}

type EVM struct {
	Context BlockContext
	TxContext
	StateDB         StateDB
	CallInterceptor CallInterceptor
	Config          Config
	depth           int
	chainConfig     *params.ChainConfig
	chainRules      params.Rules
	interpreter     Interpreter
}

func NewEVM(blockCtx BlockContext, txCtx TxContext, statedb StateDB, chainConfig *params.ChainConfig, config Config) *EVM {
	evm := &EVM{Context: blockCtx, TxContext: txCtx, StateDB: statedb, Config: config, chainConfig: chainConfig}
	evm.chainRules = chainConfig.Rules(blockCtx.BlockNumber, blockCtx.Random != nil, blockCtx.Time)
	if config.Interpreter != nil {
		evm.interpreter = config.Interpreter(evm)
	} else {
		evm.interpreter = &EVMInterpreter{evm: evm}
	}
	return evm
}

func (evm *EVM) Interpreter() Interpreter         { return evm.interpreter }
func (evm *EVM) ChainConfig() *params.ChainConfig { return evm.chainConfig }
// ChainRules are the rules the EVM has been created with.
func (evm *EVM) ChainRules() params.Rules         { return evm.chainRules }
func (evm *EVM) GetDepth() int                    { return evm.depth }
func (evm *EVM) SetDepth(depth int)               { evm.depth = depth }

func (evm *EVM) precompile(addr common.Address) (PrecompiledContract, bool) {
	table := PrecompiledContractsHomestead
	switch {
	case evm.chainRules.IsPrague:
		table = PrecompiledContractsPrague
	case evm.chainRules.IsCancun:
		table = PrecompiledContractsCancun
	case evm.chainRules.IsBerlin:
		table = PrecompiledContractsBerlin
	case evm.chainRules.IsIstanbul:
		table = PrecompiledContractsIstanbul
	case evm.chainRules.IsByzantium:
		table = PrecompiledContractsByzantium
	}
	p, ok := table[addr]
	return p, ok
}

func runPrecompiled(p PrecompiledContract, input []byte, gas uint64) ([]byte, uint64, error) {
	cost := p.RequiredGas(input)
	if gas < cost {
		return nil, 0, ErrOutOfGas
	}
	out, err := p.Run(input)
	return out, gas - cost, err
}

// finish rolls back what a failed message has done and takes its gas.
func (evm *EVM) finish(snapshot int, gas uint64, err error) uint64 {
	if err != nil {
		evm.StateDB.RevertToSnapshot(snapshot)
		if err != ErrExecutionReverted {
			gas = 0
		}
	}
	return gas
}

func (evm *EVM) Call(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Call(evm, caller, addr, input, gas, value)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	if !value.IsZero() && !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, gas, ErrInsufficientBalance
	}
	snapshot := evm.StateDB.Snapshot()
	p, isPrecompile := evm.precompile(addr)
	sp, isState := evm.Config.StatePrecompiles[addr]
	if !evm.StateDB.Exist(addr) {
		if !isPrecompile && !isState && evm.chainRules.IsEIP158 && value.IsZero() {
			return nil, gas, nil
		}
		evm.StateDB.CreateAccount(addr)
	}
	evm.Context.Transfer(evm.StateDB, caller.Address(), addr, value)
	if isPrecompile {
		ret, gas, err = runPrecompiled(p, input, gas)
	} else if isState {
		ret, gas, err = sp.Run(evm.StateDB, evm.Context, evm.TxContext, caller.Address(), input, gas)
	} else {
		code := evm.StateDB.GetCode(addr)
		if witness := evm.StateDB.Witness(); witness != nil {
			witness.AddCode(code)
		}
		if len(code) > 0 {
			addrCopy := addr
			contract := NewContract(caller, AccountRef(addrCopy), value, gas)
			contract.SetCallCode(&addrCopy, evm.StateDB.GetCodeHash(addrCopy), code)
			ret, err = evm.interpreter.Run(contract, input, false)
			gas = contract.Gas
		}
	}
	return ret, evm.finish(snapshot, gas, err), err
}

func (evm *EVM) CallCode(caller ContractRef, addr common.Address, input []byte, gas uint64, value *uint256.Int) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.CallCode(evm, caller, addr, input, gas, value)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	if !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, gas, ErrInsufficientBalance
	}
	snapshot := evm.StateDB.Snapshot()
	if p, isPrecompile := evm.precompile(addr); isPrecompile {
		ret, gas, err = runPrecompiled(p, input, gas)
	} else {
		addrCopy := addr
		contract := NewContract(caller, AccountRef(caller.Address()), value, gas)
		contract.SetCallCode(&addrCopy, evm.StateDB.GetCodeHash(addrCopy), evm.StateDB.GetCode(addrCopy))
		ret, err = evm.interpreter.Run(contract, input, false)
		gas = contract.Gas
	}
	return ret, evm.finish(snapshot, gas, err), err
}

func (evm *EVM) DelegateCall(caller ContractRef, addr common.Address, input []byte, gas uint64) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.DelegateCall(evm, caller, addr, input, gas)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	snapshot := evm.StateDB.Snapshot()
	if p, isPrecompile := evm.precompile(addr); isPrecompile {
		ret, gas, err = runPrecompiled(p, input, gas)
	} else {
		addrCopy := addr
		contract := NewContract(caller, AccountRef(caller.Address()), nil, gas).AsDelegate()
		contract.SetCallCode(&addrCopy, evm.StateDB.GetCodeHash(addrCopy), evm.StateDB.GetCode(addrCopy))
		ret, err = evm.interpreter.Run(contract, input, false)
		gas = contract.Gas
	}
	return ret, evm.finish(snapshot, gas, err), err
}

func (evm *EVM) StaticCall(caller ContractRef, addr common.Address, input []byte, gas uint64) (ret []byte, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.StaticCall(evm, caller, addr, input, gas)
	}
	if evm.depth > int(params.CallCreateDepth) {
		return nil, gas, ErrDepth
	}
	snapshot := evm.StateDB.Snapshot()
	evm.StateDB.AddBalance(addr, new(uint256.Int), tracing.BalanceChangeTouchAccount)
	if p, isPrecompile := evm.precompile(addr); isPrecompile {
		ret, gas, err = runPrecompiled(p, input, gas)
	} else {
		addrCopy := addr
		contract := NewContract(caller, AccountRef(addrCopy), new(uint256.Int), gas)
		contract.SetCallCode(&addrCopy, evm.StateDB.GetCodeHash(addrCopy), evm.StateDB.GetCode(addrCopy))
		ret, err = evm.interpreter.Run(contract, input, true)
		gas = contract.Gas
	}
	return ret, evm.finish(snapshot, gas, err), err
}

func (evm *EVM) create(caller ContractRef, code []byte, hash common.Hash, gas uint64, value *uint256.Int, address common.Address) ([]byte, common.Address, uint64, error) {
	if evm.depth > int(params.CallCreateDepth) {
		return nil, common.Address{}, gas, ErrDepth
	}
	if !evm.Context.CanTransfer(evm.StateDB, caller.Address(), value) {
		return nil, common.Address{}, gas, ErrInsufficientBalance
	}
	nonce := evm.StateDB.GetNonce(caller.Address())
	if nonce+1 < nonce {
		return nil, common.Address{}, gas, ErrNonceUintOverflow
	}
	evm.StateDB.SetNonce(caller.Address(), nonce+1)
	// The created address stays accessed even if its creation fails.
	if evm.chainRules.IsEIP2929 {
		evm.StateDB.AddAddressToAccessList(address)
	}
	contractHash := evm.StateDB.GetCodeHash(address)
	storageRoot := evm.StateDB.GetStorageRoot(address)
	if evm.StateDB.GetNonce(address) != 0 || (contractHash != common.Hash{} && contractHash != types.EmptyCodeHash) || storageRoot != (common.Hash{}) {
		return nil, common.Address{}, 0, ErrContractAddressCollision
	}
	snapshot := evm.StateDB.Snapshot()
	if !evm.StateDB.Exist(address) {
		evm.StateDB.CreateAccount(address)
	}
	evm.StateDB.CreateContract(address)
	if evm.chainRules.IsEIP158 {
		evm.StateDB.SetNonce(address, 1)
	}
	evm.Context.Transfer(evm.StateDB, caller.Address(), address, value)
	contract := NewContract(caller, AccountRef(address), value, gas)
	contract.SetCallCode(&address, hash, code)
	contract.IsDeployment = true
	ret, err := evm.interpreter.Run(contract, nil, false)
	if err == nil && evm.chainRules.IsEIP158 && len(ret) > params.MaxCodeSize {
		err = ErrMaxCodeSizeExceeded
	}
	if err == nil && len(ret) >= 1 && ret[0] == 0xEF && evm.chainRules.IsLondon {
		err = ErrInvalidCode
	}
	if err == nil {
		if contract.UseGas(uint64(len(ret)) * params.CreateDataGas) {
			evm.StateDB.SetCode(address, ret)
		} else {
			err = ErrCodeStoreOutOfGas
		}
	}
	if err != nil && (evm.chainRules.IsHomestead || err != ErrCodeStoreOutOfGas) {
		evm.StateDB.RevertToSnapshot(snapshot)
		if err != ErrExecutionReverted {
			contract.UseGas(contract.Gas)
		}
	}
	return ret, address, contract.Gas, err
}

func (evm *EVM) Create(caller ContractRef, code []byte, gas uint64, value *uint256.Int) (ret []byte, contractAddr common.Address, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Create(evm, caller, code, gas, value)
	}
	return evm.create(caller, code, common.Hash{}, gas, value, crypto.CreateAddress(caller.Address(), evm.StateDB.GetNonce(caller.Address())))
}

func (evm *EVM) Create2(caller ContractRef, code []byte, gas uint64, endowment *uint256.Int, salt *uint256.Int) (ret []byte, contractAddr common.Address, leftOverGas uint64, err error) {
	if evm.CallInterceptor != nil {
		return evm.CallInterceptor.Create2(evm, caller, code, gas, endowment, salt)
	}
	hash := crypto.Keccak256Hash(code)
	return evm.create(caller, code, hash, gas, endowment, crypto.CreateAddress2(caller.Address(), salt.Bytes32(), hash[:]))
}

// --- what go/interpreter/geth needs to be compiled ---------------------------

// EVMInterpreter is no interpreter: code is run by exchanged ones only, or by
// what a test puts in its place.
type EVMInterpreter struct{ evm *EVM }

// RunScript and StepScript, if set, stand for the interpreter.
var RunScript func(evm *EVM, contract *Contract, input []byte, static bool) ([]byte, error)
var StepScript func(evm *EVM, s *InterpreterState)

func (in *EVMInterpreter) Run(contract *Contract, input []byte, static bool) ([]byte, error) {
	if RunScript == nil {
		panic("no interpreter")
	}
	return RunScript(in.evm, contract, input, static)
}
func (in *EVMInterpreter) Step(s *InterpreterState) {
	if StepScript == nil {
		panic("no interpreter")
	}
	StepScript(in.evm, s)
}

type Status byte

const (
	Running Status = iota
	Reverted
	Stopped
	Failed
)

type InterpreterState struct {
	Contract           *Contract
	ReadOnly           bool
	Input              []byte
	Status             Status
	Pc                 uint64
	Stack              *Stack
	Memory             *Memory
	LastCallReturnData []byte
	ReturnData         []byte
	Error              error
}

type Stack struct{ data []uint256.Int }

func NewStack() *Stack                  { return &Stack{} }
func (s *Stack) Data() []uint256.Int    { return s.data }
func (s *Stack) Push(v *uint256.Int)    { s.data = append(s.data, *v) }
func (s *Stack) Len() int               { return len(s.data) }
func (s *Stack) Pop() (ret uint256.Int) { ret = s.data[len(s.data)-1]; s.data = s.data[:len(s.data)-1]; return }

type Memory struct {
	store       []byte
	LastGasCost uint64
}

func NewMemory() *Memory        { return &Memory{} }
func (m *Memory) Data() []byte  { return m.store }
func (m *Memory) Len() int      { return len(m.store) }
func (m *Memory) Resize(n uint64) {
	if uint64(len(m.store)) < n {
		m.store = append(m.store, make([]byte, n-uint64(len(m.store)))...)
	}
}
func (m *Memory) Set(offset, size uint64, value []byte) {
	if size > 0 {
		if offset+size > uint64(len(m.store)) {
			panic("invalid memory: store empty")
		}
		copy(m.store[offset:offset+size], value)
	}
}

// MemoryGasCost is the cost of growing a memory.
func MemoryGasCost(mem *Memory, newMemSize uint64) (uint64, error) {
	if newMemSize == 0 {
		return 0, nil
	}
	if newMemSize > 0x1FFFFFFFE0 {
		return 0, ErrGasUintOverflow
	}
	words := (newMemSize + 31) / 32
	if words*32 > uint64(len(mem.store)) {
		total := words*params.MemoryGas + words*words/512
		fee := total - mem.LastGasCost
		mem.LastGasCost = total
		return fee, nil
	}
	return 0, nil
}
