// Together with the driver of the processor floria: transactions executed
// through the geth adapter.
//
// With PROC=opera by the processor opera, otherwise by a go-ethereum EVM on a
// StateDB of its own.
package main

import (
	"errors"
	"math/big"
	"os"
	"reflect"

	"github.com/Fantom-foundation/Tosca/go/geth_adapter"
	_ "github.com/Fantom-foundation/Tosca/go/processor/opera"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/stateless"
	"github.com/ethereum/go-ethereum/core/tracing"
	"github.com/ethereum/go-ethereum/core/types"
	geth "github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/trie/utils"
	"github.com/holiman/uint256"
)

func init() {
	showsLogs = false
	if os.Getenv("PROC") == "opera" {
		newProcessor = func(in tosca.Interpreter) tosca.Processor { return tosca.GetProcessor("opera", in) }
		systemDirect = true
		sameEnv = func(a, b tosca.BlockParameters, x, y tosca.TransactionParameters) bool {
			// opera has neither a coinbase nor what came with later revisions
			a.Coinbase, a.PrevRandao, a.BlobBaseFee = b.Coinbase, b.PrevRandao, b.BlobBaseFee
			x.BlobHashes = nil
			return reflect.DeepEqual(a, b) && reflect.DeepEqual(x, y)
		}
		return
	}
	newProcessor = func(in tosca.Interpreter) tosca.Processor { return plain{in} }
	sameEnv = func(a, b tosca.BlockParameters, x, y tosca.TransactionParameters) bool {
		y.BlobHashes = []tosca.Hash{{7, 31: 1}, {31: 8}}
		return reflect.DeepEqual(a, b) && reflect.DeepEqual(x, y)
	}
}

// stateDB is a StateDB of go-ethereum on a world.
type stateDB struct{ w *world }

func ad(a common.Address) tosca.Address               { return tosca.Address(a) }
func (s stateDB) CreateAccount(common.Address)        {}
func (s stateDB) CreateContract(a common.Address)     { s.w.fresh[ad(a)] = true }
func (s stateDB) GetNonce(a common.Address) uint64    { return s.w.GetNonce(ad(a)) }
func (s stateDB) SetNonce(a common.Address, n uint64) { s.w.SetNonce(ad(a), n) }
func (s stateDB) GetCodeHash(a common.Address) common.Hash {
	return common.Hash(s.w.GetCodeHash(ad(a)))
}
func (s stateDB) GetCode(a common.Address) []byte           { return s.w.GetCode(ad(a)) }
func (s stateDB) SetCode(a common.Address, c []byte)        { s.w.SetCode(ad(a), c) }
func (s stateDB) GetCodeSize(a common.Address) int          { return s.w.GetCodeSize(ad(a)) }
func (s stateDB) AddRefund(g uint64)                        { s.w.refund += g }
func (s stateDB) GetRefund() uint64                         { return s.w.refund }
func (s stateDB) GetStorageRoot(common.Address) common.Hash { return common.Hash{} }
func (s stateDB) HasSelfDestructed(a common.Address) bool   { return s.w.gone[ad(a)] }
func (s stateDB) Exist(a common.Address) bool               { return s.w.AccountExists(ad(a)) }
func (s stateDB) Empty(a common.Address) bool               { return !s.w.AccountExists(ad(a)) }
func (s stateDB) AddressInAccessList(a common.Address) bool { return s.w.warm[ad(a)] }
func (s stateDB) AddAddressToAccessList(a common.Address)   { s.w.AccessAccount(ad(a)) }
func (s stateDB) RevertToSnapshot(i int)                    { s.w.RestoreSnapshot(tosca.Snapshot(i)) }
func (s stateDB) Snapshot() int                             { return int(s.w.CreateSnapshot()) }
func (s stateDB) AddPreimage(common.Hash, []byte)           {}
func (s stateDB) Witness() *stateless.Witness               { return nil }
func (s stateDB) PointCache() *utils.PointCache             { return nil }
func (s stateDB) GetBalance(a common.Address) *uint256.Int  { return s.w.GetBalance(ad(a)).ToUint256() }
func (s stateDB) SubBalance(a common.Address, v *uint256.Int, _ tracing.BalanceChangeReason) {
	s.w.SetBalance(ad(a), tosca.Sub(s.w.GetBalance(ad(a)), tosca.ValueFromUint256(v)))
}
func (s stateDB) AddBalance(a common.Address, v *uint256.Int, _ tracing.BalanceChangeReason) {
	s.w.SetBalance(ad(a), tosca.Add(s.w.GetBalance(ad(a)), tosca.ValueFromUint256(v)))
}
func (s stateDB) SubRefund(g uint64) {
	if g > s.w.refund {
		panic("refund counter below zero")
	}
	s.w.refund -= g
}
func (s stateDB) GetCommittedState(a common.Address, k common.Hash) common.Hash {
	return common.Hash(s.w.GetCommittedStorage(ad(a), tosca.Key(k)))
}
func (s stateDB) GetState(a common.Address, k common.Hash) common.Hash {
	return common.Hash(s.w.GetStorage(ad(a), tosca.Key(k)))
}
func (s stateDB) SetState(a common.Address, k, v common.Hash) {
	s.w.SetStorage(ad(a), tosca.Key(k), tosca.Word(v))
}
func (s stateDB) GetTransientState(a common.Address, k common.Hash) common.Hash {
	return common.Hash(s.w.GetTransientStorage(ad(a), tosca.Key(k)))
}
func (s stateDB) SetTransientState(a common.Address, k, v common.Hash) {
	s.w.SetTransientStorage(ad(a), tosca.Key(k), tosca.Word(v))
}
func (s stateDB) SelfDestruct(a common.Address) {
	s.w.SetBalance(ad(a), tosca.Value{})
	s.w.gone[ad(a)] = true
}
func (s stateDB) Selfdestruct6780(a common.Address) {
	if s.w.fresh[ad(a)] {
		s.SelfDestruct(a)
	}
}
func (s stateDB) SlotInAccessList(a common.Address, k common.Hash) (bool, bool) {
	return s.w.IsSlotInAccessList(ad(a), tosca.Key(k))
}
func (s stateDB) AddSlotToAccessList(a common.Address, k common.Hash) {
	s.w.AccessStorage(ad(a), tosca.Key(k))
}
func (s stateDB) Prepare(params.Rules, common.Address, common.Address, *common.Address, []common.Address, types.AccessList) {
}
func (s stateDB) AddLog(l *types.Log) {
	x := tosca.Log{Address: ad(l.Address), Data: l.Data}
	for _, t := range l.Topics {
		x.Topics = append(x.Topics, tosca.Hash(t))
	}
	s.w.EmitLog(x)
}

// plain executes transactions as opera does, on any revision.
type plain struct{ in tosca.Interpreter }

func (p plain) Run(b tosca.BlockParameters, t tosca.Transaction, c tosca.TransactionContext) (tosca.Receipt, error) {
	w := c.(*world)
	db := stateDB{w}
	zero := uint64(0)
	from := func(r tosca.Revision) *big.Int {
		if b.Revision >= r {
			return big.NewInt(b.BlockNumber)
		}
		return nil
	}
	cc := *params.AllEthashProtocolChanges
	cc.ChainID = new(big.Int).SetBytes(b.ChainID[:])
	cc.BerlinBlock, cc.LondonBlock, cc.MergeNetsplitBlock = from(tosca.R09_Berlin), from(tosca.R10_London), from(tosca.R11_Paris)
	if b.Revision >= tosca.R12_Shanghai {
		cc.ShanghaiTime = &zero
	}
	if b.Revision >= tosca.R13_Cancun {
		cc.CancunTime = &zero
	}
	ctx := geth.BlockContext{
		CanTransfer: func(db geth.StateDB, a common.Address, v *uint256.Int) bool { return db.GetBalance(a).Cmp(v) >= 0 },
		Transfer: func(db geth.StateDB, a, b common.Address, v *uint256.Int) {
			db.SubBalance(a, v, tracing.BalanceChangeTransfer)
			db.AddBalance(b, v, tracing.BalanceChangeTransfer)
		},
		GetHash:     func(n uint64) common.Hash { return common.Hash(w.GetBlockHash(int64(n))) },
		Coinbase:    common.Address(b.Coinbase),
		GasLimit:    uint64(b.GasLimit),
		BlockNumber: big.NewInt(b.BlockNumber),
		Time:        uint64(b.Timestamp),
		BaseFee:     new(big.Int).SetBytes(b.BaseFee[:]),
		BlobBaseFee: new(big.Int).SetBytes(b.BlobBaseFee[:]),
	}
	if b.Revision >= tosca.R11_Paris {
		h := common.Hash(b.PrevRandao)
		ctx.Random = &h
		ctx.Difficulty = new(big.Int)
	} else {
		ctx.Difficulty = new(big.Int).SetBytes(b.PrevRandao[:])
	}
	price := t.GasPrice.ToUint256()
	tx := geth.TxContext{Origin: common.Address(t.Sender), GasPrice: new(big.Int).SetBytes(t.GasPrice[:]), BlobHashes: []common.Hash{{7, 31: 1}, {31: 8}}}

	// acceptance, purchase of gas
	cost, over := new(uint256.Int).MulOverflow(uint256.NewInt(uint64(t.GasLimit)), price)
	if w.GetNonce(t.Sender) != t.Nonce || w.GetCodeSize(t.Sender) != 0 || over || w.GetBalance(t.Sender).ToUint256().Cmp(cost) < 0 {
		return tosca.Receipt{}, errors.New("rejected")
	}
	w.SetBalance(t.Sender, tosca.Sub(w.GetBalance(t.Sender), tosca.ValueFromUint256(cost)))
	need := uint64(21000)
	if t.Recipient == nil {
		need = 53000
	}
	for _, x := range t.Input {
		if x == 0 {
			need += 4
		} else {
			need += 16
		}
	}
	for _, x := range t.AccessList {
		need += 2400 + 1900*uint64(len(x.Keys))
	}
	if uint64(t.GasLimit) < need {
		return tosca.Receipt{GasUsed: t.GasLimit}, errors.New("too little gas")
	}
	if b.Revision >= tosca.R09_Berlin {
		w.AccessAccount(t.Sender)
		if t.Recipient != nil {
			w.AccessAccount(*t.Recipient)
		}
		for i := byte(1); i <= 9; i++ {
			w.AccessAccount(tosca.Address{19: i})
		}
		for _, x := range t.AccessList {
			w.AccessAccount(x.Address)
			for _, k := range x.Keys {
				w.AccessStorage(x.Address, k)
			}
		}
	}

	// execution
	evm := geth.NewEVM(ctx, tx, db, &cc, geth.Config{Interpreter: geth_adapter.NewGethInterpreterFactory(p.in)})
	rcpt := tosca.Receipt{}
	left := uint64(t.GasLimit) - need
	var err error
	if t.Recipient == nil {
		var a common.Address
		rcpt.Output, a, left, err = evm.Create(geth.AccountRef(t.Sender), t.Input, left, t.Value.ToUint256())
		rcpt.ContractAddress = &tosca.Address{}
		*rcpt.ContractAddress = tosca.Address(a)
	} else {
		w.SetNonce(t.Sender, w.GetNonce(t.Sender)+1)
		rcpt.Output, left, err = evm.Call(geth.AccountRef(t.Sender), common.Address(*t.Recipient), t.Input, left, t.Value.ToUint256())
	}

	// settlement
	if t.Sender != (tosca.Address{}) {
		left -= left / 10
	}
	if err == nil {
		refund, limit := db.GetRefund(), (uint64(t.GasLimit)-left)/2
		if b.Revision >= tosca.R10_London {
			limit = (uint64(t.GasLimit) - left) / 5
		}
		if refund > limit {
			refund = limit
		}
		left += refund
	}
	w.SetBalance(t.Sender, tosca.Add(w.GetBalance(t.Sender), tosca.ValueFromUint256(new(uint256.Int).Mul(uint256.NewInt(left), price))))
	rcpt.Success, rcpt.GasUsed, rcpt.Logs = err == nil, t.GasLimit-tosca.Gas(left), w.GetLogs()
	return rcpt, nil
}
