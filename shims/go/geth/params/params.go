// Package params is a stand-in for the parts of go-ethereum's package of that
// name that the repository's geth adapter and processors use.
package params

import "math/big"

const (
	CallCreateDepth           uint64 = 1024
	CallValueTransferGas      uint64 = 9000
	CreateGas                 uint64 = 32000
	CreateDataGas             uint64 = 200
	MemoryGas                 uint64 = 3
	SstoreSetGasEIP2200       uint64 = 20000
	TxGas                     uint64 = 21000
	TxGasContractCreation     uint64 = 53000
	TxDataZeroGas             uint64 = 4
	TxDataNonZeroGasEIP2028   uint64 = 16
	TxAccessListAddressGas    uint64 = 2400
	TxAccessListStorageKeyGas uint64 = 1900
	MaxCodeSize                      = 24576
	MaxInitCodeSize                  = 2 * MaxCodeSize
)

type ChainConfig struct {
	ChainID             *big.Int
	HomesteadBlock      *big.Int
	DAOForkBlock        *big.Int
	EIP150Block         *big.Int
	EIP155Block         *big.Int
	EIP158Block         *big.Int
	ByzantiumBlock      *big.Int
	ConstantinopleBlock *big.Int
	PetersburgBlock     *big.Int
	IstanbulBlock       *big.Int
	MuirGlacierBlock    *big.Int
	BerlinBlock         *big.Int
	LondonBlock         *big.Int
	ArrowGlacierBlock   *big.Int
	GrayGlacierBlock    *big.Int
	MergeNetsplitBlock  *big.Int
	ShanghaiTime        *uint64
	CancunTime          *uint64
	PragueTime          *uint64
}

func zero() *big.Int { return big.NewInt(0) }

// AllEthashProtocolChanges contains every change of the proof-of-work chain.
var AllEthashProtocolChanges = &ChainConfig{
	ChainID: big.NewInt(1337), HomesteadBlock: zero(), EIP150Block: zero(), EIP155Block: zero(), EIP158Block: zero(),
	ByzantiumBlock: zero(), ConstantinopleBlock: zero(), PetersburgBlock: zero(), IstanbulBlock: zero(), MuirGlacierBlock: zero(),
	BerlinBlock: zero(), LondonBlock: zero(), ArrowGlacierBlock: zero(), GrayGlacierBlock: zero(),
}

func isBlockForked(s, head *big.Int) bool {
	if s == nil || head == nil {
		return false
	}
	return s.Cmp(head) <= 0
}

func isTimestampForked(s *uint64, head uint64) bool {
	if s == nil {
		return false
	}
	return *s <= head
}

func (c *ChainConfig) IsLondon(num *big.Int) bool { return isBlockForked(c.LondonBlock, num) }
func (c *ChainConfig) IsShanghai(num *big.Int, time uint64) bool {
	return c.IsLondon(num) && isTimestampForked(c.ShanghaiTime, time)
}
func (c *ChainConfig) IsCancun(num *big.Int, time uint64) bool {
	return c.IsLondon(num) && isTimestampForked(c.CancunTime, time)
}
func (c *ChainConfig) IsPrague(num *big.Int, time uint64) bool {
	return c.IsLondon(num) && isTimestampForked(c.PragueTime, time)
}

type Rules struct {
	ChainID                                                 *big.Int
	IsHomestead, IsEIP150, IsEIP155, IsEIP158               bool
	IsEIP2929, IsEIP4762                                    bool
	IsByzantium, IsConstantinople, IsPetersburg, IsIstanbul bool
	IsBerlin, IsLondon                                      bool
	IsMerge, IsShanghai, IsCancun, IsPrague                 bool
	IsVerkle                                                bool
}

// Rules tells what is in force at a block; what came with or after the merge
// is only in force if the block is one of the merged chain.
func (c *ChainConfig) Rules(num *big.Int, isMerge bool, timestamp uint64) Rules {
	chainID := c.ChainID
	if chainID == nil {
		chainID = new(big.Int)
	}
	isMerge = isMerge && c.IsLondon(num)
	return Rules{
		ChainID:          new(big.Int).Set(chainID),
		IsHomestead:      isBlockForked(c.HomesteadBlock, num),
		IsEIP150:         isBlockForked(c.EIP150Block, num),
		IsEIP155:         isBlockForked(c.EIP155Block, num),
		IsEIP158:         isBlockForked(c.EIP158Block, num),
		IsByzantium:      isBlockForked(c.ByzantiumBlock, num),
		IsConstantinople: isBlockForked(c.ConstantinopleBlock, num),
		IsPetersburg:     isBlockForked(c.PetersburgBlock, num),
		IsIstanbul:       isBlockForked(c.IstanbulBlock, num),
		IsBerlin:         isBlockForked(c.BerlinBlock, num),
		IsEIP2929:        isBlockForked(c.BerlinBlock, num),
		IsLondon:         c.IsLondon(num),
		IsMerge:          isMerge,
		IsShanghai:       isMerge && c.IsShanghai(num, timestamp),
		IsCancun:         isMerge && c.IsCancun(num, timestamp),
		IsPrague:         isMerge && c.IsPrague(num, timestamp),
	}
}
