// Package vm is a stand-in for the parts of go-ethereum's package of that name
// that the processor floria uses: tables of precompiled contracts.  The
// contracts are artificial ones, whose cost and result Floria.tla defines; the
// tables have the domains of the original ones.
package vm

import (
	"errors"
	"math"

	"github.com/ethereum/go-ethereum/common"
)

type PrecompiledContract interface {
	RequiredGas(input []byte) uint64
	Run(input []byte) ([]byte, error)
}


// contract costs base plus 3 per byte of input, or more than there can ever be
// if the input begins with 254, fails if it begins with 255, and otherwise
// returns its number and the input.
type contract struct {
	number byte
	base   uint64
}

func (c contract) RequiredGas(input []byte) uint64 {
	if len(input) > 0 && input[0] == 254 {
		return math.MaxUint64
	}
	return c.base + 3*uint64(len(input))
}

func (c contract) Run(input []byte) ([]byte, error) {
	if len(input) > 0 && input[0] == 255 {
		return nil, errors.New("invalid input")
	}
	return append([]byte{c.number}, input...), nil
}

func table(n byte, fork uint64) map[common.Address]PrecompiledContract {
	res := map[common.Address]PrecompiledContract{}
	for i := byte(1); i <= n; i++ {
		res[common.BytesToAddress([]byte{i})] = contract{i, fork + 100*uint64(i)}
	}
	return res
}

func addresses(n byte) (res []common.Address) {
	for i := byte(1); i <= n; i++ {
		res = append(res, common.BytesToAddress([]byte{i}))
	}
	return
}

var (
	PrecompiledContractsHomestead = table(4, 10)
	PrecompiledContractsByzantium = table(8, 20)
	PrecompiledContractsIstanbul  = table(9, 30)
	PrecompiledContractsBerlin    = table(9, 40)
	PrecompiledContractsCancun    = table(10, 50)
	PrecompiledContractsPrague    = table(19, 60)

	PrecompiledAddressesHomestead = addresses(4)
	PrecompiledAddressesByzantium = addresses(8)
	PrecompiledAddressesIstanbul  = addresses(9)
	PrecompiledAddressesBerlin    = addresses(9)
	PrecompiledAddressesCancun    = addresses(10)
	PrecompiledAddressesPrague    = addresses(19)
)
