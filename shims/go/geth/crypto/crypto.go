// Package crypto is a stand-in for the parts of go-ethereum's package of that
// name that the repository's processors use.
package crypto

import (
	"github.com/ethereum/go-ethereum/common"
	"golang.org/x/crypto/sha3"
)

func Keccak256(data ...[]byte) []byte {
	h := sha3.NewLegacyKeccak256()
	for _, d := range data {
		h.Write(d)
	}
	return h.Sum(nil)
}

func Keccak256Hash(data ...[]byte) common.Hash { return common.BytesToHash(Keccak256(data...)) }

// CreateAddress is the hash of the recursive length prefix encoding of the
// creator's address and nonce.
func CreateAddress(b common.Address, nonce uint64) common.Address {
	var n []byte
	for x := nonce; x > 0; x >>= 8 {
		n = append([]byte{byte(x)}, n...)
	}
	if len(n) != 1 || n[0] >= 0x80 {
		n = append([]byte{0x80 + byte(len(n))}, n...)
	}
	list := append(append([]byte{0x80 + 20}, b[:]...), n...)
	return common.BytesToAddress(Keccak256([]byte{0xc0 + byte(len(list))}, list)[12:])
}

func CreateAddress2(b common.Address, salt [32]byte, inithash []byte) common.Address {
	return common.BytesToAddress(Keccak256([]byte{0xff}, b[:], salt[:], inithash)[12:])
}
