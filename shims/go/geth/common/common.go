// Package common is a stand-in for the parts of go-ethereum's package of that
// name that the repository's processors use.
package common

import (
	"encoding/hex"
	"math/big"
	"strings"
)

const (
	HashLength    = 32
	AddressLength = 20
)

var (
	Big0   = big.NewInt(0)
	Big1   = big.NewInt(1)
	Big2   = big.NewInt(2)
	Big3   = big.NewInt(3)
	Big32  = big.NewInt(32)
	Big256 = big.NewInt(256)
	Big257 = big.NewInt(257)
)

type Address [AddressLength]byte
type Hash [HashLength]byte

func tail(dst, b []byte) {
	if len(b) > len(dst) {
		b = b[len(b)-len(dst):]
	}
	copy(dst[len(dst)-len(b):], b)
}

func BytesToAddress(b []byte) (a Address)    { tail(a[:], b); return }
func BytesToHash(b []byte) (h Hash)          { tail(h[:], b); return }
func BigToAddress(b *big.Int) Address        { return BytesToAddress(b.Bytes()) }
func BigToHash(b *big.Int) Hash              { return BytesToHash(b.Bytes()) }
func HexToAddress(s string) Address          { return BytesToAddress(FromHex(s)) }
func HexToHash(s string) Hash                { return BytesToHash(FromHex(s)) }
func (a Address) Bytes() []byte              { return a[:] }
func (a Address) Big() *big.Int              { return new(big.Int).SetBytes(a[:]) }
func (a Address) Hex() string                { return "0x" + hex.EncodeToString(a[:]) }
func (a Address) String() string             { return a.Hex() }
func (a Address) Cmp(o Address) int          { return strings.Compare(string(a[:]), string(o[:])) }
func (h Hash) Bytes() []byte                 { return h[:] }
func (h Hash) Big() *big.Int                 { return new(big.Int).SetBytes(h[:]) }
func (h Hash) Hex() string                   { return "0x" + hex.EncodeToString(h[:]) }
func (h Hash) String() string                { return h.Hex() }
func (h Hash) Cmp(o Hash) int                { return strings.Compare(string(h[:]), string(o[:])) }
func (a *Address) SetBytes(b []byte)         { *a = BytesToAddress(b) }
func (h *Hash) SetBytes(b []byte)            { *h = BytesToHash(b) }
func Bytes2Hex(b []byte) string              { return hex.EncodeToString(b) }
func Hex2Bytes(s string) []byte              { b, _ := hex.DecodeString(s); return b }
func CopyBytes(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func FromHex(s string) []byte {
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
		s = s[2:]
	}
	if len(s)%2 == 1 {
		s = "0" + s
	}
	return Hex2Bytes(s)
}

func LeftPadBytes(s []byte, l int) []byte {
	if l <= len(s) {
		return s
	}
	r := make([]byte, l)
	copy(r[l-len(s):], s)
	return r
}

func RightPadBytes(s []byte, l int) []byte {
	if l <= len(s) {
		return s
	}
	r := make([]byte, l)
	copy(r, s)
	return r
}
