// Package uint256 stands in for github.com/holiman/uint256, which is not
// available offline: 256-bit unsigned integers in four little-endian limbs.
// Everything that is not trivial is computed through math/big.
package uint256

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"math/bits"
)

type Int [4]uint64

var modulus = new(big.Int).Lsh(big.NewInt(1), 256)
var half = new(big.Int).Lsh(big.NewInt(1), 255)

func NewInt(v uint64) *Int { return &Int{v} }

func (z *Int) big() *big.Int { b := z.Bytes32(); return new(big.Int).SetBytes(b[:]) }

// signed value
func (z *Int) sbig() *big.Int {
	b := z.big()
	if b.Cmp(half) >= 0 {
		b.Sub(b, modulus)
	}
	return b
}
func (z *Int) ToBig() *big.Int {
	if z == nil {
		return nil
	}
	return z.big()
}
func (z *Int) SetFromBig(b *big.Int) bool {
	overflow := b.BitLen() > 256
	m := new(big.Int).Mod(b, modulus)
	var buf [32]byte
	m.FillBytes(buf[:])
	z.SetBytes32(buf[:])
	return overflow
}
func FromBig(b *big.Int) (*Int, bool) {
	if b == nil {
		return nil, false
	}
	z := new(Int)
	o := z.SetFromBig(b)
	return z, o
}
func MustFromBig(b *big.Int) *Int {
	z, o := FromBig(b)
	if o {
		panic("overflow")
	}
	return z
}
func FromDecimal(s string) (*Int, error) {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok || b.Sign() < 0 {
		return nil, errors.New("invalid decimal")
	}
	z, o := FromBig(b)
	if o {
		return nil, errors.New("decimal number > 256 bits")
	}
	return z, nil
}
func MustFromDecimal(s string) *Int {
	z, err := FromDecimal(s)
	if err != nil {
		panic(err)
	}
	return z
}
func FromHex(s string) (*Int, error) {
	if len(s) < 3 || s[:2] != "0x" {
		return nil, errors.New("invalid hex")
	}
	b, ok := new(big.Int).SetString(s[2:], 16)
	if !ok {
		return nil, errors.New("invalid hex")
	}
	z, o := FromBig(b)
	if o {
		return nil, errors.New("hex number > 256 bits")
	}
	return z, nil
}
func MustFromHex(s string) *Int {
	z, err := FromHex(s)
	if err != nil {
		panic(err)
	}
	return z
}
func (z *Int) Dec() string    { return z.big().String() }
func (z *Int) String() string { return z.Dec() }
func (z *Int) Hex() string    { return fmt.Sprintf("0x%x", z.big()) }
func (z *Int) Format(s fmt.State, ch rune) {
	z.big().Format(s, ch)
}

func (z *Int) SetBytes(b []byte) *Int {
	if len(b) > 32 {
		b = b[len(b)-32:]
	}
	var buf [32]byte
	copy(buf[32-len(b):], b)
	return z.SetBytes32(buf[:])
}
func (z *Int) SetBytes32(in []byte) *Int {
	_ = in[31]
	z[3] = binary.BigEndian.Uint64(in[0:8])
	z[2] = binary.BigEndian.Uint64(in[8:16])
	z[1] = binary.BigEndian.Uint64(in[16:24])
	z[0] = binary.BigEndian.Uint64(in[24:32])
	return z
}
func (z *Int) SetBytes20(in []byte) *Int { _ = in[19]; return z.SetBytes(in[0:20]) }
func (z *Int) Bytes32() (b [32]byte) {
	binary.BigEndian.PutUint64(b[0:8], z[3])
	binary.BigEndian.PutUint64(b[8:16], z[2])
	binary.BigEndian.PutUint64(b[16:24], z[1])
	binary.BigEndian.PutUint64(b[24:32], z[0])
	return
}
func (z *Int) Bytes20() (b [20]byte) {
	x := z.Bytes32()
	copy(b[:], x[12:])
	return
}
func (z *Int) Bytes() []byte {
	b := z.Bytes32()
	return b[32-z.ByteLen():]
}
func (z *Int) PutUint256(dest []byte) { b := z.Bytes32(); copy(dest[:32], b[:]) }
func (z *Int) WriteToSlice(dest []byte) {
	b := z.Bytes32()
	for i := 0; i < len(dest) && i < 32; i++ {
		dest[len(dest)-1-i] = b[31-i]
	}
}
func (z *Int) BitLen() int {
	for i := 3; i >= 0; i-- {
		if z[i] != 0 {
			return i*64 + bits.Len64(z[i])
		}
	}
	return 0
}
func (z *Int) ByteLen() int                         { return (z.BitLen() + 7) / 8 }
func (z *Int) Clone() *Int                          { c := *z; return &c }
func (z *Int) Set(x *Int) *Int                      { *z = *x; return z }
func (z *Int) SetUint64(x uint64) *Int              { *z = Int{x}; return z }
func (z *Int) SetOne() *Int                         { *z = Int{1}; return z }
func (z *Int) Clear() *Int                          { *z = Int{}; return z }
func (z *Int) SetAllOne() *Int                      { *z = Int{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}; return z }
func (z *Int) IsZero() bool                         { return *z == Int{} }
func (z *Int) IsUint64() bool                       { return z[1]|z[2]|z[3] == 0 }
func (z *Int) Uint64() uint64                       { return z[0] }
func (z *Int) Uint64WithOverflow() (uint64, bool)   { return z[0], !z.IsUint64() }
func (z *Int) Eq(x *Int) bool                       { return *z == *x }
func (z *Int) LtUint64(n uint64) bool               { return z.IsUint64() && z[0] < n }
func (z *Int) GtUint64(n uint64) bool               { return !z.IsUint64() || z[0] > n }
func (z *Int) Cmp(x *Int) int {
	for i := 3; i >= 0; i-- {
		if z[i] < x[i] {
			return -1
		}
		if z[i] > x[i] {
			return 1
		}
	}
	return 0
}
func (z *Int) CmpUint64(x uint64) int { return z.Cmp(NewInt(x)) }
func (z *Int) Lt(x *Int) bool         { return z.Cmp(x) < 0 }
func (z *Int) Gt(x *Int) bool         { return z.Cmp(x) > 0 }
func (z *Int) Sign() int {
	if z.IsZero() {
		return 0
	}
	if z[3]>>63 != 0 {
		return -1
	}
	return 1
}
func (z *Int) Slt(x *Int) bool { return z.sbig().Cmp(x.sbig()) < 0 }
func (z *Int) Sgt(x *Int) bool { return z.sbig().Cmp(x.sbig()) > 0 }

func (z *Int) AddOverflow(x, y *Int) (*Int, bool) {
	var c uint64
	for i := 0; i < 4; i++ {
		z[i], c = bits.Add64(x[i], y[i], c)
	}
	return z, c != 0
}
func (z *Int) Add(x, y *Int) *Int { z.AddOverflow(x, y); return z }
func (z *Int) AddUint64(x *Int, y uint64) *Int {
	return z.Add(x, NewInt(y))
}
func (z *Int) SubOverflow(x, y *Int) (*Int, bool) {
	var c uint64
	for i := 0; i < 4; i++ {
		z[i], c = bits.Sub64(x[i], y[i], c)
	}
	return z, c != 0
}
func (z *Int) Sub(x, y *Int) *Int              { z.SubOverflow(x, y); return z }
func (z *Int) SubUint64(x *Int, y uint64) *Int { return z.Sub(x, NewInt(y)) }
func (z *Int) Neg(x *Int) *Int                 { return z.Sub(new(Int), x) }
func (z *Int) Abs(x *Int) *Int {
	if x.Sign() < 0 {
		return z.Neg(x)
	}
	return z.Set(x)
}
func (z *Int) from(b *big.Int) *Int { z.SetFromBig(b); return z }
func (z *Int) Mul(x, y *Int) *Int   { return z.from(new(big.Int).Mul(x.big(), y.big())) }
func (z *Int) MulOverflow(x, y *Int) (*Int, bool) {
	p := new(big.Int).Mul(x.big(), y.big())
	return z, z.SetFromBig(p)
}
func (z *Int) Div(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	return z.from(new(big.Int).Quo(x.big(), y.big()))
}
func (z *Int) Mod(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	return z.from(new(big.Int).Rem(x.big(), y.big()))
}
func (z *Int) DivMod(x, y, m *Int) (*Int, *Int) {
	q, r := new(Int).Div(x, y), new(Int).Mod(x, y)
	*z, *m = *q, *r
	return z, m
}
func (z *Int) SDiv(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	return z.from(new(big.Int).Quo(x.sbig(), y.sbig()))
}
func (z *Int) SMod(x, y *Int) *Int {
	if y.IsZero() {
		return z.Clear()
	}
	return z.from(new(big.Int).Rem(x.sbig(), y.sbig()))
}
func (z *Int) AddMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	s := new(big.Int).Add(x.big(), y.big())
	return z.from(s.Rem(s, m.big()))
}
func (z *Int) MulMod(x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	s := new(big.Int).Mul(x.big(), y.big())
	return z.from(s.Rem(s, m.big()))
}
func (z *Int) Exp(base, exponent *Int) *Int {
	return z.from(new(big.Int).Exp(base.big(), exponent.big(), modulus))
}
func (z *Int) And(x, y *Int) *Int {
	*z = Int{x[0] & y[0], x[1] & y[1], x[2] & y[2], x[3] & y[3]}
	return z
}
func (z *Int) Or(x, y *Int) *Int {
	*z = Int{x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]}
	return z
}
func (z *Int) Xor(x, y *Int) *Int {
	*z = Int{x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]}
	return z
}
func (z *Int) Not(x *Int) *Int {
	*z = Int{^x[0], ^x[1], ^x[2], ^x[3]}
	return z
}
func (z *Int) Lsh(x *Int, n uint) *Int {
	if n >= 256 {
		return z.Clear()
	}
	return z.from(new(big.Int).Lsh(x.big(), n))
}
func (z *Int) Rsh(x *Int, n uint) *Int {
	if n >= 256 {
		return z.Clear()
	}
	return z.from(new(big.Int).Rsh(x.big(), n))
}
func (z *Int) SRsh(x *Int, n uint) *Int {
	if n > 256 {
		n = 256
	}
	return z.from(new(big.Int).Rsh(x.sbig(), n))
}
func (z *Int) Byte(n *Int) *Int {
	if !n.LtUint64(32) {
		return z.Clear()
	}
	b := z.Bytes32()
	return z.SetUint64(uint64(b[n[0]]))
}
func (z *Int) ExtendSign(x, byteNum *Int) *Int {
	if byteNum.GtUint64(30) {
		return z.Set(x)
	}
	b := x.Bytes32()
	i := 31 - int(byteNum[0])
	f := byte(0)
	if b[i]&0x80 != 0 {
		f = 0xff
	}
	for j := 0; j < i; j++ {
		b[j] = f
	}
	return z.SetBytes32(b[:])
}
func (z *Int) MarshalText() ([]byte, error) { return []byte(z.Dec()), nil }
func (z *Int) UnmarshalText(in []byte) error {
	v, err := FromDecimal(string(in))
	if err != nil {
		v, err = FromHex(string(in))
	}
	if err == nil {
		*z = *v
	}
	return err
}
