package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strconv"

	"github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/tosca"
	rnd2 "pgregory.net/rand"
)

func u(w [32]byte) common.U256 { return common.NewU256FromBytes(w[:]...) }
func tw(x common.U256) string {
	b := x.Bytes32be()
	return trim(b[:])
}

func init() {
	values = func(r *rand.Rand, n int) {
		bin := map[string]func(a, b common.U256) common.U256{
			"add": common.U256.Add, "sub": common.U256.Sub, "mul": common.U256.Mul, "div": common.U256.Div, "sdiv": common.U256.SDiv, "mod": common.U256.Mod, "smod": common.U256.SMod,
			"exp": common.U256.Exp, "signext": common.U256.SignExtend, "and": common.U256.And, "or": common.U256.Or, "xor": common.U256.Xor, "shl": common.U256.Shl, "shr": common.U256.Shr, "sar": common.U256.Srsh,
		}
		rel := map[string]func(a, b common.U256) bool{"lt": common.U256.Lt, "gt": common.U256.Gt, "slt": common.U256.Slt, "sgt": common.U256.Sgt, "eq": common.U256.Eq, "ne": common.U256.Ne}
		tri := map[string]func(a, b, m common.U256) common.U256{"addmod": common.U256.AddMod, "mulmod": common.U256.MulMod}
		for i := 0; i < n; i++ {
			for _, op := range []string{"add", "sub", "mul", "div", "sdiv", "mod", "smod", "exp", "signext", "and", "or", "xor", "shl", "shr", "sar"} {
				a, b := word(r), word(r)
				if op == "exp" && i%8 > 0 {
					b = [32]byte{31: byte(r.Intn(256))}
				}
				if (op == "signext" || op == "shl" || op == "shr" || op == "sar") && r.Intn(4) > 0 {
					b = [32]byte{31: byte(r.Intn(256))}
					if op == "signext" {
						b[31] %= 34
					} else if r.Intn(8) == 0 {
						b = [32]byte{30: 1, 31: byte(r.Intn(2))}
					}
				}
				if (op == "sdiv" || op == "div") && r.Intn(20) == 0 {
					a = [32]byte{0: 0x80}
					for j := range b {
						b[j] = 0xff
					}
				}
				rec(op, "a", trim(a[:]), "b", trim(b[:]), "r", tw(bin[op](u(a), u(b))))
			}
			for _, op := range []string{"lt", "gt", "slt", "sgt", "eq", "ne"} {
				a, b := word(r), word(r)
				if r.Intn(3) == 0 {
					b = a
				}
				if r.Intn(3) == 0 {
					b = a
					b[r.Intn(32)] ^= 1 << r.Intn(8)
				}
				rec("rel", "op", strconv.Quote(op), "a", trim(a[:]), "b", trim(b[:]), "r", rel[op](u(a), u(b)))
			}
			for _, op := range []string{"addmod", "mulmod"} {
				a, b, m := word(r), word(r), word(r)
				rec(op, "a", trim(a[:]), "b", trim(b[:]), "m", trim(m[:]), "r", tw(tri[op](u(a), u(b), u(m))))
			}
			a := word(r)
			x := u(a)
			nt := x.Not()
			rec("not", "a", trim(a[:]), "r", tw(nt))
			rec("num", "a", trim(a[:]), "r", trim(x.ToBigInt().Bytes()))
			rec("num", "a", trim(a[:]), "r", tw(common.NewU256FromBigInt(new(big.Int).SetBytes(a[:]))))
			rec("dec", "a", trim(a[:]), "s", list([]byte(x.DecimalString())))
			b20 := x.Bytes20be()
			rec("low20", "a", trim(a[:]), "r", trim(b20[:]))
			ad := common.NewAddress(x)
			rec("low20", "a", trim(a[:]), "r", trim(ad[:]))
			rec("num", "a", trim(ad[:]), "r", tw(common.AddressToU256(ad)))
			rec("flags", "a", trim(a[:]), "zero", x.IsZero(), "u64", x.IsUint64())
			if x.IsUint64() {
				rec("num", "a", trim(a[:]), "r", u64(x.Uint64()))
			}
			args := make([]uint64, r.Intn(5))
			l := ""
			for j := range args {
				args[j] = small(r)
				if j > 0 {
					l += ","
				}
				l += u64(args[j])
			}
			v := common.NewU256(args...).Bytes32be()
			rec("new", "args", "["+l+"]", "r", list(v[:]))
			// text
			t, _ := x.MarshalText()
			rec("utext", "a", list(a[:]), "s", list(t))
			for k := 0; k < 3; k++ {
				s := t
				if k > 0 {
					s = mutate(r, t)
				}
				y := u([32]byte{31: 7})
				err := y.UnmarshalText(append([]byte{}, s...))
				z := y.Bytes32be()
				rec("uparse", "s", list(s), "ok", err == nil, "r", list(z[:]))
			}
			// bytes
			data := make([]byte, r.Intn(40))
			r.Read(data)
			bs := common.NewBytes(data)
			enc, err := json.Marshal(bs)
			var dec common.Bytes
			err2 := json.Unmarshal(enc, &dec)
			rec("bytes", "a", list(data), "ok", err == nil && err2 == nil, "r", list(dec.ToBytes()), "n", bs.Length(), "s", list([]byte(bs.String())))
			lo := r.Intn(len(data) + 1)
			hi := lo + r.Intn(len(data)+1-lo)
			rec("slice", "a", list(data), "lo", lo, "hi", hi, "r", list(bs.Get(uint64(lo), uint64(hi))))
			size := r.Intn(50)
			rec("pad", "side", `"right"`, "a", list(data), "n", size, "r", list(common.RightPadSlice(data, size)))
			rec("pad", "side", `"left"`, "a", list(data), "n", size, "r", list(common.LeftPadSlice(data, size)))
			// a range
			lo2, hi2 := x, u(word(r))
			if lo2.Gt(hi2) {
				lo2, hi2 = hi2, lo2
			}
			rec("between", "a", tw(lo2), "b", tw(hi2), "r", tw(common.RandU256Between(rnd2.New(r.Uint64()), lo2, hi2)))
		}
		for _, d := range []int64{0, 1, 500, 998, 999} {
			for k := int64(0); k < 9; k++ {
				b := uint64(1000*k + d)
				rec("block", "n", b, "r", int(common.GetRevisionForBlock(b)))
			}
		}
		for _, b := range []uint64{1 << 31, 1<<63 + 5, ^uint64(0)} {
			rec("bigblock", "n", strconv.Quote(fmt.Sprint(b)), "r", int(common.GetRevisionForBlock(b)))
		}
		for _, rv := range tosca.GetAllKnownRevisions() {
			l, err := common.GetBlockRangeLengthFor(rv)
			rec("fork", "rev", int(rv), "block", common.GetForkBlock(rv), "time", common.GetForkTime(rv), "ok", err == nil, "len", min(l, 1000000))
		}
		// arrays of hashes
		for i := 0; i < 20; i++ {
			h := make([]tosca.Hash, r.Intn(258))
			for j := range h {
				h[j] = tosca.Hash(word(r))
			}
			a := common.NewImmutableHashArray(h...)
			for k := 0; k < 6; k++ {
				j := r.Intn(256)
				want := tosca.Hash{}
				if j < len(h) {
					want = h[j]
				}
				g := a.Get(uint64(j))
				rec("num", "a", trim(want[:]), "r", trim(g[:]))
			}
			if len(h) > 0 && len(h) <= 256 {
				h2 := append([]tosca.Hash{}, h...)
				same := a.Equal(common.NewImmutableHashArray(h2...))
				h2[r.Intn(len(h))][r.Intn(32)] ^= 1
				rec("hashes", "same", same, "other", a.Equal(common.NewImmutableHashArray(h2...)))
			}
			enc, err := json.Marshal(a)
			var d common.ImmutableHashArray
			err2 := json.Unmarshal(enc, &d)
			rec("hashes", "same", err == nil && err2 == nil && d.Equal(a), "other", false)
			// the array is not changed through the values it was created from
			if len(h) > 0 {
				b := common.NewImmutableHashArray(h...)
				h[0][5] ^= 1
				rec("hashes", "same", a.Equal(b), "other", false)
			}
		}
		var none common.ImmutableHashArray
		rec("hashes", "same", none.Equal(common.NewImmutableHashArray()) && common.NewImmutableHashArray().Equal(none), "other", none.Equal(common.NewImmutableHashArray(tosca.Hash{1})))
		rec("panic", "want", true, "got", catch(func() { none.Get(256) }))
		rec("panic", "want", true, "got", catch(func() { common.NewU256(1, 2, 3, 4, 5) }))
	}
}
