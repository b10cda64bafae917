// Records what the value types of go/tosca and go/ct/common compute, one JSON
// record per call.
//
//	types amounts|storage|text|values SEED N
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

var out = bufio.NewWriterSize(os.Stdout, 1<<20)

func list(b []byte) string {
	s := make([]string, len(b))
	for i, x := range b {
		s[i] = strconv.Itoa(int(x))
	}
	return "[" + strings.Join(s, ",") + "]"
}
func trim(b []byte) string {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return list(b)
}
func u64(x uint64) string {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], x)
	return trim(b[:])
}
func rec(f string, kv ...any) {
	fmt.Fprintf(out, `{"f":"%s"`, f)
	for i := 0; i < len(kv); i += 2 {
		fmt.Fprintf(out, `,"%s":%v`, kv[i], kv[i+1])
	}
	out.WriteString("}\n")
}

// catch tells whether f panics.
func catch(f func()) (bad bool) {
	defer func() {
		if recover() != nil {
			bad = true
		}
	}()
	f()
	return
}

func word(r *rand.Rand) (v [32]byte) {
	switch r.Intn(9) {
	case 0:
		v[31] = byte(r.Intn(4))
	case 1:
		r.Read(v[:])
	case 2: // limbs at their limits
		for i := 0; i < 4; i++ {
			binary.BigEndian.PutUint64(v[8*i:], []uint64{0, 1, 1 << 63, ^uint64(0), ^uint64(0) - 1, r.Uint64()}[r.Intn(6)])
		}
	case 3:
		v[r.Intn(32)] = 1 << r.Intn(8)
	case 4:
		for i := range v {
			v[i] = 0xff
		}
		if r.Intn(2) == 0 {
			v[r.Intn(32)] ^= 1 << r.Intn(8)
		}
	case 5:
		r.Read(v[r.Intn(32):])
	case 6:
		i := r.Intn(32)
		for j := i; j < 32; j++ {
			v[j] = 0xff
		}
	case 7:
		v[0] = 0x80
		v[31] = byte(r.Intn(3))
	default:
		r.Read(v[:])
		binary.BigEndian.PutUint64(v[8*r.Intn(4):], 0)
	}
	return
}
func small(r *rand.Rand) uint64 {
	return []uint64{0, 1, 2, 3, 31, 32, 255, 256, 1 << 31, 1 << 32, 1<<32 - 1, 1 << 63, ^uint64(0), ^uint64(0) - 1, r.Uint64(), uint64(r.Uint32()), uint64(r.Intn(1000))}[r.Intn(17)]
}

func amounts(r *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		a, b := tosca.Value(word(r)), tosca.Value(word(r))
		switch r.Intn(8) {
		case 0:
			b = a
		case 1:
			b = a
			b[r.Intn(32)] ^= 1
		}
		s := small(r)
		sum, diff, sc := tosca.Add(a, b), tosca.Sub(a, b), a.Scale(s)
		rec("add", "a", trim(a[:]), "b", trim(b[:]), "r", trim(sum[:]))
		rec("sub", "a", trim(a[:]), "b", trim(b[:]), "r", trim(diff[:]))
		if i%3 == 0 {
			rec("scale", "a", trim(a[:]), "b", u64(s), "r", trim(sc[:]))
			rec("cmp", "a", trim(a[:]), "b", trim(b[:]), "r", a.Cmp(b))
			args := make([]uint64, r.Intn(5))
			for j := range args {
				args[j] = small(r)
			}
			v := tosca.NewValue(args...)
			l := make([]string, len(args))
			for j := range args {
				l[j] = u64(args[j])
			}
			rec("new", "args", "["+strings.Join(l, ",")+"]", "r", list(v[:]))
		}
		if i%4 == 0 {
			rec("num", "a", trim(a[:]), "r", trim(a.ToBig().Bytes()))
			u := a.ToUint256().Bytes32()
			rec("num", "a", trim(a[:]), "r", trim(u[:]))
			w := tosca.ValueFromUint256(new(uint256.Int).SetBytes(a[:]))
			rec("num", "a", trim(a[:]), "r", trim(w[:]))
			rec("dec", "a", trim(a[:]), "s", list([]byte(a.String())))
			rec("num", "a", trim(a[:]), "r", trim(bigFrom(a.String())))
		}
	}
	z := tosca.ValueFromUint256(nil)
	rec("num", "a", "[]", "r", trim(z[:]))
	rec("panic", "want", true, "got", catch(func() { tosca.NewValue(0, 0, 0, 0, 1) }))
}
func bigFrom(s string) []byte {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return []byte{1, 2, 3}
	}
	return b.Bytes()
}

func storage(r *rand.Rand, n int) {
	pool := [][32]byte{{}, {31: 1}, {0: 1}, {31: 2}, {0: 0x80}, {16: 1}}
	for i := 0; i < n; i++ {
		pool = pool[:6]
		for j := 0; j < 2; j++ {
			w := word(r)
			pool = append(pool, w)
			w[r.Intn(32)] ^= 1 << r.Intn(8)
			pool = append(pool, w)
		}
		if i < 1 {
			for _, o := range pool {
				for _, c := range pool {
					for _, x := range pool {
						status(o, c, x)
					}
				}
			}
			continue
		}
		p := func() [32]byte { return pool[r.Intn(len(pool))] }
		status(p(), p(), p())
		o := p()
		status(o, o, p())
		status(o, p(), o)
	}
	for _, s := range tosca.GetAllStorageStatuses() {
		rec("statusname", "n", int(s), "name", strconv.Quote(s.String()))
	}
	rec("statuses", "n", len(tosca.GetAllStorageStatuses()))
	for i := 0; i < n; i++ {
		size := small(r)
		switch r.Intn(3) {
		case 0:
			size += uint64(r.Intn(70)) - 35
		case 1:
			size = uint64(1)<<r.Intn(64) + uint64(r.Intn(66)) - 33
		}
		rec("words", "a", u64(size), "r", u64(tosca.SizeInWords(size)))
	}
	for i := uint64(0); i < 200; i++ {
		rec("words", "a", u64(i), "r", u64(tosca.SizeInWords(i)))
		rec("words", "a", u64(^i), "r", u64(tosca.SizeInWords(^i)))
	}
}
func status(o, c, n [32]byte) {
	rec("status", "o", trim(o[:]), "c", trim(c[:]), "n", trim(n[:]), "r", strconv.Quote(tosca.GetStorageStatus(o, c, n).String()))
}

const hexdigits = "0123456789abcdefABCDEF"

// mutate changes an encoding in one place or more.
func mutate(r *rand.Rand, s []byte) []byte {
	s = append([]byte{}, s...)
	for k := 0; k <= r.Intn(2); k++ {
		if len(s) == 0 {
			return s
		}
		i := r.Intn(len(s))
		switch r.Intn(9) {
		case 0:
			s = append(s[:i], s[i+1:]...)
		case 1:
			s = append(s[:i], append([]byte{hexdigits[r.Intn(22)]}, s[i:]...)...)
		case 2:
			s[i] = "gG xX/:@`-_+\x00\x80"[r.Intn(14)]
		case 3:
			s[i] = hexdigits[r.Intn(22)]
		case 4:
			s = s[:i]
		case 5:
			s = append(s, " 0x\n"[r.Intn(4)])
		case 6:
			s = append([]byte(" \t0x"[r.Intn(4):]), s...)
		case 7:
			s[i] ^= 0x20
		case 8:
			s = append(s, s[i:]...)
		}
	}
	return s
}

func parse(width int, text []byte) {
	var err error
	before := make([]byte, width)
	for i := range before {
		before[i] = byte(i + 100)
	}
	after := append([]byte{}, before...)
	in := append([]byte{}, text...)
	if width == 20 {
		var a tosca.Address
		copy(a[:], before)
		err = a.UnmarshalText(in)
		copy(after, a[:])
	} else {
		var a tosca.Value
		copy(a[:], before)
		err = a.UnmarshalText(in)
		copy(after, a[:])
	}
	rec("parse", "w", width, "s", list(text), "ok", err == nil, "before", list(before), "r", list(after))
}

func texts(r *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		w := word(r)
		a := tosca.Address(w[12:])
		if r.Intn(2) == 0 {
			copy(a[:], w[:20])
		}
		ta, _ := a.MarshalText()
		tv, _ := tosca.Value(w).MarshalText()
		rec("text", "a", list(a[:]), "s", list(ta))
		rec("text", "a", list(w[:]), "s", list(tv))
		rec("text", "a", list(a[:]), "s", list([]byte(a.String())))
		rec("text", "a", list(w[:]), "s", list([]byte(tosca.Key(w).String())))
		rec("text", "a", list(w[:]), "s", list([]byte(tosca.Word(w).String())))
		parse(20, ta)
		parse(32, tv)
		parse(20, mutate(r, ta))
		parse(32, mutate(r, tv))
		if r.Intn(8) == 0 {
			parse(20, tv)
			parse(32, ta)
			parse(20, []byte(strings.ToUpper(string(ta))))
			parse(32, append([]byte("0x"), strings.ToUpper(string(tv[2:]))...))
		}
	}
	for _, s := range []string{"", "0", "0x", "x", "0X", "null", "0x0"} {
		parse(20, []byte(s))
		parse(32, []byte(s))
	}
	// revisions
	for i := 0; i < 120; i++ {
		k := i
		if i > 60 {
			k = r.Intn(1 << 31)
		}
		b, err := tosca.Revision(k).MarshalJSON()
		var s string
		if json.Unmarshal(b, &s) != nil || err != nil {
			s = "?"
		}
		rec("rev", "n", k, "s", list([]byte(s)))
		rec("rev", "n", k, "s", list([]byte(tosca.Revision(k).String())))
		revparse(s)
		revparse(string(mutate(r, []byte(s))))
	}
	names := []string{"Istanbul", "Berlin", "London", "Paris", "Shanghai", "Cancun", "Revision(0)", "Revision(5)", "Revision(99)", "Revision(007)"}
	for _, s := range append(names, "", "istanbul", "BERLIN", "Prague", "Revision", "Revision()", "Revision(-1)", "Revision(1", "Revision 1", "XRevision(1)", "Revision(1)X", " Paris", "Paris ",
		"Revision(1)Revision(2)", "Revision(99999999999999999999999999)", "Revision(9223372036854775807)", "Revision(9223372036854775808)", "Revision(18446744073709551616)", "Revision(1)\n", "Revision(0x1)") {
		revparse(s)
	}
	for i := 0; i < n/3; i++ {
		revparse(string(mutate(r, []byte(names[r.Intn(len(names))]))))
	}
	raws := []string{`null`, `1`, `true`, `{}`, `[]`, `"`, ``, `["Paris"]`, `Paris`, `"Paris" "x"`, `"call" 1`, `call`, `["call"]`, `-1`, `0.5`}
	for _, s := range raws {
		rv := tosca.Revision(77)
		var err error
		bad := catch(func() { err = rv.UnmarshalJSON([]byte(s)) })
		rec("raw", "what", `"revision"`, "ok", err == nil && !bad, "same", rv == 77)
		kd := tosca.CallKind(77)
		err = kd.UnmarshalJSON([]byte(s))
		rec("raw", "what", `"kind"`, "ok", err == nil, "same", kd == 77)
	}
	known := []string{}
	for _, x := range tosca.GetAllKnownRevisions() {
		known = append(known, strconv.Itoa(int(x)))
	}
	rec("revisions", "r", "["+strings.Join(known, ",")+"]")
	// call kinds
	kinds := []tosca.CallKind{tosca.Call, tosca.DelegateCall, tosca.StaticCall, tosca.CallCode, tosca.Create, tosca.Create2}
	for i := -2; i < 12; i++ {
		k := tosca.CallKind(i)
		name := "none"
		for j, x := range kinds {
			if x == k {
				name = []string{"call", "delegate_call", "static_call", "call_code", "create", "create2"}[j]
			}
		}
		b, err := k.MarshalJSON()
		s := ""
		if err == nil && json.Unmarshal(b, &s) != nil {
			s = "?"
		}
		rec("kind", "name", strconv.Quote(name), "ok", err == nil, "s", strconv.Quote(s), "text", strconv.Quote(k.String()))
	}
	words := []string{"call", "static_call", "delegate_call", "call_code", "create", "create2"}
	for _, s := range append(words, "", "staticcall", "STATIC_CALL", "Create2", "create3", "call ", "unknown", "callcode") {
		kindparse(s)
	}
	for i := 0; i < n/3; i++ {
		kindparse(string(mutate(r, []byte(words[r.Intn(6)]))))
	}
}
func revparse(s string) {
	q, _ := json.Marshal(s)
	json.Unmarshal(q, &s) // as decoded, for invalid characters
	rv := tosca.Revision(77)
	err := rv.UnmarshalJSON(q)
	shown := true
	if err != nil {
		shown = !catch(func() { _ = err.Error() })
	}
	rec("revparse", "s", list([]byte(s)), "ok", err == nil, "r", list([]byte(strconv.Itoa(int(rv)))), "shown", shown)
}
func kindparse(s string) {
	q, _ := json.Marshal(s)
	json.Unmarshal(q, &s)
	k := tosca.CallKind(77)
	err := k.UnmarshalJSON(q)
	got := "kept"
	if k != 77 {
		got = k.String()
	}
	rec("kindparse", "s", list([]byte(s)), "ok", err == nil, "r", strconv.Quote(got))
}

var values func(r *rand.Rand, n int)

func main() {
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	n, _ := strconv.Atoi(os.Args[3])
	r := rand.New(rand.NewSource(seed))
	switch os.Args[1] {
	case "amounts":
		amounts(r, n)
	case "storage":
		storage(r, n)
	case "text":
		texts(r, n)
	case "values":
		values(r, n)
	}
	out.Flush()
}
