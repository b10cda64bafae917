// Package abi is a stand-in for the parts of go-ethereum's package of that
// name that the repository's processors use: the identifiers of methods.
package abi

import (
	"encoding/json"
	"io"
	"strings"

	"github.com/ethereum/go-ethereum/crypto"
)

type Method struct {
	Name    string
	RawName string
	Sig     string
	ID      []byte
}

type ABI struct {
	Methods map[string]Method
}

func JSON(reader io.Reader) (ABI, error) {
	var fields []struct {
		Type   string
		Name   string
		Inputs []struct{ Type string }
	}
	if err := json.NewDecoder(reader).Decode(&fields); err != nil {
		return ABI{}, err
	}
	res := ABI{Methods: map[string]Method{}}
	for _, f := range fields {
		if f.Type != "function" {
			continue
		}
		var types []string
		for _, i := range f.Inputs {
			types = append(types, i.Type)
		}
		sig := f.Name + "(" + strings.Join(types, ",") + ")"
		res.Methods[f.Name] = Method{Name: f.Name, RawName: f.Name, Sig: sig, ID: crypto.Keccak256([]byte(sig))[:4]}
	}
	return res, nil
}
