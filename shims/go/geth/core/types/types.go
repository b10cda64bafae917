// Package types is a stand-in for the parts of go-ethereum's package of that
// name that the repository's geth adapter and processors use.
package types

import "github.com/ethereum/go-ethereum/common"

type Log struct {
	Address     common.Address
	Topics      []common.Hash
	Data        []byte
	BlockNumber uint64
}

type AccessTuple struct {
	Address     common.Address
	StorageKeys []common.Hash
}

type AccessList []AccessTuple

// EmptyCodeHash is the hash of the empty byte sequence.
var EmptyCodeHash = common.HexToHash("c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470")
