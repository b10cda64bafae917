// Package tracing is a stand-in for go-ethereum's package of that name.
package tracing

type BalanceChangeReason byte

const (
	BalanceChangeUnspecified BalanceChangeReason = iota
	BalanceChangeTransfer
	BalanceChangeTouchAccount
	BalanceIncreaseSelfdestruct
	BalanceDecreaseSelfdestruct
)
