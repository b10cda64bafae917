// Package utils is a stand-in for go-ethereum's package of that name.
package utils

type PointCache struct{}
