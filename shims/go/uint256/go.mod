module github.com/holiman/uint256

go 1.21
