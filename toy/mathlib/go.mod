module github.com/IBM/mathlib

go 1.21

require (
	github.com/consensys/gnark-crypto v0.6.0
	github.com/hyperledger/fabric-amcl v0.0.0-20210603140002-2670f91851c8
	github.com/pkg/errors v0.8.1
	github.com/stretchr/testify v1.7.0
)
