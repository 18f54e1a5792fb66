module verif/harness

go 1.26.0

require (
	github.com/btcsuite/btcd v0.20.1-beta
	github.com/ndau/ndaumath v0.0.0
	github.com/tinylib/msgp v1.1.0
)

require (
	github.com/ericlagergren/decimal v0.0.0 // indirect
	github.com/philhofer/fwd v1.0.0 // indirect
	github.com/pkg/errors v0.8.1 // indirect
	github.com/sigurn/crc16 v0.0.0-20211026045750-20ab5afb07e3 // indirect
	golang.org/x/crypto v0.58.0 // indirect
)

replace github.com/ndau/ndaumath => /repo

replace github.com/ericlagergren/decimal => ../shim/decimal
