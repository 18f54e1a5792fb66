module github.com/ndau/ndaumath

go 1.26.0

require (
	github.com/btcsuite/btcd v0.20.1-beta
	github.com/pkg/errors v0.8.1
	github.com/sigurn/crc16 v0.0.0-20211026045750-20ab5afb07e3
	github.com/tinylib/msgp v1.1.0
	golang.org/x/crypto v0.58.0
)

require (
	github.com/aead/siphash v1.0.1 // indirect
	github.com/btcsuite/btclog v0.0.0-20170628155309-84c8d2346e9f // indirect
	github.com/btcsuite/btcutil v0.0.0-20190425235716-9e5f4b9a998d // indirect
	github.com/btcsuite/go-socks v0.0.0-20170105172521-4720035b7bfd // indirect
	github.com/btcsuite/goleveldb v0.0.0-20160330041536-7834afc9e8cd // indirect
	github.com/btcsuite/snappy-go v0.0.0-20151229074030-0bdef8d06723 // indirect
	github.com/btcsuite/websocket v0.0.0-20150119174127-31079b680792 // indirect
	github.com/btcsuite/winsvc v1.0.0 // indirect
	github.com/davecgh/go-spew v1.1.0 // indirect
	github.com/jessevdk/go-flags v0.0.0-20141203071132-1679536dcc89 // indirect
	github.com/jrick/logrotate v1.0.0 // indirect
	github.com/kkdai/bstream v0.0.0-20161212061736-f391b8402d23 // indirect
	github.com/philhofer/fwd v1.0.0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	github.com/stretchr/objx v0.1.0 // indirect
	github.com/stretchr/testify v1.4.0 // indirect
	github.com/ttacon/chalk v0.0.0-20160626202418-22c06c80ed31 // indirect
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
	golang.org/x/tools v0.52.0 // indirect
	gopkg.in/yaml.v2 v2.2.2 // indirect
)
