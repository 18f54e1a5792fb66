// Package deps holds on to the modules the code under test needs.
package deps

import (
	_ "github.com/ndau/ndaumath/pkg/address"
	_ "github.com/ndau/ndaumath/pkg/bitset256"
	_ "github.com/ndau/ndaumath/pkg/eai"
	_ "github.com/ndau/ndaumath/pkg/keyaddr"
	_ "github.com/ndau/ndaumath/pkg/pricecurve"
	_ "github.com/tinylib/msgp/msgp"
)
