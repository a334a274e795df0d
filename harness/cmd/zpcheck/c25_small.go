//go:build !amd64 && !arm64

package main

import "zpverif/engine"

// C25 needs an address space of more than 32 bits.
var c25 = &engine.Check{ID: "C25", Rule: "none here"}
