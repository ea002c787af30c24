//go:build maporder

package main

import _ "unsafe"

// mapCtl mirrors VerifCtl of the overlay of internal/runtime/maps, see
// build_lib.sh.
type mapCtl struct {
	g    uint64
	mode uint64
	all  uint64
	at   [4]int64
	dev  [4]uint64
	n    int64
	lens [16384]uint32
}

//go:linkname mapCtls internal/runtime/maps.VerifCtls
var mapCtls [16]mapCtl

//go:linkname goroutineID internal/runtime/maps.verifG
func goroutineID() uint64

const mapControl = true
