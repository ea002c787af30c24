//go:build !maporder

package main

type mapCtl struct {
	g    uint64
	mode uint64
	all  uint64
	at   [4]int64
	dev  [4]uint64
	n    int64
	lens [16384]uint32
}

var mapCtls [16]mapCtl

func goroutineID() uint64 { return 0 }

const mapControl = false
