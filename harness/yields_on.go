//go:build yields

package main

import (
	"unsafe"

	"github.com/drone/drone-yaml/yaml/verifyield"
)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

//go:linkname setLabel runtime/pprof.runtime_setProfLabel
func setLabel(p unsafe.Pointer)

// the goroutine label of a task is the task

//go:norace
func curTask() *task { return (*task)(getLabel()) }

//go:norace
func setTask(t *task) { setLabel(unsafe.Pointer(t)) }

func init() { verifyield.Hook = yieldAt }

const yieldControl = true
