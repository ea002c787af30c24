//go:build !yields

package main

func curTask() *task  { return nil }
func setTask(t *task) {}

const yieldControl = false
