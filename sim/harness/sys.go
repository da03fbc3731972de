package main

import (
	"os"
	"syscall"
)

var origOut, origErr = os.Stdout, os.Stderr

// syscallSimOff puts the real standard streams back.
func syscallSimOff() {
	syscall.SimKernel = nil
	os.Stdout, os.Stderr = origOut, origErr
}
