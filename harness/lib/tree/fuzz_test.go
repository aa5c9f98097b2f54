package main

import (
	"testing"

	"verifharness/fw"
)

func FuzzLeg(f *testing.F) { fw.FuzzLeg(f) }
