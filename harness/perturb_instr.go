//go:build instr

package main

import "github.com/bobg/fab"

func init() { fab.FabVHook = perturbHook }
