package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
)

type checkFunc func(*Mon)

// checks maps a property id to its monitor.
var checks = map[string]checkFunc{}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "helper" {
		helperMain(os.Args[2:])
		return
	}
	if len(os.Args) != 4 {
		fmt.Fprintln(os.Stderr, "usage: vmon PROPERTY OUTDIR REPLAY|-")
		os.Exit(2)
	}
	prop, outdir, replay := os.Args[1], os.Args[2], os.Args[3]
	fn, ok := checks[prop]
	if !ok {
		fmt.Fprintf(os.Stderr, "no monitor for %s\n", prop)
		os.Exit(2)
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if replay == "-" {
		replay = ""
	}
	debug.SetMaxStack(256 << 20) // a runaway recursion in the code under test ends quickly
	m := newMon(prop, tier, seed, outdir, replay)
	m.startWatchdog()
	fn(m)
	m.finish()
}
