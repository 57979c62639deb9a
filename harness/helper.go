package main

import (
	"fmt"
	"os"
)

// helperMain is the entry point of the processes the monitors start.
func helperMain(args []string) {
	switch args[0] {
	case "child":
		helperChild(args[1:])
	case "command":
		helperCommand(args[1])
	case "cancel":
		helperCancel(args[1])
	case "db":
		helperDB(args[1])
	case "yaml":
		helperYAML(args[1])
	case "godeps":
		helperGoDeps(args[1])
	case "gobin":
		helperGoBin(args[1])
	case "proto":
		helperProto(args[1])
	case "declsclean":
		helperDeclsClean(args[1:])
	case "fuzz":
		helperFuzz(args[1:])
	case "compile":
		helperCompile(args[1:])
	case "files-build":
		helperFilesBuild(args[1])
	default:
		fmt.Fprintln(os.Stderr, "unknown helper", args[0])
		os.Exit(2)
	}
}
