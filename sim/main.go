package main

import "os"

func main() {
	if len(os.Args) < 2 {
		fatalf("usage: sim check|worker|replay|selftest ...")
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "check":
		checkMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "selftest":
		selftestMain(os.Args[2:])
	case "one":
		oneMain(os.Args[2:])
	default:
		fatalf("unknown command %s", os.Args[1])
	}
}
