package main

import (
	"fmt"
	"os"

	"verif/mc/checks"
	"verif/mc/run"
)

const root = "/verif"

func find(id string) *run.Check {
	for _, c := range checks.All {
		if c.ID == id {
			return c
		}
	}
	fmt.Fprintf(os.Stderr, "no check for %q\n", id)
	os.Exit(2)
	return nil
}

func main() {
	args := os.Args[1:]
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check ID | replay FILE")
		os.Exit(2)
	}
	switch args[0] {
	case "check":
		find(args[1])
		os.Exit(run.Supervise(args[1], root))
	case "ops":
		os.Exit(checks.OpsMain())
	case "worker":
		os.Exit(run.Worker(find(args[1]), root, args[2]))
	case "one":
		os.Exit(run.One(find(args[1]), root, args[2]))
	case "replay":
		os.Exit(run.One(find(run.PropertyOf(args[1])), root, args[1]))
	}
	os.Exit(2)
}
