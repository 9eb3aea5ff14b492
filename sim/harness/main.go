//go:build go1.22

// The harness: seeded search over simulated runs of btrfscue.
package main

import (
	"fmt"
	"os"
	"strconv"

	"btrsim/simrt"
	s0 "btrsim/slot0/zzboot"
	s1 "btrsim/slot1/zzboot"
	s2 "btrsim/slot2/zzboot"
	s3 "btrsim/slot3/zzboot"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness check PROPERTY OUTDIR | worker ... | replay FILE | one PROPERTY SEED")
	os.Exit(2)
}

func main() {
	simrt.Slots = []func(){s0.Boot, s1.Boot, s2.Boot, s3.Boot}
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		if len(os.Args) < 4 {
			usage()
		}
		os.Exit(master(os.Args[2], os.Args[3]))
	case "worker":
		worker()
	case "replay":
		if len(os.Args) < 3 {
			usage()
		}
		os.Exit(replayFile(os.Args[2]))
	case "one":
		if len(os.Args) < 4 {
			usage()
		}
		n, err := strconv.ParseUint(os.Args[3], 0, 64)
		if err != nil {
			usage()
		}
		os.Exit(runOne(os.Args[2], n))
	default:
		usage()
	}
}
