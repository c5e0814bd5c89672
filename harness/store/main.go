package main

import (
	"frozenverif/tr"

	"flag"
	"fmt"
	"os"
	"time"
)

func main() {
	var (
		mode    = flag.String("mode", "random", "what to run")
		profile = flag.String("profile", "sets", "profile of random episodes")
		seed    = flag.Uint64("seed", 1, "seed")
		out     = flag.String("out", "", "trace file")
		eps     = flag.Int("eps", 20, "episodes")
		steps   = flag.Int("steps", 60, "calls per episode")
		kind    = flag.String("kind", "", "element kind (default: any)")
		style   = flag.Int("style", -1, "hash layout style (default: any)")
		sync    = flag.Bool("sync", false, "flush after every event")
		hang    = flag.Duration("hang", 60*time.Second, "report a call that takes longer")
		size    = flag.Int("size", 2000, "elements in the universe (big)")
		in      = flag.String("in", "", "input file (tries)")
		part    = flag.Int("part", 0, "which part of the input (tries)")
		parts   = flag.Int("parts", 1, "in how many parts the input is done (tries)")
		sample  = flag.Int("sample", 1, "one pair in so many (tries)")
	)
	flag.Parse()
	r := tr.NewRng(*seed)
	tr.SeedHash(*seed)
	t := tr.NewTracer(*out, *sync, *hang)
	switch *mode {
	case "random", "conc":
		if *mode == "conc" {
			conc = 2 + int(*seed%5)
		}
		p := profiles[*profile]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown profile", *profile)
			os.Exit(2)
		}
		t.Ev(tr.M{"op": "head", "nr": maxRegs, "nb": maxBld, "ni": maxItr, "wt": []int{}})
		for i := 0; i < *eps; i++ {
			runEpisode(t, r, p, *steps, *kind, *style)
		}
	case "big":
		runBig(t, r, *profile, *eps, *steps, *size)
	case "tries":
		runTries(t, r, *in, *profile, *part, *parts, *sample)
	case "bits":
		t.Ev(tr.M{"op": "head", "nr": 1, "nb": 1, "ni": 1, "wt": []int{}})
		runBits(t, r, *eps**steps)
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", *mode)
		os.Exit(2)
	}
	t.Close()
}
