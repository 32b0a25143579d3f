package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
)

func fail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+f+"\n", a...)
	os.Exit(3)
}

type Opts struct {
	Seed    int64
	N       int
	Steps   int
	Profile string
	Out     string
	In      string
	Only    int
	Workers int
}

var drivers = map[string]func(Opts){}

func main() {
	if len(os.Args) < 2 {
		names := []string{}
		for n := range drivers {
			names = append(names, n)
		}
		sort.Strings(names)
		fail("usage: vh DRIVER [flags]; drivers: %v", names)
	}
	d, ok := drivers[os.Args[1]]
	if !ok {
		fail("unknown driver %q", os.Args[1])
	}
	o := Opts{}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	fs.Int64Var(&o.Seed, "seed", 1, "")
	fs.IntVar(&o.N, "n", 10, "number of scenarios")
	fs.IntVar(&o.Steps, "steps", 30, "steps per scenario")
	fs.StringVar(&o.Profile, "profile", "mix", "")
	fs.StringVar(&o.Out, "out", "trace.ndjson", "")
	fs.StringVar(&o.In, "in", "", "scenarios generated from the specification")
	fs.IntVar(&o.Only, "only", -1, "run one scenario only")
	fs.IntVar(&o.Workers, "workers", 8, "")
	fs.Parse(os.Args[2:])
	d(o)
}
