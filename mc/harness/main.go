package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"

	"github.com/childe/healer"
	"github.com/go-logr/logr"
)

func main() {
	healer.SetLogger(logr.Discard())
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		worker()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "single" {
		runSingle()
		return
	}
	var (
		prop   = flag.String("prop", "", "")
		tier   = flag.String("tier", "quick", "")
		only   = flag.String("only", "", "")
		verif  = flag.String("verif", "/verif", "")
		rp     = flag.String("replay", "", "")
		one    = flag.String("one", "", "run the default execution of a scenario with trace")
		budget = flag.Duration("budget", 0, "")
		level  = flag.Int("level", -1, "")
		all    = flag.Bool("all", false, "collect all violations")
		list   = flag.Bool("list", false, "")
	)
	flag.Parse()
	switch {
	case *list:
		for _, s := range scenarios {
			fmt.Println(s.Prop, s.Name)
		}
	case *rp != "":
		os.Exit(replay(*rp, *tier))
	case *one != "":
		for _, s := range scenarios {
			if s.Name == *one && (*prop == "" || *prop == s.Prop) {
				r := runOne(s, nil, true, *tier)
				for _, e := range r.Events {
					fmt.Println(e)
				}
				fmt.Println("status", r.Status, r.Crash, "points", r.NPts, "steps", r.Steps, "outcome", r.Outcome)
				for _, f := range r.Fails {
					fmt.Println("FAIL", f)
				}
			}
		}
	default:
		o := &opts{prop: *prop, tier: *tier, only: *only, verif: *verif, budget: *budget, workers: runtime.NumCPU(), maxLevel: *level, all: *all}
		if o.workers > 8 {
			o.workers = 8
		}
		if o.budget == 0 {
			o.budget = 240 * time.Second
			if *tier == "thorough" {
				o.budget = 780 * time.Second
			}
		}
		o.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
		os.Exit(check(o))
	}
}
