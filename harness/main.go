// Command verif decides the properties of /verif/properties.jsonl by
// property-based testing.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"
)

func main() {
	testing.Init() // rapid asks testing.Short
	flag.CommandLine.Parse(nil)
	if len(os.Args) < 2 {
		fatalf("usage: verif check ID | replay FILE | list")
	}
	arg := func(i int) string {
		if i < len(os.Args) {
			return os.Args[i]
		}
		return ""
	}
	num := func(i int) int {
		n, err := strconv.Atoi(arg(i))
		if err != nil {
			fatalf("bad argument %q", arg(i))
		}
		return n
	}
	addHuge()
	addCrowd()
	switch os.Args[1] {
	case "check", "worker", "replay":
		loadKnown()
	}
	switch os.Args[1] {
	case "words":
		fmt.Print(listWords())
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, s := range props[id].Subs {
				fmt.Println(id, s.Name, s.Quick, s.Thorough)
			}
		}
	case "check":
		// check ID SCRATCH CLI [SUB]; VERIF_SEED and VERIF_TIER in the environment.
		p := props[arg(2)]
		if p == nil {
			fatalf("unknown property %q", arg(2))
		}
		seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			seed = 1
		}
		env = Env{Tier: "quick", Scratch: arg(3), CLI: arg(4), Seed: seed}
		if os.Getenv("VERIF_TIER") == "thorough" {
			env.Tier = "thorough"
		}
		if only := arg(5); only != "" {
			known := false
			for _, s := range p.Subs {
				known = known || s.Name == only
			}
			if !known {
				fatalf("%s has no check %q", p.ID, only)
			}
		}
		os.Exit(orchestrate(p, seed, arg(5)))
	case "worker":
		// worker ID SHARD SHARDS SEED SUB OUT JOURNAL TIER SCRATCH CLI BUDGET
		env = Env{Tier: arg(9), Scratch: arg(10), CLI: arg(11), Budget: time.Duration(num(12)) * time.Second}
		seed, _ := strconv.ParseInt(arg(5), 10, 64)
		env.Seed = seed
		runWorker(props[arg(2)], num(3), num(4), seed, arg(6), arg(7), arg(8))
	case "operate":
		operateMain()
	case "cold":
		env = Env{Scratch: arg(2)}
		coldMain()
	case "deep":
		runDeep(arg(2), num(3))
	case "replay":
		// replay FILE TIER SCRATCH CLI
		env = Env{Tier: arg(3), Scratch: arg(4), CLI: arg(5)}
		runReplay(arg(2))
	default:
		fatalf("unknown command %q", os.Args[1])
	}
}
