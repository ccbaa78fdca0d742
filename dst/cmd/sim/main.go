// Command sim performs one simulated run: plan (JSON) in, result (JSON) out.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"

	"verif.local/dst/sim"
	"verif.local/insts"
)

func main() {
	trace := flag.Bool("trace", false, "include the event trace")
	pairs := flag.Bool("pairs", false, "include schedule coverage")
	logs := flag.Bool("log", false, "show the log of the programs")
	plan := flag.String("plan", "-", "plan file")
	sites := flag.Bool("sites", false, "print the scheduling points and stop")
	flag.Parse()
	if *sites {
		json.NewEncoder(os.Stdout).Encode(map[string][]string{"all": insts.Sites, "hot": insts.Hot})
		return
	}
	in := os.Stdin
	if *plan != "-" {
		f, err := os.Open(*plan)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		in = f
	}
	b, err := io.ReadAll(in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var p sim.Plan
	if err := json.Unmarshal(b, &p); err != nil {
		fmt.Fprintln(os.Stderr, "bad plan:", err)
		os.Exit(2)
	}
	sim.Main(&p, sim.Options{Trace: *trace, Pairs: *pairs, Log: *logs, Out: os.Stdout})
}
