//go:build go1.25

// simrun executes simulated runs.
//
//	simrun gen PROP SCENARIO SEED [verbose]   generate and execute a run
//	simrun case FILE [trace]                  execute a replay file
//	simrun ops PROP SCENARIO SEED             print the case of a seed
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"testing/synctest"

	"github.com/QuarkChain/goquarkchain/zzverif/sim"
)

func main() {
	debug.SetGCPercent(-1)
	var c *sim.Case
	verbose, keep := false, false
	switch os.Args[1] {
	case "gen", "ops":
		seed, err := strconv.ParseUint(os.Args[4], 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		c = sim.Gen(os.Args[2], os.Args[3], seed)
		verbose = len(os.Args) > 5
		if os.Args[1] == "ops" {
			b, _ := json.Marshal(c)
			fmt.Println(string(b))
			return
		}
	case "case":
		b, err := os.ReadFile(os.Args[2])
		c = new(sim.Case)
		if err == nil {
			err = json.Unmarshal(b, c)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		c.Trace = nil
		if len(os.Args) > 3 {
			keep = os.Args[3] == "trace"
			verbose = os.Args[3] == "verbose"
		}
	default:
		os.Exit(3)
	}
	runtime.SimSeed(c.Seed, 30)
	runtime.SimSetBaseOffset(int64(1519147489+1000-946684800) * 1e9)
	synctest.Run(func() { sim.RunCase(c, verbose, keep) })
	os.Exit(3)
}
