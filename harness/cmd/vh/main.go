// vh drives the real oracle and records what it does.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"

	"verifharness/world"
)

var (
	seed  = flag.Int64("seed", 1, "seed")
	mode  = flag.String("mode", "mixed", "generator mode")
	steps = flag.Int("steps", 500, "steps to record")
	out   = flag.String("out", "", "trace file")
)

type cmdFn func() map[string]interface{}

var cmds = map[string]cmdFn{}

func main() {
	if len(os.Args) < 2 || cmds[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: vh <cmd> [flags]")
		os.Exit(2)
	}
	name := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	flag.Parse()
	world.CatchFatals()
	defer world.Flush()
	res := cmds[name]()
	j, _ := json.Marshal(res)
	fmt.Println(string(j))
}
