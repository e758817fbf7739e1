// The harnesses of the checks. Every function named Q_<property>_<name> (both tiers) or
// T_<property>_<name> (thorough only) is executed symbolically by the engine; this program
// runs them natively on recorded assignments: one JSON case per input line, one JSON result
// per output line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"verifharness/sym"
)

type result struct {
	Harness string
	Fails   []string
	Skip    string
	Panic   string
	Outs    []sym.Output
}

func runCase(c *sym.Case) (r result) {
	r.Harness = c.Harness
	f := registry[c.Harness]
	if f == nil {
		r.Skip = "unknown harness"
		return
	}
	defer func() {
		if p := recover(); p != nil {
			r.Panic = fmt.Sprint(p)
		}
	}()
	r.Outs, r.Fails, r.Skip = sym.Run(c, f)
	return
}

func main() {
	rep := 1
	if len(os.Args) > 1 {
		rep, _ = strconv.Atoi(os.Args[1])
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(w)
	for {
		c := new(sym.Case)
		if dec.Decode(c) != nil {
			return
		}
		var r result
		for i := 0; i < rep; i++ {
			r = runCase(c)
			if len(r.Fails) > 0 || r.Panic != "" {
				break
			}
		}
		enc.Encode(r)
		w.Flush()
	}
}
