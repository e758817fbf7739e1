package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

func main() {
	dir := flag.String("dir", "/verif/harness", "harness module")
	run := flag.String("run", "", "debug: run one harness by name")
	thor := flag.Bool("thorough", false, "")
	nm := flag.Int("j", 8, "machines")
	prop := flag.String("prop", "", "check a property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "")
	only := flag.String("only", "", "only harnesses whose name contains this")
	root := flag.String("root", "/verif", "")
	bud := flag.Duration("budget", 60*time.Second, "")
	flag.Parse()
	if *prop != "" {
		os.Exit(checkMain(*prop, *tier, *dir, *root, *seed, *only))
	}
	t0 := time.Now()
	P, err := loadProgram(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0))
	mp := P.pkgs["verifharness"]
	ms := make([]*Machine, *nm)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m, err := newBooted(P, mp)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			ms[i] = m
		}()
	}
	wg.Wait()
	fmt.Println("boot", time.Since(t0))
	for _, n := range strings.Split(*run, ",") {
		r := explore(ms, mp.Func(n), *thor, *bud, 1, 5)
		fmt.Printf("%s: paths %d aborted %d steps %d forks %d asserts %d/%d/%d merges %d unknown %d wall %v timeout %v\n  solver %+v\n", r.Name, r.Paths, r.Aborted, r.Steps, r.Forks, r.Asserts, r.Trivial, r.BySolver, r.Merges, r.Unknown, r.Wall, r.TimedOut, r.Solver)
		fmt.Println("  reached", r.Reached, "inconclusive", r.Inconclusive)
		for k, is := range r.Issues {
			fmt.Println("  ISSUE", k, is.Count, "\n     ", is.Msg, "\n     ", is.Case, is.Info, "\n     ", strings.Join(is.Trace, "\n      "))
		}
		for _, s := range r.Samples {
			fmt.Printf("  sample %q\n", fmt.Sprint(s))
		}
	}
}
