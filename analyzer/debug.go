package main

import (
	"golang.org/x/tools/go/ssa"

	"fmt"
	"os"
	"time"
)

var debugTime = os.Getenv("RD_DEBUG") != ""

func (e *Engine) timed(name string, f func()) {
	if !debugTime {
		f()
		return
	}
	t := time.Now()
	clear(debugSteps)
	clear(debugSteps2)
	f()
	if d := time.Since(t); d > 200*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow %s %.1fs steps=%d terms=%d over=%v\n", name, d.Seconds(), e.steps, len(e.T.all), e.over)
		for f, n := range debugSteps {
			if n > e.steps/400 {
				fmt.Fprintf(os.Stderr, "  %d in %s, %d runs\n", n, f, debugSteps2[f])
			}
		}
	}
}

var debugSteps = map[*ssa.Function]int{}

var debugSteps2 = map[*ssa.Function]int{}

var debugFn = os.Getenv("RD_FN")

func (e *Engine) dump(fn *ssa.Function, b *ssa.BasicBlock, st *State) {
	fmt.Fprintf(os.Stderr, "STATE %s block %d auto=%s\n", fn, b.Index, st.auto)
	for f, v := range st.facts {
		fmt.Fprintf(os.Stderr, "   fact %v %s\n", v, f)
	}
	for f, v := range st.env {
		fmt.Fprintf(os.Stderr, "   env %s %s\n", f.Name(), v)
	}
	for f, v := range st.mem {
		fmt.Fprintf(os.Stderr, "   mem %s = %s\n", f, v)
	}
	for f, v := range st.ver {
		fmt.Fprintf(os.Stderr, "   ver %s = %s\n", f, v)
	}
}
