package main

import (
	"go/types"
	"strings"
)

func replaceAll(s, a, b string) string { return strings.ReplaceAll(s, a, b) }

// merge adds the results of another report.
func (r *Report) merge(o *Report) {
	for _, ob := range o.obls {
		r.ok(ob.Rule, ob.What)
	}
	for _, v := range o.viols {
		r.viol(v.Rule, v.Key, v.Pos, v.Msg, v.Path)
	}
	for f := range o.funcs {
		r.funcs[f] = true
	}
	r.paths += o.paths
	r.calls += o.calls
	r.steps += o.steps
	r.notes = append(r.notes, o.notes...)
}

func isErrorT(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
