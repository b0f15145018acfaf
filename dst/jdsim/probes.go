package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// Probes: the specific executions of the findings listed in
// known-findings.txt. The generators stay away from them, so that every other
// violation of the same property is still reported.

type probe struct {
	name, prop string
	mk         func() *Case
	fails      func(c *Case, r *Result) string // what fails, or ""
}

func probeCase(prop string, doc M) *Case {
	return &Case{Prop: prop, Delay: 1, Cfg: Cfg{CostSteps: 20, CostTick: 20000},
		Threads: []Thread{{Ops: []Op{{K: "eval", Doc: Tree{doc}}}}}}
}

var probes = []probe{
	{"empty-for", "C01",
		func() *Case {
			return probeCase("C01", M{"s0": &Prog{ID: "p", Stmts: []Stmt{{Op: "forever", N: foreverEmpty}}}})
		},
		func(c *Case, r *Result) string {
			if r.Late {
				return fmt.Sprintf("the script `for(;;){}` is never halted (evaluation not back after %.0f virtual seconds, limit 1 s)", float64(r.Bound)/1e9)
			}
			return ""
		}},
	{"empty-for-filter", "C01",
		func() *Case {
			c := probeCase("C01", nil)
			f := &Filter{K: "forif", Key: "kind", S: "bad", N: foreverEmpty}
			c.Threads[0].Ops = []Op{{K: "load", Slot: "d", Doc: Tree{M{"a": A{M{"kind": "bad"}}}}}, {K: "get", Slot: "d", Path: Path{{K: "key", Key: "a"}, {K: "filter", F: f}}}}
			return c
		},
		func(c *Case, r *Result) string {
			if r.Late {
				return fmt.Sprintf("a filter expression holding `for(;;){}` is never halted (selection not back after %.0f virtual seconds, limit 1 s)", float64(r.Bound)/1e9)
			}
			return ""
		}},
	{"script-in-selection", "C01",
		func() *Case {
			f := &Filter{K: "spin", N: 900, X: &Filter{K: "true"}}
			l := A{}
			for i := 0; i < 12; i++ {
				l = append(l, float64(i))
			}
			st := Stmt{Op: "get", Path: Path{{K: "key", Key: "l"}, {K: "filter", F: f}}}
			return probeCase("C01", M{"l": l, "s0": &Prog{ID: "p", Stmts: []Stmt{st, {Op: "forever"}}}})
		},
		func(c *Case, r *Result) string {
			p := &r.Ops[0][0]
			if p.Done && isHaltText(p.Err) && p.End-p.Start > 5e9 {
				return fmt.Sprintf("a script that waits for a path selection is halted only when the selection returns (after %.1f virtual seconds, limit 1 s)", float64(p.End-p.Start)/1e9)
			}
			return ""
		}},
}

// runProbe executes one probe in this process.
func runProbe(name string) {
	simInit()
	for _, p := range probes {
		if p.name != name {
			continue
		}
		c := p.mk()
		r := Execute(c, &c.Cfg, 60e9)
		if os.Getenv("FULL") != "" {
			fmt.Printf("%+v\n", r.Ops)
		}
		fmt.Printf("PROBE %s\n", p.fails(c, r))
		return
	}
	fatal("no probe %s", name)
}

// probes reports the listed findings that are still there.
func (d *driver) probes(code *int) (out []string) {
	b, err := os.ReadFile(filepath.Join(d.verif, "known-findings.txt"))
	if err != nil {
		d.fail("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" || f[1] != "property="+d.prop {
			continue
		}
		name := strings.TrimPrefix(f[2], "probe=")
		o, err := d.output(90*time.Second, "probe", name)
		i := strings.Index(o, "PROBE ")
		if err != nil || i < 0 {
			d.fail("probe %s: %v %s", name, err, tail(o, 1000))
		}
		if t := strings.TrimSpace(strings.SplitN(o[i+6:], "\n", 2)[0]); t != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, t)
			out = append(out, t)
		}
	}
	return
}
