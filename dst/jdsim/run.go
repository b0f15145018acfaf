package main

import (
	"fmt"
	"strings"
)

// Outcome is everything a check learns from one case.
type Outcome struct {
	Viols []Viol
	Other []Viol // departures that belong to other properties
	Hash  uint64
	Runs  int
	Sched []uint16 // decisions and faults of the first execution
	Flt   []simFault
	St    Stats
}

// Stats are summed over runs.
type Stats struct {
	Runs, Execs                int
	VirtualNS                  int64
	Decisions, NonDefault      uint64
	Switches, Yields, Steps    uint64
	Goroutines, MaxRunnable    uint64
	Stalls, LateTimers         uint64
	ClockJumps                 uint64
	Ops                        map[string]int
	WFaults                    map[string]int
	Fired                      map[string]int // other faults that really happened
	Policies                   map[string]int
	Halts, Errors, Panics, Msg int
	ReleasedMS                 float64
}

func newStats() Stats {
	return Stats{Ops: map[string]int{}, WFaults: map[string]int{}, Fired: map[string]int{}, Policies: map[string]int{}}
}

var accepts = map[string]string{
	"C01": "no-halt late-halt",
	"C02": "false-halt early-halt",
	"C03": "left-script script-missing script-twice order overlap foreign silent-effect",
	"C04": "output console-content unexpected-error docop-state docop-error docop",
	"C05": "repeat",
	"C06": "solo race",
	"C07": "solo race doc-changed select docop docop-error",
	"C08": "select output-with-error",
	"C09": "missing-error output-with-error error-text error-scope panic-escape healthy",
	"C10": "leak",
	"C11": "false-halt console-format console-count console-content console-scope output unexpected-error output-with-error error-text",
	"C12": "cli",
	"C13": "docop docop-error docop-state select missing-error panic-escape",
	"C14": "healthy",
	"C15": "cli",
}

func accepted(prop, kind string) bool {
	if kind == "hang" || kind == "crash" {
		return true
	}
	for _, k := range strings.Fields(accepts[prop]) {
		if k == kind {
			return true
		}
	}
	return false
}

// runCase executes a case and decides its property.
func runCase(c *Case) *Outcome {
	o := &Outcome{St: newStats()}
	if c.CLI != nil {
		runCLI(c, o)
		return o
	}
	var vs []Viol
	switch c.Prop {
	case "C05":
		a, idx := c.subject()
		ra := Execute(a, &c.Cfg, boundNS(a, &c.Cfg))
		o.note(a, &c.Cfg, ra)
		rb := Execute(c, c.Cfg2, boundNS(c, c.Cfg2))
		o.note(c, c.Cfg2, rb)
		vs = append(vs, hangs(c, rb)...)
		if len(vs) == 0 {
			vs = append(vs, hangs(a, ra)...)
		}
		if len(vs) == 0 {
			vs = compare("repeat", a, ra, c, rb, idx, -1, -1)
		}
	case "C06", "C07":
		r := Execute(c, &c.Cfg, boundNS(c, &c.Cfg))
		o.note(c, &c.Cfg, r)
		vs = judge(c, r)
		if r.Late {
			break
		}
		for ti := range c.Threads {
			s := c.solo(ti)
			cfg := c.Cfg
			cfg.Policy, cfg.YieldDen, cfg.StallRate, cfg.TimerRate, cfg.ClockRate, cfg.Replay, cfg.FaultList, cfg.Sched, cfg.Faults = 0, 0, 0, 0, 0, false, false, nil, nil
			rs := Execute(s, &cfg, boundNS(s, &cfg))
			o.note(s, &cfg, rs)
			if rs.Late {
				vs = append(vs, hangs(s, rs)...)
				break
			}
			vs = append(vs, compare("solo", s, rs, c, r, nil, 0, ti)...)
		}
	default:
		r := Execute(c, &c.Cfg, boundNS(c, &c.Cfg))
		o.note(c, &c.Cfg, r)
		vs = judge(c, r)
	}
	for _, v := range vs {
		if v.Op >= 0 && v.Thread >= 0 && strings.HasPrefix(c.Threads[v.Thread].Ops[v.Op].Note, "healthy") && v.Kind != "hang" &&
			(c.Prop == "C14" || c.Prop == "C09") {
			v.Kind, v.Detail = "healthy", v.Kind+": "+v.Detail
		}
		if accepted(c.Prop, v.Kind) {
			o.Viols = append(o.Viols, v)
		} else {
			o.Other = append(o.Other, v)
		}
	}
	return o
}

func hangs(c *Case, r *Result) (out []Viol) {
	if !r.Late {
		return nil
	}
	for _, v := range judge(c, r) {
		if v.Kind == "hang" {
			out = append(out, v)
		}
	}
	return
}

func (o *Outcome) note(c *Case, cfg *Cfg, r *Result) {
	if o.Runs == 0 {
		o.Sched, o.Flt = r.Stats.Sched, r.Stats.Faults
	}
	o.Runs++
	h := o.Hash
	mixin := func(v uint64) { h = mix(h ^ v) }
	mixin(r.Stats.Hash)
	dbgRands, dbgTrace = r.Stats.Rands, r.Stats.Trace
	for _, t := range r.Ops {
		for i := range t {
			p := &t[i]
			mixin(uint64(p.Start))
			mixin(uint64(p.End))
			mixin(hashStr(p.Out + "\x00" + strings.Join(p.Vals, "\x00") + "\x00" + ptrRe.ReplaceAllString(p.Err+p.Panic, "<ptr>") + "\x00" + ptrRe.ReplaceAllString(p.State, "<ptr>")))
		}
	}
	for i := range r.Msgs {
		mixin(hashStr(r.Msgs[i].Data) ^ uint64(r.Msgs[i].T))
	}
	mixin(uint64(r.Live)<<8 | uint64(r.LiveEnd))
	o.Hash = h
	s := &o.St
	s.Execs++
	st := &r.Stats
	s.VirtualNS += st.VirtualNS
	s.Decisions += uint64(st.Decisions)
	s.NonDefault += uint64(st.NonDefault)
	s.Switches += uint64(st.Switches)
	s.Yields += uint64(st.Yields)
	s.Steps += st.Steps
	s.Goroutines += uint64(st.Goroutines)
	if uint64(st.MaxRunnable) > s.MaxRunnable {
		s.MaxRunnable = uint64(st.MaxRunnable)
	}
	s.Stalls += uint64(st.Stalls)
	s.LateTimers += uint64(st.TimerLates)
	s.ClockJumps += uint64(st.ClockJumps)
	s.Policies[[]string{"fifo", "uniform", "lifo", "pct", "sticky", "starve"}[cfg.Policy%6]]++
	for ti := range c.Threads {
		for oi := range c.Threads[ti].Ops {
			op, p := &c.Threads[ti].Ops[oi], &r.Ops[ti][oi]
			if !p.Done {
				continue
			}
			s.Ops[op.K]++
			t := p.Err + p.Panic
			switch {
			case isHaltText(t):
				s.Halts++
			case p.Panicked:
				s.Panics++
			case p.IsErr:
				s.Errors++
			}
		}
	}
	for i := range r.Msgs {
		s.Msg++
		if f := r.Msgs[i].Flt; f != "" {
			s.WFaults[f]++
		}
	}
}

func (s *Stats) add(t *Stats) {
	s.Runs += t.Runs
	s.Execs += t.Execs
	s.VirtualNS += t.VirtualNS
	s.Decisions += t.Decisions
	s.NonDefault += t.NonDefault
	s.Switches += t.Switches
	s.Yields += t.Yields
	s.Steps += t.Steps
	s.Goroutines += t.Goroutines
	if t.MaxRunnable > s.MaxRunnable {
		s.MaxRunnable = t.MaxRunnable
	}
	s.Stalls += t.Stalls
	s.LateTimers += t.LateTimers
	s.ClockJumps += t.ClockJumps
	s.Halts += t.Halts
	s.Errors += t.Errors
	s.Panics += t.Panics
	s.Msg += t.Msg
	for _, p := range []struct{ a, b map[string]int }{{s.Ops, t.Ops}, {s.WFaults, t.WFaults}, {s.Fired, t.Fired}, {s.Policies, t.Policies}} {
		for k, v := range p.b {
			p.a[k] += v
		}
	}
}

// subject is the case without the operations that are only history, with the
// positions its operations have in c.
func (c *Case) subject() (*Case, [][]int) {
	a := *c
	a.Threads = nil
	var idx [][]int
	for _, th := range c.Threads {
		var t Thread
		var ix []int
		for i := range th.Ops {
			if th.Ops[i].Note != "hist" {
				t.Ops = append(t.Ops, th.Ops[i])
				ix = append(ix, i)
			}
		}
		a.Threads = append(a.Threads, t)
		idx = append(idx, ix)
	}
	return &a, idx
}

func (c *Case) solo(ti int) *Case {
	s := *c
	s.Threads = []Thread{c.Threads[ti]}
	s.WFaults = nil
	return &s
}

// compare reports the first difference per operation between two executions of
// the same operations. idx maps positions in a to positions in b; threads ta
// and tb are compared (all threads if negative).
func compare(kind string, a *Case, ra *Result, b *Case, rb *Result, idx [][]int, ta, tb int) (out []Viol) {
	for t := range a.Threads {
		t2 := t
		if ta >= 0 {
			if t != ta {
				continue
			}
			t2 = tb
		}
		for i := range a.Threads[t].Ops {
			j := i
			if idx != nil {
				j = idx[t][i]
			}
			x, y := &ra.Ops[t][i], &rb.Ops[t2][j]
			op := &a.Threads[t].Ops[i]
			what := op.K
			if op.Path != nil {
				what += " " + op.Path.String()
			}
			diff := func(f, u, v string) {
				out = append(out, Viol{kind, t2, j, short(fmt.Sprintf("%s: %s differs: %s / %s", what, f, diffAt(u, v), diffAt(v, u)))})
			}
			xs, ys := ra.thread(t, a, op, x), rb.thread(t2, b, op, y)
			switch {
			case x.Out != y.Out:
				diff("output", x.Out, y.Out)
			case x.IsErr != y.IsErr || x.Panicked != y.Panicked:
				diff("success or failure", outcome(x), outcome(y))
			case strings.Join(x.Vals, "\x00") != strings.Join(y.Vals, "\x00"):
				diff("values", strings.Join(x.Vals, " "), strings.Join(y.Vals, " "))
			case normErr(x.Err) != normErr(y.Err):
				diff("error text", normErr(x.Err), normErr(y.Err))
			case normErr(x.Panic) != normErr(y.Panic):
				diff("panic", normErr(x.Panic), normErr(y.Panic))
			case normErr(x.State) != normErr(y.State):
				diff("document", x.State, y.State)
			case xs != ys:
				diff("console", xs, ys)
			}
		}
	}
	return
}

func outcome(r *OpResult) string {
	switch {
	case r.Panicked:
		return "panic " + r.Panic
	case r.IsErr:
		return "error " + r.Err
	}
	return "success"
}

// thread lists the console messages of one operation's scripts.
func (r *Result) thread(ti int, c *Case, op *Op, p *OpResult) string {
	if op.Doc.V == nil {
		return ""
	}
	ids := map[string]bool{}
	var ps []*Prog
	progs(op.Doc.V, &ps)
	for i := 0; i < len(ps); i++ {
		ids[ps[i].ID] = true
		for j := range ps[i].Stmts {
			if q := ps[i].Stmts[j].Prog; q != nil {
				ps = append(ps, q)
			}
		}
	}
	var b strings.Builder
	for i := range r.Msgs {
		m := parseMsg(i, &r.Msgs[i])
		if ids[m.prog] {
			b.WriteString(r.Msgs[i].Data)
			if m.native {
				b.WriteString(m.scopes + "\n")
			}
		}
	}
	return b.String()
}
