package main

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strings"

	"github.com/hjson/hjson-go"
)

// Viol is one way in which an execution departed from the specification.
type Viol struct {
	Kind   string `json:"kind"`
	Thread int    `json:"thread"`
	Op     int    `json:"op"`
	Detail string `json:"detail"`
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// Exp is what the reference model says about one operation.
type Exp struct {
	Eval    *evalModel
	Vals    []string
	HasVals bool
	Out     *string
	Err     bool // must fail
	Halt    bool // ... because a filter node is halted
	Either  bool // ... for want of stack or of time
	State   *string
	Ms      float64 // nominal duration
	Skip    bool    // nothing is specified, and nothing changes
	Any     bool    // no expectation (state resynchronised from the real document)
}

// expectations runs the reference model over a thread.
func expectations(c *Case, ti int) []Exp {
	lim := float64(c.Delay) * 1000
	slots := map[string]M{}
	arrs := map[string]bool{}
	for _, k := range sharedKeys(c) {
		slots[k], arrs[k] = asRoot(c.Shared[k].V)
	}
	delay := lim
	var out []Exp
	for oi := range c.Threads[ti].Ops {
		op := &c.Threads[ti].Ops[oi]
		var e Exp
		root := slots[op.Slot]
		setState := func() {
			s := canon(slots[op.Slot])
			e.State = &s
		}
		switch op.K {
		case "eval", "runmap":
			e.Eval = evalDoc(op.Doc.V, delay)
			e.Ms = e.Eval.Total
			e.Err = len(e.Eval.Stops) > 0
		case "raw":
			e.Err = op.Note != "maybe"
			e.Any = op.Note == "maybe"
		case "load", "loadmap":
			d := clone(op.Doc.V)
			if op.Go {
				d = asNative(d)
			}
			slots[op.Slot], arrs[op.Slot] = asRoot(d)
			setState()
		case "badload":
			o := "rejected"
			e.Out = &o
			setState()
		case "get", "abs", "mustget":
			vs, err := selectPath(root, op.Path, &e.Ms)
			if err != nil {
				e.Err = true
				_, e.Halt = err.(haltErr)
				e.Either = err == errEither
			} else {
				e.HasVals = true
				e.Vals = canons(vs)
			}
		case "rawget", "rawset":
			e.Err = true
			if strings.Contains(op.S, "[?(@") && weight(root["recs"]) == 1 { // nothing to filter
				e.Err, e.Any = false, true
			}
		case "set", "mustset", "del", "mustdel":
			v := op.V.V
			if op.K == "del" || op.K == "mustdel" {
				v = nil
			}
			t := cloneM(root)
			if err := setPath(t, op.Path, v, &e.Ms); err != nil {
				e.Err = true
				_, e.Halt = err.(haltErr)
				e.Either = err == errEither
				e.Any = true
			} else {
				slots[op.Slot] = t
				setState()
			}
		case "push", "pop":
			vs, err := walk(root, op.Path.norm(), root, &e.Ms)
			arr, ok := vs.(A)
			if err != nil || !ok || op.K == "pop" && len(arr) == 0 {
				e.Err = true
				if err == nil && op.K == "pop" && ok {
					e.Any, e.Err = true, false // popping from an empty array: unspecified
				}
				break
			}
			t := cloneM(root)
			if op.K == "push" {
				setPath(t, op.Path, pushModel(arr, op.V.V, op.Idx), &e.Ms)
			} else {
				popped, rest := popModel(arr, op.Idx)
				setPath(t, op.Path, rest, &e.Ms)
				e.HasVals, e.Vals = true, canons(popped)
			}
			slots[op.Slot] = t
			setState()
		case "markup":
			t := cloneM(root)
			p := op.Prog
			if op.Go {
				p = asNative(p).(*Prog)
			}
			if err := setPath(t, op.Path, p, &e.Ms); err != nil {
				e.Err, e.Any = true, true
			} else {
				slots[op.Slot] = t
				setState()
			}
		case "strip":
			stripModel(root)
			setState()
		case "runslot":
			t := clone(interface{}(root))
			if arrs[op.Slot] {
				t = root["array"]
			}
			e.Eval = evalDoc(t, delay)
			e.Ms = e.Eval.Total
			e.Err = len(e.Eval.Stops) > 0
			if !e.Err {
				slots[op.Slot], _ = asRoot(clone(e.Eval.Tree))
				setState()
			} else {
				e.Any = true
			}
		case "marshal", "string":
			if hasNative(root) {
				e.Skip = true // a document with callbacks has no text
				break
			}
			if op.K == "string" {
				b, _ := hjson.Marshal(unroot(root, arrs[op.Slot]))
				s := string(b)
				e.Out = &s
				break
			}
			s := string(mustJSON(unroot(root, arrs[op.Slot])))
			e.Out = &s
		case "scope":
			s := ""
			e.Out = &s
		case "isarray":
			s := fmt.Sprint(arrs[op.Slot])
			e.Out = &s
		case "sleep":
			e.Ms = op.N
		case "delay":
			delay = op.N * 1000
		}
		if e.Halt {
			// the busy time of the nodes before plus the limit is in e.Ms
		}
		out = append(out, e)
	}
	return out
}

// asNative marks the scripts of a document that run as native callbacks.
func asNative(v interface{}) interface{} {
	switch v := v.(type) {
	case M:
		for _, k := range sortedKeys(v) {
			v[k] = asNative(v[k])
		}
	case A:
		for i := range v {
			v[i] = asNative(v[i])
		}
	case *Prog:
		if !v.JS {
			p := *v
			p.Native = true
			return &p
		}
	}
	return v
}

func hasNative(v interface{}) bool {
	switch v := v.(type) {
	case M:
		for _, e := range v {
			if hasNative(e) {
				return true
			}
		}
	case A:
		for _, e := range v {
			if hasNative(e) {
				return true
			}
		}
	case *Prog:
		return v.Native
	}
	return false
}

func canons(vs []interface{}) []string {
	o := []string{}
	for _, v := range vs {
		o = append(o, canon(v))
	}
	return o
}

func asRoot(v interface{}) (M, bool) {
	if a, ok := v.(A); ok {
		return M{"array": a}, true
	}
	return v.(M), false
}

func unroot(m M, arr bool) interface{} {
	if arr {
		return plainTree(m["array"])
	}
	return plainTree(m)
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func stripModel(v interface{}) {
	switch v := v.(type) {
	case M:
		for k, e := range v {
			if isScript(e) {
				delete(v, k)
			} else {
				stripModel(e)
			}
		}
	case A:
		for _, e := range v {
			stripModel(e)
		}
	}
}

// boundNS is the virtual time by which a case must be over.
func boundNS(c *Case, cfg *Cfg) int64 {
	var worst float64
	for i := range c.Threads {
		var t float64
		for _, e := range expectations(c, i) {
			t += e.Ms + 3000
		}
		if t > worst {
			worst = t
		}
	}
	b := int64((2*worst + 20000) * 1e6)
	b += 200*cfg.StallMax + 200*cfg.TimerMax
	for _, w := range c.WFaults {
		if w.Kind == "delay" || w.Kind == "lag" {
			b += w.Val
		}
	}
	return b
}

var msgRe = regexp.MustCompile(`^(Print|Error) call from: ([^\n]*)\n((?:\t[^\n]*\n)+)$`)

type parsed struct {
	i      int
	t      int64
	ok     bool
	err    bool
	scopes string
	text   string
	prog   string
	kind   byte // B, E, P, R(aw)
	native bool
}

func parseMsg(i int, m *Msg) parsed {
	p := parsed{i: i, t: m.T}
	if m.Go {
		p.ok, p.err, p.text, p.scopes, p.native = true, m.Ch == 1, m.Data, "<"+m.Scp+">", true
	} else if g := msgRe.FindStringSubmatch(m.Data); g != nil {
		p.ok = true
		p.err = g[1] == "Error"
		p.scopes = g[2]
		lines := strings.Split(strings.TrimSuffix(g[3], "\n"), "\n")
		for j := range lines {
			lines[j] = strings.TrimPrefix(lines[j], "\t")
		}
		p.text = strings.Join(lines, "\n")
		if p.err != (m.Ch == 1) {
			p.ok = false // wrong channel
		}
	}
	p.kind = 'R'
	if len(p.text) > 2 && p.text[1] == '|' && strings.IndexByte("BEP", p.text[0]) >= 0 {
		id := p.text[2:]
		if j := strings.IndexAny(id, " |\n"); j >= 0 {
			id = id[:j]
		}
		p.prog, p.kind = id, p.text[0]
	}
	return p
}

func injected(res *Result) (ns int64) {
	for _, f := range res.Stats.Faults {
		if f.Kind != runtime.SimFaultClock {
			ns += f.Val
		}
	}
	return
}

// judge compares an execution with the reference model.
func judge(c *Case, res *Result) (out []Viol) {
	add := func(kind string, t, o int, f string, a ...interface{}) {
		out = append(out, Viol{kind, t, o, short(fmt.Sprintf(f, a...))})
	}
	if res.Races > 0 {
		add("race", -1, -1, "%d data race(s) reported by the race detector", res.Races)
	}
	if res.Late {
		for _, s := range res.Stuck {
			add("hang", s[0], s[1], "%s had not returned after %.1f virtual seconds", c.Threads[s[0]].Ops[s[1]].K, float64(res.Bound)/1e9)
		}
		if len(res.Stuck) == 0 {
			add("hang", -1, -1, "run not over after %.1f virtual seconds", float64(res.Bound)/1e9)
		}
	}
	msgs := make([]parsed, len(res.Msgs))
	byProg := map[string][]parsed{}
	last := ""
	for i := range res.Msgs {
		msgs[i] = parseMsg(i, &res.Msgs[i])
		m := &msgs[i]
		if !m.ok {
			add("console-format", -1, -1, "write %d on channel %d is not one complete message: %q", i, res.Msgs[i].Ch, short(res.Msgs[i].Data))
		}
		if m.kind == 'R' {
			m.prog = last // only generated in single-threaded cases
		}
		byProg[m.prog] = append(byProg[m.prog], *m)
		last = m.prog
	}
	if res.MsgOver {
		add("console-count", -1, -1, "more than %d console messages", maxMsgs)
	}
	inj := injected(res)
	// a slow writer excuses those who wrote to it only
	slow := map[string]int64{}
	for i := range msgs {
		slow[msgs[i].prog] += res.Msgs[i].Dly
	}
	known := map[string]bool{}
	givenUp, raw := 0, false
	for ti := range c.Threads {
		exps := expectations(c, ti)
		resync := map[string]bool{}
		for oi := range c.Threads[ti].Ops {
			op, e, r := &c.Threads[ti].Ops[oi], &exps[oi], &res.Ops[ti][oi]
			if e.Eval != nil {
				for i := range e.Eval.Runs {
					known[e.Eval.Runs[i].p.ID] = true
				}
			}
			if !r.Done {
				if !res.Late {
					add("hang", ti, oi, "%s never returned", op.K)
				}
				continue
			}
			raw = raw || op.K == "raw"
			if op.K == "load" || op.K == "loadmap" {
				resync[op.Slot] = false
			}
			if resync[op.Slot] && op.Slot != "" {
				continue // the model lost track of this document (failed change)
			}
			if e.Skip {
				continue
			}
			if e.Eval != nil {
				own := inj
				for i := range e.Eval.Runs {
					own += slow[e.Eval.Runs[i].p.ID]
				}
				judgeEval(c, res, ti, oi, op, e, r, byProg, own, add)
				if e.Any {
					resync[op.Slot] = true
				}
				if op.Go && e.Err {
					for _, s := range e.Eval.Stops {
						if run := &e.Eval.Runs[s]; run.stop.kind == "halt" && !run.p.JS {
							givenUp++
						}
					}
				}
				continue
			}
			if e.Any && !e.Err {
				if r.Panicked && (r.RTPanic || op.K == "raw") {
					add("panic-escape", ti, oi, "%s panicked: %s", op.K, r.Panic)
				}
				resync[op.Slot] = true
				continue
			}
			judgeDocOp(c, ti, oi, op, e, r, inj, add)
			if e.Any && e.Err {
				resync[op.Slot] = true
			}
		}
	}
	for id, ms := range byProg {
		if id != "" && !known[id] && !raw {
			add("foreign", -1, -1, "message %q of a script that is in no document of this run", short(res.Msgs[ms[0].i].Data))
		}
	}
	for _, k := range sharedKeys(c) {
		m, _ := asRoot(c.Shared[k].V)
		if got, ok := res.Shared[k]; ok && !res.Late && got != canon(m) {
			add("doc-changed", -1, -1, "shared document %s changed: %s, was %s", k, got, canon(m))
		}
	}
	if !res.Late {
		if res.Live > givenUp {
			add("leak", -1, -1, "%d goroutines alive after the halting limit has passed since the last operation returned (%d given-up callbacks)", res.Live, givenUp)
		} else if res.LiveEnd > 0 {
			add("leak", -1, -1, "%d goroutines alive after every given-up callback has returned", res.LiveEnd)
		}
	}
	return out
}

// longest is the deliberate work (ms) of the busiest script.
func (m *evalModel) longest() (ms float64) {
	for i := range m.Runs {
		if m.Runs[i].ms > ms {
			ms = m.Runs[i].ms
		}
	}
	return
}

func isHaltText(s string) bool { return strings.Contains(s, "Infinite loop") }

const slackNS = int64(500e6)

func judgeEval(c *Case, res *Result, ti, oi int, op *Op, e *Exp, r *OpResult, byProg map[string][]parsed, inj int64, add func(string, int, int, string, ...interface{})) {
	failed := r.IsErr || r.Panicked
	text := r.Err + r.Panic
	limit := c.limit()
	ev := e.Eval
	if op.K == "eval" && r.Panicked {
		add("panic-escape", ti, oi, "evaluation panicked instead of returning an error: %s", r.Panic)
	}
	if op.K != "eval" && r.Panicked && r.RTPanic && !strings.Contains(op.Note, "rt") {
		add("panic-escape", ti, oi, "internal runtime error: %s", r.Panic)
	}
	if !e.Err {
		if failed {
			if isHaltText(text) {
				// excused only if the injected delays could have used up the limit
				if int64(ev.longest()*1e6)+inj < limit*95/100 {
					add("false-halt", ti, oi, "reported as an infinite loop although no script works for more than %.0f ms (limit %d s): %s", ev.longest(), c.Delay, text)
				}
			} else {
				add("unexpected-error", ti, oi, "%s", text)
			}
			return
		}
		if op.K != "runslot" {
			var got interface{}
			if err := json.Unmarshal([]byte(r.Out), &got); err != nil {
				add("output", ti, oi, "output is not JSON: %v: %s", err, r.Out)
			} else if g, w := canon(got), canon(ev.Tree); g != w {
				add("output", ti, oi, "got %s, want %s", diffAt(g, w), diffAt(w, g))
				for _, run := range ev.Runs {
					if run.p.Mute { // whose effects tell whether it ran
						add("silent-effect", ti, oi, "got %s, want %s", diffAt(g, w), diffAt(w, g))
						break
					}
				}
				if hasScript(got) {
					add("left-script", ti, oi, "script left in the output: %s", r.Out)
				}
			}
		} else if e.State != nil && r.State != *e.State {
			add("output", ti, oi, "got %s, want %s", diffAt(r.State, *e.State), diffAt(*e.State, r.State))
			if strings.Contains(r.State, "#//!") || strings.Contains(r.State, "<callback>") {
				add("left-script", ti, oi, "script left in the document: %s", r.State)
			}
		}
	} else {
		if !failed {
			k := "missing-error"
			for _, s := range ev.Stops {
				if ev.Runs[s].stop.halts() {
					k = "no-halt"
				}
			}
			add(k, ti, oi, "evaluation succeeded although script %s must fail (%s)", ev.Runs[ev.Stops[0]].p.ID, ev.Runs[ev.Stops[0]].stop.kind)
			return
		}
		if op.K == "eval" && r.Out != "" {
			add("output-with-error", ti, oi, "output %q next to error %q", r.Out, text)
		}
		// the failure must be that of one of the programs that fail
		match := -1
		anyHalt, anyThrow := false, false
		for _, s := range ev.Stops {
			run := &ev.Runs[s]
			began := len(byProg[run.p.ID]) > 0 || run.p.Bare != "" || run.p.Mute
			if run.stop.either {
				anyHalt, anyThrow = true, true
				if began {
					match = s
				}
			} else if run.stop.halts() {
				anyHalt = true
				if isHaltText(text) && began {
					match = s
				}
			} else {
				anyThrow = true
				if !isHaltText(text) && began {
					match = s
				}
			}
		}
		switch {
		case match < 0 && isHaltText(text) && !anyHalt:
			if int64(ev.longest()*1e6)+inj < limit*95/100 {
				add("false-halt", ti, oi, "reported as an infinite loop: %s", text)
			}
		case match < 0 && !isHaltText(text) && !anyThrow:
			add("no-halt", ti, oi, "the error does not report an infinite loop: %s", text)
		case match >= 0:
			run := &ev.Runs[match]
			if run.stop.kind == "throw" && len(ev.Stops) == 1 {
				if run.stop.text != "" && !strings.Contains(text, run.stop.text) {
					add("error-text", ti, oi, "the error does not contain %q: %s", run.stop.text, text)
				}
				if !op.Go && op.Note != "noscope" && !strings.Contains(text, "<"+run.scope+">") {
					add("error-scope", ti, oi, "the error does not name the scope <%s>: %s", run.scope, text)
				}
			}
			if run.stop.kind == "halt" && len(ev.Stops) == 1 {
				if !strings.Contains(text, "<"+run.scope+">") {
					add("error-scope", ti, oi, "the error does not name the scope <%s>: %s", run.scope, text)
				}
				tb := byProg[run.p.ID][0].t
				el := r.End - tb
				if el > limit+slackNS+inj {
					add("late-halt", ti, oi, "control came back %.3f s after the script started, limit %d s", float64(el)/1e9, c.Delay)
				}
				if el < limit-slackNS/2-inj {
					add("early-halt", ti, oi, "halted %.3f s after the script started, limit %d s", float64(el)/1e9, c.Delay)
				}
			}
		}
	}
	// console messages and markers
	type span struct {
		run        *progRun
		b, e       int
		first, cnt int
	}
	var spans []span
	stopped := len(ev.Stops) > 0
	for ri := range ev.Runs {
		run := &ev.Runs[ri]
		got := byProg[run.p.ID]
		if run.p.Bare != "" || run.p.Mute {
			continue
		}
		nb, ne := 0, 0
		sp := span{run: run, b: -1, e: -1}
		for _, m := range got {
			if m.kind == 'B' {
				nb++
				if sp.b < 0 {
					sp.b = m.i
				}
			}
			if m.kind == 'E' {
				ne++
				sp.e = m.i
			}
		}
		must := !stopped
		if nb == 0 && len(got) > 0 {
			add("console-content", ti, oi, "script %s wrote %d messages but not its first one", run.p.ID, len(got))
		}
		if nb == 0 {
			if must {
				add("script-missing", ti, oi, "script %s in scope %s did not run", run.p.ID, run.scope)
			}
			continue
		}
		if nb > 1 {
			add("script-twice", ti, oi, "script %s in scope %s ran %d times", run.p.ID, run.scope, nb)
			continue
		}
		if run.stop == nil && ne != 1 {
			// not finished: only the program that failed may do that
			if must {
				add("script-missing", ti, oi, "script %s in scope %s did not reach its end", run.p.ID, run.scope)
			}
		}
		// message sequence
		want := run.out
		for i, m := range got {
			if i >= len(want) {
				if op.Go && !run.p.JS && run.stop != nil && run.stop.kind == "halt" {
					break // a callback that was given up goes on
				}
				add("console-content", ti, oi, "script %s: extra message %q", run.p.ID, m.text)
				break
			}
			w := want[i]
			if m.text != w.Text() || m.err != w.Err {
				add("console-content", ti, oi, "script %s message %d: got %q (stderr=%v), want %q (stderr=%v)", run.p.ID, i, diffAt(m.text, w.Text()), m.err, diffAt(w.Text(), m.text), w.Err)
				break
			}
			if !strings.Contains(m.scopes, "<"+w.Scope+">") {
				add("console-scope", ti, oi, "script %s message %d: call from %q, want scope <%s>", run.p.ID, i, m.scopes, w.Scope)
				break
			}
		}
		if len(got) < len(want) && (run.stop != nil && !stoppedElsewhere(ev, ri) || !stopped) {
			add("console-content", ti, oi, "script %s: %d messages, want %d", run.p.ID, len(got), len(want))
		}
		if sp.e < 0 {
			sp.e = 1 << 30
		}
		spans = append(spans, sp)
	}
	for i := range spans {
		for j := i + 1; j < len(spans); j++ {
			a, b := &spans[i], &spans[j]
			// non-overlap
			if a.b < b.e && b.b < a.e {
				add("overlap", ti, oi, "scripts %s and %s overlap", a.run.p.ID, b.run.p.ID)
			}
			if a.run.scope == b.run.scope || strings.HasPrefix(b.run.scope, a.run.scope+".") {
				if b.b < a.e && a.run.stop == nil {
					add("order", ti, oi, "script %s (scope %s, key %q) must finish before %s (scope %s, key %q) starts", a.run.p.ID, a.run.scope, a.run.key, b.run.p.ID, b.run.scope, b.run.key)
				}
			}
		}
	}
}

// stoppedElsewhere: another failing program may have ended the evaluation.
func stoppedElsewhere(ev *evalModel, ri int) bool {
	for _, s := range ev.Stops {
		if s != ri {
			return true
		}
	}
	return false
}

func diffAt(a, b string) string {
	if os.Getenv("FULL") != "" {
		return a
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	s := i - 40
	if s < 0 {
		s = 0
	}
	t := i + 80
	if t > len(a) {
		t = len(a)
	}
	return fmt.Sprintf("@%d …%s…", i, a[s:t])
}

func judgeDocOp(c *Case, ti, oi int, op *Op, e *Exp, r *OpResult, inj int64, add func(string, int, int, string, ...interface{})) {
	text := r.Err + r.Panic
	failed := r.IsErr || r.Panicked
	panics := op.K == "mustget" || op.K == "mustset" || op.K == "mustdel" || op.K == "push" || op.K == "pop"
	read := op.K == "get" || op.K == "abs" || op.K == "mustget" || op.K == "rawget"
	path := op.S
	if op.Path != nil {
		path = op.Path.String()
	}
	if r.Panicked && (!panics || r.RTPanic) {
		add("panic-escape", ti, oi, "%s %s panicked: %s", op.K, path, r.Panic)
		return
	}
	el := r.End - r.Start
	if e.Err {
		if !failed {
			k := "missing-error"
			if e.Halt {
				k = "no-halt"
			} else if read {
				k = "select"
			}
			add(k, ti, oi, "%s %s must fail, returned %v", op.K, path, r.Vals)
			return
		}
		if read && len(r.Vals) > 0 {
			add("output-with-error", ti, oi, "%s %s returned values %v next to error %s", op.K, path, r.Vals, text)
		}
		if e.Halt {
			want := int64(e.Ms * 1e6)
			if !isHaltText(text) {
				add("no-halt", ti, oi, "%s %s: the error does not report an infinite loop: %s", op.K, path, text)
			}
			own := int64(0) // what the filters themselves take
			if c.Cfg.CostSteps > 0 {
				own = int64(5000+500*recsLen(c)) * c.Cfg.CostTick / int64(c.Cfg.CostSteps)
			}
			if el > want+slackNS+own+inj {
				add("late-halt", ti, oi, "%s %s came back after %.3f s, must be %.3f s", op.K, path, float64(el)/1e9, float64(want)/1e9)
			}
			if el < want-slackNS/2-inj && op.Note != "early-ok" {
				add("early-halt", ti, oi, "%s %s halted after %.3f s, must be %.3f s", op.K, path, float64(el)/1e9, float64(want)/1e9)
			}
		} else if isHaltText(text) && !e.Either && inj < int64(900e6) {
			add("false-halt", ti, oi, "%s %s: %s", op.K, path, text)
		}
		return
	}
	if failed {
		if isHaltText(text) {
			if inj < int64(40e6) || op.Note != "near" {
				add("false-halt", ti, oi, "%s %s: %s", op.K, path, text)
			}
		} else {
			k := "docop-error"
			if read {
				k = "select"
			}
			add(k, ti, oi, "%s %s failed: %s", op.K, path, text)
		}
		return
	}
	for _, t := range r.Back {
		add("select", ti, oi, "%s %s: absolute path %s", op.K, path, t)
	}
	if e.HasVals {
		if g, w := strings.Join(r.Vals, " "), strings.Join(e.Vals, " "); g != w {
			k := "select"
			if !read {
				k = "docop"
			}
			add(k, ti, oi, "%s %s returned %s, want %s", op.K, path, diffAt(g, w), diffAt(w, g))
		}
	}
	if e.Out != nil && r.Out != *e.Out {
		add("docop", ti, oi, "%s returned %s, want %s", op.K, diffAt(r.Out, *e.Out), diffAt(*e.Out, r.Out))
	}
	if e.State != nil && r.State != *e.State {
		add("docop-state", ti, oi, "%s %s left %s, want %s", op.K, path, diffAt(r.State, *e.State), diffAt(*e.State, r.State))
	}
}

// recsLen is how many nodes the filters of a case look at, beyond the usual few.
func recsLen(c *Case) int {
	n := 0
	for _, t := range c.Threads {
		for _, op := range t.Ops {
			if d, ok := op.Doc.V.(M); ok {
				if a, ok := d["recs"].(A); ok && len(a) > 10 && len(a) > n {
					n = len(a)
				}
			}
		}
	}
	return n
}
