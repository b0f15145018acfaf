package main

import (
	"bytes"
	"fmt"
	"strings"
)

// ---- one workload generator per property ----

type kind int

func (g *gen) nth(t int) *Thread {
	for len(g.c.Threads) <= t {
		g.c.Threads = append(g.c.Threads, Thread{})
	}
	return &g.c.Threads[t]
}

// at makes t the thread that receives the following operations.
func (g *gen) at(t int) { g.ti, g.oi, g.np = t, len(g.nth(t).Ops), 0 }

func (g *gen) add(op Op) *Op {
	th := g.nth(g.ti)
	if op.K == "abs" {
		op.Back = true
		for _, s := range op.Path {
			if s.K == "filter" { // not evaluated again, for the time this takes
				op.Back = false
			}
		}
	}
	th.Ops = append(th.Ops, op)
	g.oi, g.np = len(th.Ops), 0
	return &th.Ops[len(th.Ops)-1]
}

func (g *gen) limMS() float64 { return float64(g.c.Delay) * 1000 }

// evalOp wraps a document with scripts into an operation.
func (g *gen) evalOp(o docOpt, native bool) Op {
	g.native = native
	if native {
		o.array = false
	}
	doc := g.scriptDoc(o)
	g.native = false
	return g.wrapDoc(doc, native)
}

func (g *gen) wrapDoc(doc interface{}, native bool) Op {
	if native {
		if g.r.P(1, 2) {
			g.mixLang(doc)
		}
		return Op{K: "runmap", Doc: Tree{doc}, Go: true}
	}
	if m, ok := doc.(M); ok && g.r.P(1, 8) {
		return Op{K: "runmap", Doc: Tree{m}}
	}
	return Op{K: "eval", Doc: Tree{doc}, Perm: g.perm()}
}

// mixLang turns callbacks into JavaScript where that is possible (a script
// cannot be given an object that still holds callbacks).
func (g *gen) mixLang(v interface{}) (natives bool) {
	switch v := v.(type) {
	case A:
		for _, e := range v {
			if g.mixLang(e) {
				natives = true
			}
		}
		return
	case M:
		var ks []string
		for _, k := range sortedKeys(v) {
			if _, ok := v[k].(*Prog); ok {
				ks = append(ks, k)
			} else if g.mixLang(v[k]) {
				natives = true
			}
		}
		for _, k := range ks {
			// a script added to an object with callbacks could not run
			p := v[k].(*Prog)
			keep := p.Stmts[:0]
			for _, s := range p.Stmts {
				if s.Op == "addscript" {
					if natives {
						continue
					}
					s.Prog.JS = true
				}
				keep = append(keep, s)
			}
			p.Stmts = keep
		}
		from := len(ks)
		if !natives {
			from = g.r.Intn(len(ks) + 1)
		}
		for i, k := range ks {
			p := v[k].(*Prog)
			if i >= from && !p.onlyNative() {
				p.JS = true
			} else if i >= from {
				from = len(ks)
				natives = true
				for _, k2 := range ks[:i] {
					v[k2].(*Prog).JS = false
				}
			} else {
				natives = true
			}
		}
		return
	}
	return false
}

func (p *Prog) onlyNative() bool {
	for _, s := range p.Stmts {
		switch s.Op {
		case "sleep", "block", "rtpanic", "forever", "throw", "legacy":
			return true
		}
	}
	return false
}

// runaway is a statement that never ends within the limit.
func (g *gen) runaway(native bool) Stmt {
	if native {
		switch g.r.Intn(4) {
		case 0:
			return Stmt{Op: "forever"}
		case 1:
			return Stmt{Op: "sleep", N: g.limMS() * float64(g.r.Range(115, 160)) / 100}
		default:
			return Stmt{Op: "block"}
		}
	}
	if g.r.P(1, 8) {
		return Stmt{Op: "spin", N: g.limMS() * float64(g.r.Range(115, 300)) / 100}
	}
	switch g.r.Intn(14) {
	case 0, 1:
		return Stmt{Op: "late", N: float64(g.r.Intn(len(lateJS)))}
	case 2:
		return Stmt{Op: "stuck", N: float64(g.r.Intn(len(stuckJS)))}
	}
	return Stmt{Op: "forever", N: float64(g.r.Intn(foreverVariants))}
}

func (g *gen) haltDoc(native bool) Op {
	o := docOpt{scripts: g.r.Range(1, 6), stmts: g.r.Range(0, 3), fail: []Stmt{g.runaway(native)}, array: true}
	if g.r.P(1, 3) {
		o.spin = func() float64 { return g.limMS() * float64(g.r.Int(0, 0, 10, 40, 70)) / 100 }
	}
	if g.r.P(1, 8) && !native {
		// more than one
		o.fail = append([]Stmt{{Op: "print"}}, o.fail...)
	}
	return g.evalOp(o, native)
}

// filterDoc has records under keys "recs" and "objs"; some of them are marked
// with kind == mark.
func (g *gen) filterDoc(n, marked int, deepen bool) M {
	recs, objs := A{}, M{}
	mk := map[int]bool{}
	for len(mk) < marked && len(mk) < n {
		mk[g.r.Intn(n)] = true
	}
	for i := 0; i < n; i++ {
		e := M{"kind": "ok", "age": float64(g.r.Range(0, 50)), "name": g.r.Str("Ann", "Bob", "Cyd")}
		if mk[i] {
			e["kind"] = "bad"
		}
		if g.r.P(1, 4) {
			e["sub"] = g.obj(1)
		}
		recs = append(recs, e)
		objs[g.r.Str("p", "q", "Z", "_")+string(rune('a'+i))] = clone(e)
	}
	d := M{"recs": recs, "objs": objs, "lim": float64(g.r.Range(5, 30))}
	if deepen {
		d["deep"] = M{"x": M{"recs": clone(recs)}, "y": A{M{"objs": clone(objs)}}}
	}
	for i, n := 0, g.r.Range(0, 3); i < n; i++ {
		d[g.key()] = g.value(1)
	}
	return d
}

func (g *gen) filterPath(f *Filter, deep bool) Path {
	fs := Step{K: "filter", F: f}
	var p Path
	switch x := g.r.Intn(6); {
	case x < 2:
		p = Path{{K: "key", Key: "recs"}, fs}
	case x < 4:
		p = Path{{K: "key", Key: "objs"}, fs}
	case deep && x < 5:
		p = Path{{K: "key", Key: "deep"}, {K: "key", Key: "x"}, {K: "key", Key: "recs"}, fs}
	default:
		p = Path{{K: "rec", Key: "recs"}, fs}
	}
	if g.r.P(1, 2) {
		p = append(p, Step{K: "key", Key: g.r.Str("age", "name")})
	}
	return p
}

// runFilter is a filter that never ends (or overruns) on marked nodes.
func (g *gen) runFilter() *Filter {
	f := &Filter{K: "forif", Key: "kind", S: "bad", N: float64(g.r.Intn(foreverVariants))}
	if g.r.P(1, 5) {
		f = &Filter{K: "spinif", Key: "kind", S: "bad", N: float64(g.r.Range(1150, 4000))}
	}
	switch g.r.Intn(6) {
	case 0: // on every node
		n := float64(g.r.Intn(foreverVariants))
		if g.r.P(1, 3) {
			return &Filter{K: "spin", N: float64(g.r.Range(1150, 4000)), X: &Filter{K: "true"}}
		}
		return &Filter{K: "forever", N: n}
	case 4:
		return &Filter{K: "and", X: f, Y: &Filter{K: "gt", Key: "age", N: 10}}
	case 1:
		return &Filter{K: "and", X: &Filter{K: "nes", Key: "name", S: "none"}, Y: f}
	}
	return f
}

// spinFilter is busy on nodes, within the limit.
func (g *gen) spinFilter(maxMS int) *Filter {
	ms := float64(g.r.Int(maxMS, maxMS*2/3, maxMS/3, maxMS/10))
	if g.r.P(1, 2) {
		return &Filter{K: "spin", N: ms, X: &Filter{K: g.r.Str("gt", "le"), Key: "age", N: float64(g.r.Range(0, 50))}}
	}
	return &Filter{K: "and", X: &Filter{K: "spinif", Key: "kind", S: g.r.Str("bad", "ok"), N: ms}, Y: &Filter{K: "has", Key: "name"}}
}

func (g *gen) getKind() string { return g.r.Str("get", "get", "abs", "mustget") }

// filterOps loads a document and selects with a filter.
func (g *gen) filterOps(slot string, f *Filter, n, marked int) {
	g.add(Op{K: "load", Slot: slot, Doc: Tree{g.filterDoc(n, marked, true)}, Perm: g.perm()})
	g.add(Op{K: g.getKind(), Slot: slot, Path: g.filterPath(f, true)})
}

// innerFilter is a document one script of which selects with filter f.
func (g *gen) innerFilter(f *Filter, n, marked int, op string) Op {
	d := g.filterDoc(n, marked, false)
	p := &Prog{ID: g.id(), Stmts: []Stmt{{Op: op, Path: g.filterPath(f, false)}}}
	if g.r.P(1, 2) {
		p.Stmts = append(p.Stmts, Stmt{Op: "set", K: "done", V: Tree{true}})
	}
	d[".$"] = p
	if g.r.P(1, 2) {
		d["zz"] = &Prog{ID: g.id(), Stmts: []Stmt{{Op: "add", K: "lim", N: 1}}}
	}
	if g.r.P(1, 3) {
		return g.wrapDoc(M{"top": d, "other": g.obj(1)}, false)
	}
	return g.wrapDoc(d, false)
}

func (g *gen) nap() {
	g.add(Op{K: "sleep", N: float64(g.r.Int(1, 50, 100, 300, 500, 900, 1000, 1100, 2500))})
}

// healthy operations of many kinds.
func (g *gen) healthy(slot string, note string) {
	switch g.r.Intn(6) {
	case 0, 1:
		op := g.evalOp(docOpt{scripts: g.r.Range(1, 6), stmts: g.r.Range(1, 4), array: true, gets: true, leak: g.r.P(1, 3)}, false)
		op.Note = note
		g.add(op)
	case 2:
		op := g.evalOp(docOpt{scripts: g.r.Range(1, 4), stmts: g.r.Range(1, 4)}, true)
		op.Note = note
		g.add(op)
	case 3:
		op := g.evalOp(docOpt{scripts: g.r.Range(1, 3), stmts: g.r.Range(0, 2), spin: func() float64 {
			return g.limMS() * float64(g.r.Int(5, 30, 60, 85)) / 100
		}}, g.r.P(1, 4))
		op.Note = note
		g.add(op)
	case 4:
		g.add(Op{K: "load", Slot: slot, Doc: Tree{g.filterDoc(g.r.Range(1, 5), 1, true)}, Perm: g.perm(), Note: note})
		g.add(Op{K: g.getKind(), Slot: slot, Path: g.filterPath(g.spinFilter(850), true), Note: note})
	default:
		d := g.doc(3)
		g.add(Op{K: "load", Slot: slot, Doc: Tree{d}, Perm: g.perm(), Note: note})
		for i, n := 0, g.r.Range(1, 3); i < n; i++ {
			g.add(Op{K: g.getKind(), Slot: slot, Path: g.path(d, pathOpt{filter: true}), Note: note})
		}
	}
}

// halting operations of every kind.
func (g *gen) halting(slot string) {
	x := g.r.Intn(20)
	if x >= 17 && g.c.Delay < 3 {
		x = g.r.Intn(17)
	}
	switch {
	case x < 8:
		g.add(g.haltDoc(false))
	case x < 12:
		g.add(g.haltDoc(true))
	case x < 17:
		n := g.r.Range(1, 6)
		f := g.runFilter()
		if f.K != "forever" && f.K != "spin" && g.r.P(1, 4) {
			f = &Filter{K: "and", X: g.spinFilter(800), Y: f}
			if f.X.K == "and" {
				f.X = f.X.X
			}
			// one deliberate delay per node at most
			if f.X.K == "spinif" && f.X.S == "bad" || f.X.K == "spin" {
				f.X = &Filter{K: "spinif", Key: "kind", S: "ok", N: 700}
			}
		} else if f.K == "forif" && g.r.P(1, 8) { // far from the first node
			n = g.r.Int(20, 40, 70, 110)
		}
		g.filterOps(slot, f, n, g.r.Range(1, 2))
	default:
		g.add(g.innerFilter(g.runFilter(), g.r.Range(1, 4), 1, g.r.Str("getspin", "getthrow")))
	}
}

var malformed = []string{"var = ;", "}", "function(", "'unterminated", "throw", "if (", "x = = 1", "for(;;", "return return", "\u0000", "json.trail = 5;", "json.trail = undefined;", "json.trail.self = json.trail;", "json.trail = [1,2];", "json = undefined;", "delete json.trail;", "json.trail = 'text';", "json.trail = function(){};", "JSON = undefined;"}

func (g *gen) failStmts(native bool) []Stmt {
	txt := "boom-" + g.r.Str("a1", "b2", "c3")
	if g.r.P(1, 4) {
		txt = g.r.Str("", "line1\nline2", "first\n\nthird\n", "100%", "%s%d", "\u00e9t\u00e9 \u65e5", " ", "a: b: c", "{}", "(-1)", strings.Repeat("long ", 1000))
	}
	if native {
		if g.r.P(1, 6) {
			return []Stmt{{Op: "rtpanic", S: txt, N: float64(g.r.Intn(3))}}
		}
		return []Stmt{{Op: "throw", S: txt, N: float64(g.r.Intn(4))}}
	}
	switch g.r.Intn(8) {
	case 0:
		return []Stmt{{Op: "recurse", N: float64(g.r.Int(0, 0, g.r.Intn(recurseVariants)))}}
	case 4:
		if g.r.P(1, 3) {
			return []Stmt{{Op: "override", N: float64(g.r.Intn(len(overrideJS) + len(vmFaults)))}}
		}
	case 1:
		return []Stmt{{Op: "getthrow", Path: Path{{K: "key", Key: "missing"}, {K: "key", Key: "deeper"}}}}
	case 2:
		return []Stmt{{Op: "setp", Path: Path{{K: "key", Key: "missing"}, {K: "key", Key: "deeper"}}, V: Tree{1.0}}}
	case 3:
		return []Stmt{{Op: "getthrow", Path: Path{{K: "wild"}, {K: "filter", F: &Filter{K: g.r.Str("syntax", "unknown", "recurse", "vmfault"), Key: "a"}}}}, {Op: "throw", S: txt}}
	}
	return []Stmt{{Op: "throw", S: txt, N: float64(g.r.Intn(throwVariants))}}
}

func (g *gen) failDoc(native bool) Op {
	o := docOpt{scripts: g.r.Range(1, 6), stmts: g.r.Range(0, 3), array: true, gets: g.r.P(1, 3)}
	if !native && g.r.P(1, 8) {
		o.bare, o.lang = "text", otherLangs[g.r.Intn(len(otherLangs))]
	} else if !native && g.r.P(1, 4) {
		o.bare = malformed[g.r.Intn(len(malformed))]
	} else {
		o.fail = g.failStmts(native)
	}
	op := g.evalOp(o, native)
	if native && len(o.fail) > 0 && o.fail[0].Op == "rtpanic" && o.fail[0].N != 1 {
		op.Note = "rt"
	}
	if o.lang != "" {
		op.Note = "noscope" // found before any scope is entered
	}
	return op
}

var rawDocs = []string{"", "{", "}", "[", "{\"a\":}", "{\"a\":1,,}", "nul", "{\"a\":\"\\u12\"}", "{a:'b", "{\"a\":[1,2}", "'''", "{\"a\":'''x", "{\"a\": \"#//!js\nthrow 1", "#", "/*", "{/*", "{\"\\ud800\":1}", "{\"a\":1e999}", "{\"a\":--1}", "[1,2", "\x00", "\xff\xfe", "{\"a\":\"#//!zz\"}", "{:1}", "{\"a\" 1}", "{a\n:b"}

var rawPaths = []string{"", "x", "$.a[", "$.a[]", "$.a[1", "$.a[?(]", "$.a[x]", "$.a[1:2:3]", "a.b", "$$", "$.a b", "$.recs[?(@.age >)]", "$.recs[?(]", "$.recs[?(@..$.x)]", "$.a[99999999999999999999]", "$.[", "$..[", "$.recs[?($.nope > @.age)]", "$[0]", "$.recs[0:9999]", "$.recs[3:1]", "\xff", "$.\u00e9"}

var rawSetPaths = []string{"", "x", "$.a[", "$.a[]", "$.a[1", "$.a[?(]", "$.a[x]", "$.a[1:2:3]", "a.b", "$$", "$.a[99999999999999999999]", "$.[", "$.recs[0:9999]", "$.recs[?(@.age >)]", "$.recs[?($.nope > @.age)].x", "$.nope.x", "$.lim.x.y"}

// failing operations of every kind (none of them halts).
func (g *gen) failing(slot string) {
	switch x := g.r.Intn(24); {
	case x < 8:
		g.add(g.failDoc(false))
	case x < 11:
		g.add(g.failDoc(true))
	case x < 14:
		g.add(Op{K: "raw", S: g.rawDoc(), Note: "maybe"})
	case x < 18:
		d := g.doc(3)
		g.add(Op{K: "load", Slot: slot, Doc: Tree{d}})
		for i, n := 0, g.r.Range(1, 3); i < n; i++ {
			g.add(Op{K: g.getKind(), Slot: slot, Path: g.path(d, pathOpt{bad: 35, filter: true})})
		}
	case x < 21:
		f := &Filter{K: g.r.Str("throwif", "throwif", "deep", "syntax", "recurse", "unknown", "vmfault"), Key: "kind", S: "bad", N: float64(g.r.Intn(len(filterThrows)))}
		if f.K == "throwif" && g.r.P(1, 3) {
			f = &Filter{K: "and", X: &Filter{K: "gt", Key: "age", N: -1}, Y: f}
		}
		g.filterOps(slot, f, g.r.Range(1, 5), 1)
		g.add(Op{K: "marshal", Slot: slot})
	case x < 22:
		g.add(Op{K: "load", Slot: slot, Doc: Tree{g.filterDoc(3, 1, false)}})
		g.add(Op{K: "rawget", Slot: slot, S: g.badPath()})
	case x < 23:
		g.add(Op{K: "load", Slot: slot, Doc: Tree{g.filterDoc(3, 1, false)}})
		g.add(Op{K: "rawset", Slot: slot, S: rawSetPaths[g.r.Intn(len(rawSetPaths))], V: Tree{1.0}})
		g.add(Op{K: "load", Slot: slot, Doc: Tree{g.doc(2)}})
	default:
		d := g.filterDoc(3, 1, false)
		g.add(Op{K: "load", Slot: slot, Doc: Tree{d}})
		g.add(Op{K: g.r.Str("mustset", "set", "push", "pop", "mustdel"), Slot: slot, Path: g.r.pathOf(
			Path{{K: "key", Key: "nope"}, {K: "key", Key: "x"}}, Path{{K: "key", Key: "recs"}, {K: "idx", Idx: []int{77}}, {K: "key", Key: "q"}}), V: Tree{"v"}})
	}
}

func (r *Rng) pathOf(ps ...Path) Path { return ps[r.Intn(len(ps))] }

func (g *gen) rawDoc() string {
	if g.r.P(1, 3) {
		// a valid document, damaged
		b := encode(g.scriptDoc(docOpt{scripts: 1, stmts: 1}), nil)
		for _, f := range []string{"console.log", "console.error", "printlnExternal"} {
			b = bytes.ReplaceAll(b, []byte(f), []byte("Math.floor")) // quiet
		}
		switch g.r.Intn(3) {
		case 0:
			return string(b[:g.r.Intn(len(b))])
		case 1:
			b[g.r.Intn(len(b))] ^= byte(1 << g.r.Intn(7))
			return string(b)
		default:
			i := g.r.Intn(len(b))
			return string(b[:i]) + g.r.Str("{", "}", "\"", "[", ",", ":", "'''") + string(b[i:])
		}
	}
	return rawDocs[g.r.Intn(len(rawDocs))]
}

func (g *gen) badPath() string { return rawPaths[g.r.Intn(len(rawPaths))] }

func genCase(prop string, seed uint64) *Case {
	g := newGen(prop, seed)
	g.at(0)
	switch prop {
	case "C01":
		g.genC01()
	case "C02":
		g.genC02()
	case "C03":
		g.genC03()
	case "C04":
		g.genC04()
	case "C05":
		g.genC05()
	case "C06":
		g.genC06()
	case "C07":
		g.genC07()
	case "C08":
		g.genC08()
	case "C09":
		g.genC09()
	case "C10":
		g.genC10()
	case "C11":
		g.genC11()
	case "C13":
		g.genC13()
	case "C14":
		g.genC14()
	case "C12", "C15":
		return genCLI(prop, seed)
	default:
		panic("harness: no generator for " + prop)
	}
	g.c.Cfg = g.cfg()
	if g.loops {
		g.c.Cfg.CostTick, g.c.Cfg.StallRate = g.c.Cfg.CostTick/20, 0
	}
	if prop == "C05" {
		c2 := g.cfg()
		c2.CostSteps, c2.CostTick = g.c.Cfg.CostSteps, g.c.Cfg.CostTick
		g.c.Cfg2 = &c2
	}
	return g.c
}

func (g *gen) threads(max int) int {
	if g.r.P(1, 2) {
		return 1
	}
	return g.r.Range(1, max)
}

func (g *gen) genC01() {
	for t, n := 0, g.threads(4); t < n; t++ {
		g.at(t)
		for i, k := 0, g.r.Range(1, 3); i < k; i++ {
			switch x := g.r.Intn(10); {
			case x < 7 || t == 0 && i == 0:
				if g.r.P(1, 25) {
					g.burst()
				}
				g.halting("s")
			case x < 8:
				g.nap()
			default:
				g.healthy("h", "")
			}
		}
	}
}

// burst is many short evaluations in a short time.
func (g *gen) burst() {
	list := A{}
	for i, n := 0, g.r.Int(20, 70, 140); i < n; i++ {
		list = append(list, M{"n": float64(i), "s": &Prog{ID: g.id(), Mute: true, Stmts: []Stmt{{Op: "add", K: "n", N: 1}}}})
	}
	g.add(g.wrapDoc(M{"list": list}, false))
	for i, n := 0, g.r.Int(0, 0, 5, 20); i < n; i++ {
		g.add(g.wrapDoc(M{"n": 1.0, "s": &Prog{ID: g.id(), Mute: true, Stmts: []Stmt{{Op: "add", K: "n", N: 1}}}}, false))
	}
}

// crowd is many evaluations at the same time, each of which is busy for a
// large part of the limit.
func (g *gen) crowd() {
	native := g.r.P(1, 5)
	for t, n := 0, g.r.Int(7, 8, 10, 14, 20, 34); t < n; t++ {
		g.at(t)
		if !native && g.r.P(1, 6) {
			g.add(g.evalOp(docOpt{scripts: 1, stmts: 1}, false))
			continue
		}
		if !native && g.r.P(1, 8) {
			g.add(Op{K: "load", Slot: "s", Doc: Tree{g.filterDoc(2, 1, false)}, Perm: g.perm()})
			g.add(Op{K: "get", Slot: "s", Path: g.filterPath(g.spinFilter(700), false)})
			continue
		}
		g.add(g.evalOp(docOpt{scripts: 1, stmts: g.r.Range(0, 1), spin: func() float64 {
			return g.limMS() * float64(g.r.Int(30, 60, 80, 85)) / 100
		}}, native))
	}
}

func (g *gen) genC02() {
	if g.r.P(1, 60) {
		g.crowd()
		return
	}
	halters := g.r.P(1, 2)
	for t, n := 0, g.threads(4); t < n; t++ {
		g.at(t)
		for i, k := 0, g.r.Range(1, 4); i < k; i++ {
			switch x := g.r.Intn(20); {
			case x < 5:
				g.add(g.evalOp(docOpt{scripts: g.r.Range(1, 5), stmts: g.r.Range(0, 1), array: true, spin: func() float64 {
					return g.limMS() * float64(g.r.Int(0, 5, 30, 50, 70, 90, 90)) / 100
				}}, false))
			case x < 8:
				g.add(g.evalOp(docOpt{scripts: g.r.Range(1, 5), stmts: g.r.Range(0, 2), spin: func() float64 {
					return g.limMS() * float64(g.r.Int(0, 5, 30, 50, 70, 90, 90)) / 100
				}}, true))
			case x < 14:
				g.filterOps("s", g.spinFilter(g.r.Int(930, 930, 800, 600, 500)), g.r.Range(1, 7), g.r.Range(0, 3))
				if g.r.P(1, 3) {
					g.add(Op{K: g.getKind(), Slot: "s", Path: g.filterPath(g.spinFilter(930), true)})
				}
			case x < 15:
				if g.r.P(1, 6) {
					g.burst()
					break
				}
				if g.c.Delay < 3 {
					g.nap()
					break
				}
				g.add(g.innerFilter(g.spinFilter(min(g.c.Delay*200, 800)), g.r.Range(1, 3), 1, "getspin"))
			case x < 17:
				g.nap()
			case x < 18:
				g.healthy("h", "")
			default:
				if halters {
					g.halting("s")
				} else {
					g.healthy("h", "")
				}
			}
		}
	}
}

func (g *gen) genC03() {
	for t, n := 0, g.threads(3); t < n; t++ {
		g.at(t)
		for i, k := 0, g.r.Range(1, 2); i < k; i++ {
			if g.r.P(1, 4) {
				g.life("l")
				continue
			}
			if g.r.P(1, 12) {
				g.add(g.wrapDoc(g.twins(), false))
				continue
			}
			o := docOpt{scripts: g.r.Int(1, 3, 6, 10, 16, 25), stmts: g.r.Range(0, 3), array: true}
			g.add(g.evalOp(o, g.r.P(1, 3)))
		}
	}
}

func (g *gen) genC04() {
	for t, n := 0, g.threads(3); t < n; t++ {
		g.at(t)
		for i, k := 0, g.r.Range(1, 3); i < k; i++ {
			if g.r.P(1, 10) {
				g.add(g.wrapDoc(g.twins(), false))
				continue
			}
			o := docOpt{scripts: g.r.Int(1, 2, 4, 7, 12), stmts: g.r.Range(1, 7), array: true, leak: g.r.P(1, 2), gets: g.r.P(1, 2)}
			if g.r.P(1, 10) {
				// evaluated in place
				g.add(Op{K: "load", Slot: "e", Doc: Tree{g.scriptDoc(o)}, Perm: g.perm()})
				g.fixLoad()
				continue
			}
			if g.r.P(1, 8) {
				g.life("l")
				continue
			}
			g.add(g.evalOp(o, g.r.P(1, 4)))
		}
	}
}

// fixLoad follows a load of a document with scripts with its evaluation.
func (g *gen) fixLoad() {
	if g.r.P(1, 3) {
		g.add(Op{K: "strip", Slot: "e"})
	}
	g.add(Op{K: "runslot", Slot: "e"})
	g.add(Op{K: "marshal", Slot: "e"})
}

// life is the life of one document with scripts: scripts are added, removed
// and run, interleaved with reads and changes.
func (g *gen) life(slot string) {
	native := g.r.P(1, 4)
	o := docOpt{scripts: g.r.Range(1, 7), stmts: g.r.Range(0, 3), array: !native, gets: g.r.P(1, 4), noRepl: true}
	load := func() interface{} {
		g.native = native
		d := g.scriptDoc(o)
		if native {
			if g.r.P(1, 2) {
				g.mixLang(d)
			}
			g.native = false
			g.add(Op{K: "loadmap", Slot: slot, Doc: Tree{d}, Go: true})
			return clone(d)
		}
		g.add(Op{K: "load", Slot: slot, Doc: Tree{d}, Perm: g.perm()})
		return clone(d)
	}
	cur := load()
	lim := g.limMS()
	for i, n := 0, g.r.Range(2, 8); i < n; i++ {
		root, isObj := cur.(M)
		var ms float64
		switch x := g.r.Intn(20); {
		case x < 7:
			if !isObj || native && hasScript(cur) {
				continue // a script cannot be given an object that holds callbacks
			}
			p, m := g.place(root)
			pr := g.prog(progOpt{scope: m, n: g.r.Range(0, 3)})
			g.add(Op{K: "markup", Slot: slot, Path: p, Prog: pr, Go: native && g.r.P(1, 2)})
			setPath(root, p, pr, &ms)
		case x < 10:
			g.add(Op{K: "strip", Slot: slot})
			stripModel(cur)
		case x < 14:
			g.add(Op{K: "runslot", Slot: slot, Go: native})
			ev := evalDoc(cur, lim)
			if len(ev.Stops) > 0 {
				cur = load()
			} else {
				cur = ev.Tree
			}
		case x < 16:
			if native && hasScript(cur) {
				continue
			}
			g.add(Op{K: g.r.Str("marshal", "string"), Slot: slot})
		default:
			if !isObj {
				continue
			}
			g.noFilt = true
			op := g.docOp(root)
			g.noFilt = false
			if op == nil || native && (op.K == "marshal" || op.K == "string") {
				continue
			}
			op.Slot = slot
			if op.K != "get" && op.K != "mustget" {
				// only places without scripts, so that none is duplicated
				if !op.Path.isDefinite() {
					continue
				}
				t := cloneM(root)
				var err error
				switch op.K {
				case "set", "mustset":
					err = setPath(t, op.Path, op.V.V, &ms)
				case "del", "mustdel":
					err = setPath(t, op.Path, nil, &ms)
				default:
					v, e := walk(t, op.Path.norm(), t, &ms)
					if a, ok := v.(A); e != nil || !ok || len(a) == 0 {
						continue
					}
				}
				if err != nil {
					continue
				}
				root = g.follow(root, op)
				cur = root
			}
			g.add(*op)
		}
	}
	g.add(Op{K: "runslot", Slot: slot, Go: native})
	g.add(Op{K: "marshal", Slot: slot})
}

// place is a place for a script in an object of a document.
func (g *gen) place(doc M) (Path, M) {
	var ps []Path
	var ms []M
	var walkV func(v interface{}, at Path)
	walkV = func(v interface{}, at Path) {
		switch v := v.(type) {
		case M:
			ps, ms = append(ps, at), append(ms, v)
			for _, k := range sortedKeys(v) {
				if pathKey(k) {
					walkV(v[k], append(append(Path{}, at...), Step{K: "key", Key: k}))
				}
			}
		case A:
			for i, e := range v {
				walkV(e, append(append(Path{}, at...), Step{K: "idx", Idx: []int{i}}))
			}
		}
	}
	walkV(doc, nil)
	i := 0
	if g.r.P(2, 3) {
		i = g.r.Intn(len(ps))
	}
	return append(append(Path{}, ps[i]...), Step{K: "key", Key: g.r.Str("S", "s1", "s2", "s10", "zs", "As", "_s", "s-1")}), ms[i]
}

func (g *gen) genC05() {
	for t, n := 0, g.r.Int(1, 1, 1, 2); t < n; t++ {
		g.at(t)
		// history that only the second execution has
		for i, k := 0, g.r.Range(0, 3); i < k; i++ {
			from := len(g.nth(t).Ops)
			switch g.r.Intn(4) {
			case 0:
				g.halting("hist")
			case 1:
				g.failing("hist")
			case 2:
				g.healthy("hist", "")
			default:
				g.nap()
			}
			for j := from; j < len(g.nth(t).Ops); j++ {
				g.c.Threads[t].Ops[j].Note = "hist"
			}
		}
		for i, k := 0, g.r.Range(1, 3); i < k; i++ {
			switch x := g.r.Intn(20); {
			case x < 4:
				g.add(g.evalOp(docOpt{scripts: g.r.Int(3, 6, 12), stmts: g.r.Range(1, 4), array: true, gets: true, leak: true, keys: true}, g.r.P(1, 5)))
			case x < 7: // several scripts that fail
				op := g.evalOp(docOpt{scripts: g.r.Int(3, 6, 12), stmts: g.r.Range(0, 2), array: true}, false)
				var ps []*Prog
				progs(op.Doc.V, &ps)
				for j, m := 0, g.r.Range(1, 4); j < m; j++ {
					p := ps[g.r.Intn(len(ps))]
					p.Stmts = append(p.Stmts, g.failStmts(false)...)
				}
				g.add(op)
			case x < 8:
				g.halting("s")
			case x < 15:
				d := g.doc(3)
				g.add(Op{K: "load", Slot: "s", Doc: Tree{d}, Perm: g.perm()})
				for j, m := 0, g.r.Range(1, 4); j < m; j++ {
					g.add(Op{K: g.r.Str("get", "abs"), Slot: "s", Path: g.path(d, pathOpt{bad: g.r.Int(0, 10, 30), filter: true})})
				}
				g.add(Op{K: "string", Slot: "s"})
			case x < 16:
				g.add(Op{K: "load", Slot: "s", Doc: Tree{g.filterDoc(4, 2, true)}})
				f := &Filter{K: g.r.Str("throwif", "deep", "unknown", "vmfault", "firstkey", "firstkey"), Key: "kind", S: "bad", N: float64(g.r.Intn(len(filterThrows)))}
				if f.K == "firstkey" {
					f.Key = g.r.Str("age", "kind", "name", "sub")
				}
				g.add(Op{K: "get", Slot: "s", Path: g.filterPath(f, true)})
			case x < 18: // setters, failures included
				d := g.doc(3)
				g.add(Op{K: "load", Slot: "s", Doc: Tree{d}, Perm: g.perm()})
				for j, m := 0, g.r.Range(1, 3); j < m; j++ {
					g.add(Op{K: g.r.Str("set", "set", "del"), Slot: "s", Path: g.path(d, pathOpt{set: true, bad: g.r.Int(0, 20), filter: true}), V: Tree{g.plain()}, Note: "repeat"})
				}
			default:
				g.add(g.failDoc(g.r.P(1, 4)))
			}
		}
	}
}

func progs(v interface{}, out *[]*Prog) {
	switch v := v.(type) {
	case M:
		for _, k := range sortedKeys(v) {
			progs(v[k], out)
		}
	case A:
		for _, e := range v {
			progs(e, out)
		}
	case *Prog:
		*out = append(*out, v)
	}
}

func (g *gen) genC06() {
	if g.r.P(1, 40) {
		g.crowd()
		return
	}
	for t, n := 0, g.r.Range(2, 5); t < n; t++ {
		g.at(t)
		for i, k := 0, g.r.Range(1, 3); i < k; i++ {
			switch x := g.r.Intn(12); {
			case x < 5:
				g.add(g.evalOp(docOpt{scripts: g.r.Range(1, 6), stmts: g.r.Range(1, 5), array: true, gets: true, leak: true}, false))
			case x < 8:
				g.healthy("s", "")
			case x < 9:
				g.add(g.evalOp(docOpt{scripts: g.r.Range(1, 4), stmts: g.r.Range(1, 4)}, true))
			case x < 10:
				g.halting("s")
			default:
				g.failing("s")
			}
		}
	}
}

func (g *gen) genC07() {
	g.c.Shared = map[string]Tree{}
	docs := map[string]M{}
	names := []string{"sh0", "sh1"}[:g.r.Range(1, 2)]
	for _, n := range names {
		d := g.doc(3)
		if g.r.P(1, 3) {
			d = g.filterDoc(g.r.Range(1, 4), 1, true)
		}
		docs[n] = d
		g.c.Shared[n] = Tree{d}
		if g.r.P(1, 5) {
			docs[n], g.c.Shared[n] = g.rootArray(d)
		}
	}
	for t, n := 0, g.r.Range(2, 6); t < n; t++ {
		g.at(t)
		for i, k := 0, g.r.Range(1, 4); i < k; i++ {
			nm := names[g.r.Intn(len(names))]
			switch x := g.r.Intn(12); {
			case x < 8:
				p := g.path(docs[nm], pathOpt{bad: g.r.Int(0, 0, 10), filter: true})
				if g.r.P(1, 3) { // the deepest lookups
					p = Path{{K: "rec", Key: g.recKey(docs[nm])}}
				}
				g.add(Op{K: g.getKind(), Slot: nm, Path: p, Note: g.r.Str("", "", "", "", "clone")})
			case x < 9:
				g.add(Op{K: "marshal", Slot: nm})
			case x < 10:
				g.add(Op{K: "string", Slot: nm, Note: g.r.Str("", "", "clone")})
			case x < 11:
				g.add(Op{K: g.r.Str("isarray", "scope"), Slot: nm, Note: g.r.Str("", "clone")})
			default:
				if _, ok := docs[nm]["recs"]; ok {
					f := g.spinFilter(300)
					if g.r.P(1, 4) {
						f = g.runFilter()
					}
					g.add(Op{K: g.getKind(), Slot: nm, Path: g.filterPath(f, true)})
				} else {
					g.add(Op{K: "marshal", Slot: nm})
				}
			}
		}
	}
}

// rootArray is an array as a document, and as the paths see it.
func (g *gen) rootArray(d M) (M, Tree) {
	a := A{}
	if g.r.P(1, 2) {
		for _, k := range sortedKeys(d) {
			a = append(a, d[k])
		}
	} else {
		for i, n := 0, g.r.Range(1, 4); i < n; i++ {
			a = append(a, g.obj(2))
		}
		a = append(a, d)
	}
	return M{"array": a}, Tree{clone(a)}
}

// large is a document with an array of many values.
func (g *gen) large() M {
	n := g.r.Int(20, 33, 50, 65, 70, 100, 129, 140, 257, 300)
	a := A{}
	for i := 0; i < n; i++ {
		switch {
		case i%g.r.Int(2, 5, 9) == 0:
			a = append(a, M{"id": float64(i), "n": g.num(), "in": M{"id": g.str()}})
		case g.r.P(1, 5):
			a = append(a, g.scalar())
		default:
			a = append(a, float64(i))
		}
	}
	d := g.obj(1)
	d["list"] = a
	if g.r.P(1, 2) {
		m := M{}
		for i, k := 0, g.r.Int(10, 30, 70); i < k; i++ {
			m[fmt.Sprintf("k%d", i)] = g.plain()
		}
		d["many"] = m
	}
	return d
}

// largePath is a path with many alternatives or into many values.
func (g *gen) largePath(d M, set bool) Path {
	a, _ := d["list"].(A)
	n := len(a)
	list := Step{K: "key", Key: "list"}
	if m, ok := d["many"].(M); ok && len(m) > 0 && g.r.P(1, 4) {
		if g.r.P(1, 3) {
			return Path{{K: "key", Key: "many"}, {K: "wild"}}
		}
		st := Step{K: "rec", Key: fmt.Sprintf("k%d", g.r.Intn(len(m)+1))}
		return Path{st}
	}
	if n == 0 {
		return Path{{K: "rec", Key: "id"}}
	}
	switch g.r.Intn(6) {
	case 0, 1, 2: // an index list
		st := Step{K: "idx"}
		for i, k := 0, g.r.Range(10, 64); i < k; i++ {
			x := g.r.Intn(n)
			if g.r.P(1, 10) {
				x = -1 - x
			}
			st.Idx = append(st.Idx, x)
		}
		if g.r.P(1, 8) && !set {
			st.Idx[g.r.Intn(len(st.Idx))] = n + g.r.Intn(3)
		}
		return Path{list, st}
	case 3:
		return Path{list, {K: "wild"}}
	case 4:
		return Path{{K: "rec", Key: g.r.Str("id", "n", "in")}}
	default:
		return Path{list, g.slice(n, set)}
	}
}

func (g *gen) genC08() {
	for t, n := 0, g.threads(3); t < n; t++ {
		g.at(t)
		if g.r.P(1, 30) {
			d := g.large()
			tree := Tree{d}
			if g.r.P(1, 6) {
				d, tree = M{"array": d["list"]}, Tree{clone(d["list"])}
				g.add(Op{K: "load", Slot: "s", Doc: tree, Perm: g.perm()})
				g.add(Op{K: g.getKind(), Slot: "s", Path: Path{{K: "key", Key: "array"}, g.slice(len(d["array"].(A)), false)}})
				continue
			}
			g.add(Op{K: "load", Slot: "s", Doc: tree, Perm: g.perm()})
			for i, k := 0, g.r.Range(1, 4); i < k; i++ {
				g.add(Op{K: g.getKind(), Slot: "s", Path: g.largePath(d, false)})
			}
			continue
		}
		d := g.doc(g.r.Range(2, 4))
		if g.r.P(1, 5) {
			d = g.filterDoc(g.r.Range(2, 6), 2, true)
		}
		tree := Tree{d}
		if g.r.P(1, 10) {
			d, tree = g.rootArray(d)
		}
		g.add(Op{K: "load", Slot: "s", Doc: tree, Perm: g.perm()})
		for i, k := 0, g.r.Range(2, 7); i < k; i++ {
			g.add(Op{K: g.getKind(), Slot: "s", Path: g.path(d, pathOpt{bad: g.r.Int(0, 5, 20), filter: true})})
		}
	}
}

// deep: recursion that is limited by the depth of the stack and not by time.
func (g *gen) deep() {
	g.cheap = true
	v := float64(g.r.Intn(recurseVariants))
	switch g.r.Intn(4) {
	case 0, 1:
		g.add(g.evalOp(docOpt{scripts: g.r.Range(1, 4), stmts: g.r.Range(0, 2), fail: []Stmt{{Op: "recurse", N: v}}}, false))
	case 2:
		g.add(g.evalOp(docOpt{scripts: g.r.Range(1, 3), fail: []Stmt{{Op: "catchrecurse", N: v}, {Op: "throw", S: "after"}}}, false))
	default:
		g.filterOps("s", &Filter{K: "recurse", Key: "kind", N: v}, g.r.Range(1, 2), 0)
		g.add(Op{K: "marshal", Slot: "s"})
	}
	if g.r.P(1, 2) {
		g.add(Op{K: "eval", Doc: Tree{M{"a": 1.0, "s": &Prog{ID: g.id(), Stmts: []Stmt{{Op: "add", K: "a", N: 1}}}}}, Note: "healthy"})
	}
}

func (g *gen) genC09() {
	if g.r.P(1, 20) {
		for t, n := 0, g.r.Range(1, 2); t < n; t++ {
			g.at(t)
			g.deep()
		}
		return
	}
	n := g.r.Range(1, 4)
	for t := 0; t < n; t++ {
		g.at(t)
		for i, k := 0, g.r.Range(1, 3); i < k; i++ {
			switch x := g.r.Intn(10); {
			case x < 7:
				g.failing("s")
			case x < 8:
				g.halting("s")
			default:
				g.healthy("h", "healthy")
			}
		}
	}
}

func (g *gen) genC10() {
	for t, n := 0, g.threads(3); t < n; t++ {
		g.at(t)
		for i, k := 0, g.r.Range(1, 4); i < k; i++ {
			switch x := g.r.Intn(10); {
			case x < 3:
				g.halting("s")
			case x < 5:
				g.failing("s")
			case x < 7:
				g.add(g.evalOp(docOpt{scripts: g.r.Range(1, 5), stmts: g.r.Range(0, 3), gets: true}, true))
			default:
				g.healthy("h", "")
			}
		}
	}
}

func (g *gen) genC11() {
	n := g.threads(3)
	for t := 0; t < n; t++ {
		g.at(t)
		for i, k := 0, g.r.Range(1, 2); i < k; i++ {
			op := g.evalOp(docOpt{scripts: g.r.Range(1, 5), stmts: g.r.Range(2, 8), console: true, array: true}, false)
			if n == 1 && g.r.P(1, 2) {
				var ps []*Prog
				progs(op.Doc.V, &ps)
				p := ps[g.r.Intn(len(ps))]
				at := g.r.Intn(len(p.Stmts) + 1)
				s := Stmt{Op: "raw", Args: g.args(g.r.Range(0, 4)), Err: g.r.P(1, 3), N: float64(g.r.Intn(4))}
				p.Stmts = append(p.Stmts[:at:at], append([]Stmt{s}, p.Stmts[at:]...)...)
			}
			g.add(op)
		}
	}
	if g.r.P(3, 4) {
		long := false
		for i, k := 0, g.r.Range(1, 6); i < k; i++ {
			f := WFault{Ch: g.r.Int(0, 0, 0, 1), N: g.r.Intn(20), Kind: g.r.Str("err", "err", "short", "short", "shortnil", "delay", "lag", "dead")}
			switch f.Kind {
			case "short", "shortnil":
				f.Val = int64(g.r.Intn(200))
			case "delay", "lag":
				f.Val = int64(g.r.Range(1, int(g.limMS()/50))) * 1e6
				if !long && g.r.P(1, 2) && g.c.Delay > 1 { // within the limit, one of them
					f.Val, long = int64(g.limMS()*0.4)*1e6, true
				} else if !long && g.r.P(1, 4) { // halts the writing script
					f.Val, long = int64(g.limMS()*float64(g.r.Range(11, 30))/10)*1e6, true
				}
			}
			g.c.WFaults = append(g.c.WFaults, f)
		}
	}
}

func (g *gen) genC13() {
	for t, n := 0, g.r.Int(1, 1, 1, 2, 3); t < n; t++ {
		g.at(t)
		if g.r.P(1, 4) {
			for i, k := 0, g.r.Range(1, 2); i < k; i++ {
				g.life("s")
			}
			continue
		}
		d := g.doc(3)
		if g.r.P(1, 5) {
			d = g.filterDoc(g.r.Range(1, 5), 1, true)
		}
		large := g.r.P(1, 40)
		if large {
			d = g.large()
		}
		tree, arr := Tree{d}, false
		if g.r.P(1, 10) {
			d, tree = g.rootArray(d)
			arr = true
		}
		g.add(Op{K: "load", Slot: "s", Doc: tree, Perm: g.perm()})
		cur := cloneM(d)
		var used []Path
		for i, k := 0, g.r.Range(3, 18); i < k; i++ {
			if g.r.P(1, 40) { // the same JsonMap reads another document
				d, tree, arr = g.doc(3), Tree{}, false
				tree.V = d
				if g.r.P(1, 2) {
					d, tree = g.rootArray(d)
					arr = true
				}
				g.add(Op{K: "load", Slot: "s", Doc: tree, Perm: g.perm(), Note: "into"})
				g.add(Op{K: "marshal", Slot: "s"})
				cur = cloneM(d)
			}
			if g.r.P(1, 60) { // or fails to
				g.add(Op{K: "badload", Slot: "s", S: g.r.Str("{\"a\":1", "[1,2", "{", "[", "5", "null", "]", "{\"a\":{\"b\":2}", "\"x")})
				g.add(Op{K: "marshal", Slot: "s"})
			}
			op := g.docOp(cur)
			if large && g.r.P(2, 3) {
				op = g.largeOp(cur)
			}
			if op == nil {
				continue
			}
			if op.K == "get" || op.K == "mustget" {
				if len(used) > 0 && g.r.P(1, 3) { // what it gives now
					op.Path = used[g.r.Intn(len(used))]
				}
				used = append(used, op.Path)
			} else if arr && op.Path != nil && (len(op.Path) < 2 && op.K != "push" && op.K != "pop" || op.Path[0].K != "key" || op.Path[0].Key != "array") {
				continue // the root remains an array and nothing else
			}
			op.Slot = "s"
			g.add(*op)
			// follow the document so that later paths make sense
			exps := expectations(g.c, t)
			e := &exps[len(exps)-1]
			if e.Err || e.Any {
				if op.K != "get" && op.K != "mustget" && op.K != "pop" && op.K != "push" {
					d = g.doc(3)
					g.add(Op{K: "load", Slot: "s", Doc: Tree{d}, Perm: g.perm(), Note: g.r.Str("", "into")})
					cur, arr = cloneM(d), false
				}
				continue
			}
			cur = g.follow(cur, op)
		}
		g.add(Op{K: "marshal", Slot: "s"})
	}
}

func (g *gen) follow(cur M, op *Op) M {
	var ms float64
	switch op.K {
	case "set", "mustset":
		setPath(cur, op.Path, op.V.V, &ms)
	case "del", "mustdel":
		setPath(cur, op.Path, nil, &ms)
	case "push", "pop":
		v, err := walk(cur, op.Path.norm(), cur, &ms)
		if arr, ok := v.(A); ok && err == nil {
			if op.K == "push" {
				setPath(cur, op.Path, pushModel(arr, op.V.V, op.Idx), &ms)
			} else {
				_, rest := popModel(arr, op.Idx)
				setPath(cur, op.Path, rest, &ms)
			}
		}
	}
	return cur
}

// selfRef makes a filter of the path refer to a value that the operation
// changes.
func (g *gen) selfRef(cur M, op *Op) {
	simple := func(k string) bool { return pathKey(k) && !strings.Contains(k, "-") }
	var arrays []Path
	var keys []string
	var rec func(v interface{}, p Path)
	rec = func(v interface{}, p Path) {
		switch v := v.(type) {
		case M:
			for _, k := range sortedKeys(v) {
				if simple(k) {
					rec(v[k], append(append(Path(nil), p...), Step{K: "key", Key: k}))
				}
			}
		case A:
			if len(p) == 0 {
				return
			}
			for i, e := range v {
				if m, ok := e.(M); ok {
					for _, k := range sortedKeys(m) {
						switch m[k].(type) {
						case float64, string:
							if simple(k) {
								arrays, keys = append(arrays, append(append(Path(nil), p...), Step{K: "idx", Idx: []int{i}})), append(keys, k)
							}
						}
					}
				}
			}
		}
	}
	rec(cur, nil)
	if len(arrays) == 0 {
		return
	}
	i := g.r.Intn(len(arrays))
	p, last := arrays[i], Step{K: "key", Key: keys[i]}
	f := &Filter{K: g.r.Str("refeq", "refne", "refgt", "reflt"), Key: keys[i], Ref: append(append(Path(nil), p...), last)}
	op.Path = append(append(Path(nil), p[:len(p)-1]...), Step{K: "filter", F: f}, last)
	op.V = Tree{g.r.pick(float64(g.r.Range(0, 20)), "other", M{"x": 1.0})}
}

func (g *gen) docOp(cur M) *Op {
	switch x := g.r.Intn(20); {
	case x < 6:
		p := g.path(cur, pathOpt{set: true, bad: g.r.Int(0, 0, 0, 8), filter: true, max: 4})
		v := g.plain()
		if g.r.P(1, 3) {
			v = g.value(2)
			if v == nil {
				v = M{}
			}
		}
		op := &Op{K: g.r.Str("set", "mustset"), Path: p, V: Tree{v}}
		if g.r.P(1, 3) {
			g.selfRef(cur, op)
		}
		return op
	case x < 9:
		return &Op{K: g.r.Str("del", "mustdel"), Path: g.path(cur, pathOpt{set: true, bad: g.r.Int(0, 0, 0, 8), filter: true, max: 4})}
	case x < 12:
		p := g.arrPath(cur)
		if p == nil {
			return nil
		}
		op := &Op{K: "push", Path: p, V: Tree{g.plain()}}
		if g.r.P(1, 4) {
			op.V = Tree{g.obj(1)}
		}
		if g.r.P(1, 2) {
			op.Idx = g.r.Perm(6)[:g.r.Range(1, 3)]
			g.twice(op)
		}
		return op
	case x < 15:
		p := g.arrPath(cur)
		if p == nil {
			return nil
		}
		op := &Op{K: "pop", Path: p}
		if g.r.P(1, 2) {
			op.Idx = g.r.Perm(6)[:g.r.Range(1, 3)]
			g.twice(op)
			if g.r.P(1, 6) {
				op.Idx = append(op.Idx, -1)
			}
		}
		return op
	case x < 19:
		return &Op{K: g.r.Str("get", "mustget"), Path: g.path(cur, pathOpt{bad: g.r.Int(0, 10), filter: true}), Note: g.r.Str("", "", "", "clone")}
	default:
		return &Op{K: g.r.Str("marshal", "string"), Note: g.r.Str("", "", "clone")}
	}
}

// largeOp is an operation on many values.
func (g *gen) largeOp(cur M) *Op {
	list := Path{{K: "key", Key: "list"}}
	a, _ := cur["list"].(A)
	n := len(a)
	pick := func() (idx []int) {
		if g.r.P(1, 4) || n == 0 {
			return nil
		}
		for i, k := 0, g.r.Int(1, 1, 1, 2, 5, 30); i < k; i++ {
			idx = append(idx, g.r.Intn(n))
		}
		return idx
	}
	switch x := g.r.Intn(10); {
	case x < 3 && n > 0:
		return &Op{K: "pop", Path: list, Idx: pick()}
	case x < 5 && n > 0:
		return &Op{K: "push", Path: list, V: Tree{g.plain()}, Idx: pick()}
	case x < 7:
		return &Op{K: g.r.Str("set", "mustset"), Path: g.largePath(cur, true), V: Tree{g.plain()}}
	case x < 8:
		return &Op{K: g.r.Str("del", "mustdel"), Path: g.largePath(cur, true)}
	default:
		return &Op{K: g.r.Str("get", "mustget"), Path: g.largePath(cur, false)}
	}
}

// twice gives an index more than once.
func (g *gen) twice(op *Op) {
	if g.r.P(1, 4) {
		i := op.Idx[g.r.Intn(len(op.Idx))]
		at := g.r.Intn(len(op.Idx) + 1)
		op.Idx = append(op.Idx[:at:at], append([]int{i}, op.Idx[at:]...)...)
	}
}

// arrPath is a definite path to an array.
func (g *gen) arrPath(root M) Path {
	var found []Path
	var rec func(v interface{}, p Path)
	rec = func(v interface{}, p Path) {
		switch v := v.(type) {
		case M:
			for _, k := range sortedKeys(v) {
				if pathKey(k) {
					rec(v[k], append(append(Path(nil), p...), Step{K: "key", Key: k}))
				}
			}
		case A:
			found = append(found, p)
			for i, e := range v {
				rec(e, append(append(Path(nil), p...), Step{K: "idx", Idx: []int{i}}))
			}
		}
	}
	rec(root, nil)
	if len(found) == 0 {
		return nil
	}
	return found[g.r.Intn(len(found))]
}

func (g *gen) genC14() {
	for t, n := 0, g.threads(3); t < n; t++ {
		g.at(t)
		for i, k := 0, g.r.Range(1, 4); i < k; i++ {
			if g.r.P(1, 2) {
				g.halting("s")
			} else {
				g.failing("s")
			}
		}
		if t == 0 && g.r.P(1, 30) { // again and again
			from := len(g.nth(t).Ops)
			g.failing("s")
			g.failing("s")
			again := append([]Op(nil), g.nth(t).Ops[from:]...)
			for n := g.r.Int(70, 70, 150) / len(again); n > 0; n-- {
				for _, op := range again {
					g.add(op)
				}
			}
		}
		if g.r.P(1, 3) {
			g.nap()
		}
		// the document whose selection failed
		if g.r.P(1, 2) {
			d := g.filterDoc(g.r.Range(2, 4), 1, true)
			d["recs"].(A)[0].(M)["zs"] = &Prog{ID: g.id(), Stmts: []Stmt{{Op: "add", K: "age", N: 1}, {Op: "dump"}}}
			g.add(Op{K: "load", Slot: "d", Doc: Tree{d}, Note: "healthy"})
			f := g.runFilter()
			if g.r.P(1, 2) {
				f = &Filter{K: g.r.Str("throwif", "unknown", "syntax", "vmfault"), Key: "kind", S: "bad", N: float64(g.r.Intn(len(filterThrows)))}
			}
			p := g.filterPath(f, true)
			g.add(Op{K: "get", Slot: "d", Path: p})
			if g.r.P(1, 2) && (f.K == "forif" || f.K == "spinif" || f.K == "throwif") { // the same path, once it can succeed
				g.add(Op{K: "set", Slot: "d", Path: Path{{K: "rec", Key: "kind"}}, V: Tree{"ok"}, Note: "healthy"})
				for j, m := 0, g.r.Range(1, 2); j < m; j++ {
					g.add(Op{K: g.getKind(), Slot: "d", Path: p, Note: "healthy"})
				}
			}
			g.add(Op{K: "get", Slot: "d", Path: Path{{K: "rec", Key: "age"}}, Note: "healthy"})
			g.add(Op{K: "set", Slot: "d", Path: Path{{K: "key", Key: "lim"}}, V: Tree{7.0}, Note: "healthy"})
			g.add(Op{K: "runslot", Slot: "d", Note: "healthy"})
			g.add(Op{K: "marshal", Slot: "d", Note: "healthy"})
		}
		for i, k := 0, g.r.Range(1, 3); i < k; i++ {
			if g.r.P(1, 4) {
				// the limits are unchanged: runaway code is still stopped in time
				from := len(g.nth(t).Ops)
				g.halting("s")
				for j := from; j < len(g.nth(t).Ops); j++ {
					g.c.Threads[t].Ops[j].Note = "healthy"
				}
			} else {
				g.healthy("h", "healthy")
			}
		}
	}
}
