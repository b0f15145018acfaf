package main

import (
	"fmt"
	"strings"
)

// ---- building blocks of the workload generators ----

var dataKeys = []string{"a", "b", "c", "n", "m", "name", "age", "obj", "list", "x", "tags", "id", "k-1", "Z_9"}
var oddKeys = []string{"", " ", "a b", "\u00e9", "0", "10", "2", "-1", "a.b", "\u65e5\u672c", "$", "@", "*", "[0]", "it's", "q\"q", "trail", "json", "null", "a\\b", "array", "toJSON", "__proto__", "prototype", "get", "self"}
var scriptKeys = []string{"", " ", "a.b", "0", "7", "-", "\u65e5", "[0]", "$", "it's", "s\ts", ".$", ".$a", "10s", "9s", "As", "as", "zs", "\u03a9s", "s 1", "s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "S", "_s"}

type gen struct {
	r      *Rng
	c      *Case
	ti, oi int
	np     int
	depth  int // of the documents
	native bool
	noFilt bool
	stall  bool
	cheap  bool // steps cost next to no time
	loops  bool // some scripts take a lot of steps
}

func newGen(prop string, seed uint64) *gen {
	g := &gen{r: NewRng(seed, "gen "+prop), c: &Case{Prop: prop, Seed: seed}}
	g.c.Delay = g.r.Int(1, 1, 1, 2, 2, 3, 5, 10)
	if g.r.P(1, 40) {
		g.c.Delay = g.r.Int(20, 45, 100)
	}
	return g
}

func (g *gen) id() string {
	g.np++
	return fmt.Sprintf("t%do%dp%d", g.ti, g.oi, g.np)
}

func (g *gen) key() string { return dataKeys[g.r.Intn(len(dataKeys))] }

var words = []string{"red", "green", "x", "", "blue sky", "7", "\u00e9t\u00e9", "true", "null", "a,b", "#//!", "#/!js", "{}", "'q'", "<p>", "it's @ home", "a@b", "$.a", "say \"@\" \"", "x)]", "[?(", "back\\slash", "na\u00efve", "\u65e5\u672c"}

// odd strings for values only
var docTexts = []string{"<b>&amp;</b>", "\u2028\u2029", "\U0001F600", "two\nlines", "tab\t", "nul\u0000byte", "%d%s", "\"", "\\u0041", "\u007f\ufeff", "</script>", "${x}", "\u00a0", "e\u0301", "01", "1e5", "NaN", "[object Object]", "function(){}", "/* */ //"}

func (g *gen) str() string {
	s := words[g.r.Intn(len(words))]
	if s == "#//!" {
		s = "#!"
	}
	return s
}

func (g *gen) num() float64 {
	switch g.r.Intn(6) {
	case 0:
		return float64(g.r.Range(-5, 5)) + 0.5
	case 1:
		if g.r.P(1, 6) {
			return []float64{1e21, 1e-7, 9007199254740993, 123456789012345680000, 1e300, 5e-324, 4294967296, 2147483648, -2147483649, 0.1, 1.7976931348623157e308, 1e6, 1e20, 0.000001}[g.r.Intn(14)]
		}
		return float64(g.r.Range(100, 100000))
	}
	return float64(g.r.Range(0, 20))
}

func (g *gen) scalar() interface{} {
	switch g.r.Intn(8) {
	case 0, 1, 2:
		return g.num()
	case 3, 4, 5:
		if g.r.P(1, 24) {
			return docTexts[g.r.Intn(len(docTexts))]
		}
		return g.str()
	case 6:
		return g.r.P(1, 2)
	}
	return nil
}

// plain is a scalar other than null.
func (g *gen) plain() interface{} {
	for {
		if v := g.scalar(); v != nil {
			return v
		}
	}
}

func (g *gen) value(depth int) interface{} {
	if depth <= 0 {
		return g.scalar()
	}
	switch g.r.Intn(7) {
	case 0, 1:
		return g.obj(depth - 1)
	case 2, 3:
		return g.arr(depth - 1)
	}
	return g.scalar()
}

func (g *gen) obj(depth int) M {
	m := M{}
	for i, n := 0, g.r.Range(0, 4); i < n; i++ {
		m[g.key()] = g.value(depth)
	}
	if g.r.P(1, 12) {
		for i, n := 0, g.r.Range(1, 2); i < n; i++ {
			m[oddKeys[g.r.Intn(len(oddKeys))]] = g.value(depth)
		}
	}
	if len(m) > 0 && g.r.P(1, 10) { // keys that only differ in case
		k := g.key()
		if _, ok := m[k]; !ok {
			m[k] = g.value(depth)
		}
		m[flip(k)] = g.value(depth)
	}
	return m
}

func flip(k string) string {
	if u := strings.ToUpper(k); u != k {
		return u
	}
	return strings.ToLower(k)
}

func (g *gen) arr(depth int) A {
	a := A{}
	switch g.r.Intn(5) {
	case 0, 1: // records of one shape
		n := g.r.Range(1, 5)
		k1, k2 := g.key(), g.key()
		for i := 0; i < n; i++ {
			e := M{k1: g.num(), k2: g.str()}
			if g.r.P(1, 4) && depth > 0 {
				e[g.key()] = g.value(depth - 1)
			}
			a = append(a, e)
		}
	case 2:
		for i, n := 0, g.r.Range(0, 6); i < n; i++ {
			a = append(a, g.num())
		}
	default:
		for i, n := 0, g.r.Range(0, 4); i < n; i++ {
			a = append(a, g.value(depth))
		}
	}
	return a
}

// doc is an object with a guaranteed amount of structure.
func (g *gen) doc(depth int) M {
	m := g.obj(depth)
	for len(m) < 2 {
		m[g.key()] = g.value(depth)
	}
	for i, n := 0, g.r.Range(0, 2); i < n; i++ {
		if g.r.P(1, 2) {
			m[g.key()] = g.arr(depth - 1)
		} else {
			m[g.key()] = g.obj(depth - 1)
		}
	}
	return m
}

// scopes lists the objects of a tree, outermost first.
func scopes(v interface{}, out *[]M) {
	switch v := v.(type) {
	case M:
		*out = append(*out, v)
		for _, k := range sortedKeys(v) {
			scopes(v[k], out)
		}
	case A:
		for _, e := range v {
			scopes(e, out)
		}
	}
}

func (g *gen) perm() uint64 {
	if g.r.P(1, 4) {
		return 0
	}
	return g.r.U64() | 1
}

// someKey prefers keys the object has.
func (g *gen) someKey(m M, want func(interface{}) bool) string {
	if g.r.P(4, 5) {
		var ks []string
		for _, k := range sortedKeys(m) {
			if isScript(m[k]) || want != nil && !want(m[k]) {
				continue
			}
			ks = append(ks, k)
		}
		if len(ks) > 0 {
			return ks[g.r.Intn(len(ks))]
		}
	}
	return g.key()
}

func isContainer(v interface{}) bool {
	switch v.(type) {
	case M, A:
		return true
	}
	return false
}

func (g *gen) filter(root M, nodes []interface{}, inScript bool) *Filter {
	// a key some node has
	key := g.key()
	var sample interface{}
	for i := 0; i < 4 && len(nodes) > 0; i++ {
		if m, ok := nodes[g.r.Intn(len(nodes))].(M); ok {
			for _, k := range sortedKeys(m) {
				if !isScript(m[k]) {
					key, sample = k, m[k]
					if g.r.P(1, 2) {
						break
					}
				}
			}
			if sample != nil {
				break
			}
		}
	}
	if !pathKey(key) || strings.Contains(key, "-") { // a-b is a subtraction in JavaScript
		key, sample = "a", nil
	}
	f := &Filter{Key: key}
	switch s := sample.(type) {
	case float64:
		f.K = g.r.Str("gt", "le", "eqn", "has", "nothas")
		f.N = s + float64(g.r.Range(-1, 1))
		if f.N < 0 {
			f.N = 0
		}
		if g.r.P(1, 8) {
			if ref := g.refPath(root); ref != nil {
				f.K, f.Ref = g.r.Str("refgt", "reflt", "refeq", "refne"), ref
			}
		}
	case string:
		f.K, f.S = g.r.Str("eqs", "eqs", "req", "nes", "has"), s
		if g.r.P(1, 6) {
			f.S = g.str()
		}
		if g.r.P(1, 4) {
			if ref := g.refPath(root); ref != nil {
				f.K, f.Ref = g.r.Str("refeq", "refne"), ref
				if g.r.P(1, 2) {
					return &Filter{K: "or", X: &Filter{K: "eqs", Key: key, S: s}, Y: f}
				}
			}
		}
	default:
		f.K = g.r.Str("has", "nothas", "selfgt", "selfstr", "selfobj", "true", "false")
		f.N = float64(g.r.Range(0, 10))
		if inScript && f.K == "selfstr" {
			f.K = "selfobj"
		}
	}
	return f
}

// refPath is a definite path to a number or a string.
func (g *gen) refPath(root M) Path {
	scalar := func(v interface{}) bool {
		switch v.(type) {
		case float64, string:
			return true
		}
		return false
	}
	for _, k := range g.shuffledKeys(root) {
		if scalar(root[k]) && pathKey(k) && !strings.Contains(k, "-") {
			return Path{{K: "key", Key: k}}
		}
		if m, ok := root[k].(M); ok && pathKey(k) && !strings.Contains(k, "-") {
			for _, k2 := range sortedKeys(m) {
				if scalar(m[k2]) && pathKey(k2) && !strings.Contains(k2, "-") {
					return Path{{K: "key", Key: k}, {K: "key", Key: k2}}
				}
			}
		}
	}
	return nil
}

func (g *gen) shuffledKeys(m M) []string {
	ks := sortedKeys(m)
	p := g.r.Perm(len(ks))
	o := make([]string, len(ks))
	for i, j := range p {
		o[i] = ks[j]
	}
	return o
}

// pathKey: keys a path can name.
func pathKey(k string) bool {
	for i, c := range k {
		ok := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || i > 0 && (c >= '0' && c <= '9' || c == '-')
		if !ok {
			return false
		}
	}
	return k != ""
}

func ip(i int) *int { return &i }

type pathOpt struct {
	set    bool // for a setter
	bad    int  // percent of deliberately wrong steps
	filter bool
	script bool
	max    int
}

// path generates a path, guided by the document.
func (g *gen) path(root M, o pathOpt) Path {
	var p Path
	if o.max == 0 {
		o.max = 5
	}
	n := g.r.Range(1, o.max)
	multi, filtered := false, false
	for len(p) < n {
		var cur interface{} = root
		if len(p) > 0 {
			var ms float64
			v, err := walk(root, p.norm().alternatives()[0], root, &ms)
			if err != nil {
				return p
			}
			cur = v
		}
		bad := g.r.Intn(100) < o.bad
		var s Step
		switch c := cur.(type) {
		case M:
			switch x := g.r.Intn(20); {
			case bad && g.r.P(2, 3):
				s = Step{K: "key", Key: g.r.Str("missing", "nope", "q")}
			case bad:
				s = Step{K: "idx", Idx: []int{g.r.Intn(3)}}
			case x < 10:
				k := g.someKey(c, nil)
				if g.r.P(1, 2) {
					k = g.someKey(c, isContainer)
				}
				if !pathKey(k) {
					if len(p) > 0 {
						return p
					}
					k = g.key()
				}
				s = Step{K: "key", Key: k}
			case x < 12:
				s = Step{K: "wild"}
			case x < 13:
				s = Step{K: "wildb"}
			case x < 16:
				s = Step{K: "rec", Key: g.recKey(c)}
			case x < 17:
				s = Step{K: "first", Key: g.key()}
				m := c
				for d := -1; ; d++ {
					k, ok := firstKey(m)
					if !ok {
						break
					}
					if m, ok = m[k].(M); !ok {
						break
					}
					s.D = d + 1
					if k2 := g.someKey(m, nil); pathKey(k2) {
						s.Key = k2
					}
					if g.r.P(1, 2) {
						break
					}
				}
			default:
				if !o.filter || filtered && !g.r.P(1, 3) || g.noFilt {
					continue
				}
				filtered = true
				var nodes []interface{}
				for _, k := range sortedKeys(c) {
					nodes = append(nodes, c[k])
				}
				s = Step{K: "filter", F: g.filter(root, nodes, o.script)}
			}
		case A:
			switch x := g.r.Intn(20); {
			case bad && g.r.P(1, 2):
				s = Step{K: "idx", Idx: []int{len(c) + g.r.Intn(3)}}
			case bad && g.r.P(1, 2):
				s = Step{K: "slice", A: ip(0), B: ip(len(c) + g.r.Range(1, 3))}
			case bad:
				s = Step{K: "first", Key: g.key()}
			case o.set && multi && x < 13:
				// what an index after a wildcard denotes is not specified for setters
				s = Step{K: "key", Key: g.elemKey(c)}
			case x < 7:
				if len(c) == 0 {
					return p
				}
				s = Step{K: "idx", Idx: []int{g.r.Intn(len(c))}}
				if len(c) > 1 && g.r.P(1, 3) {
					s.Idx = g.r.Perm(len(c))[:g.r.Range(2, min(3, len(c)))]
				}
			case x < 10:
				s = g.slice(len(c), o.set)
			case x < 12:
				s = Step{K: g.r.Str("wild", "wildb", "wildb")}
			case x < 16:
				s = Step{K: "key", Key: g.elemKey(c)}
			case x < 17:
				s = Step{K: "rec", Key: g.recKey(c)}
			default:
				if !o.filter || filtered && !g.r.P(1, 3) || g.noFilt || o.set && multi {
					continue
				}
				filtered = true
				s = Step{K: "filter", F: g.filter(root, c, o.script)}
			}
		default:
			if bad || o.bad > 0 && g.r.P(1, 6) {
				p = append(p, Step{K: "key", Key: g.key()})
			}
			return p
		}
		if s.K == "wild" || s.K == "wildb" || s.K == "filter" || s.K == "rec" || s.K == "slice" {
			multi = true
		}
		if s.K == "key" {
			if _, ok := cur.(A); ok {
				multi = true
			}
		}
		p = append(p, s)
	}
	return p
}

func (g *gen) slice(n int, set bool) Step {
	s := Step{K: "slice"}
	switch g.r.Intn(5) {
	case 0:
		s.A = ip(g.r.Range(0, n))
	case 1:
		s.B = ip(g.r.Range(0, n))
	case 2:
		s.A = ip(-g.r.Range(1, max(n, 1)))
	case 3:
		s.B = ip(-g.r.Range(1, max(n, 1)))
	default:
		a := g.r.Range(0, n)
		s.A, s.B = ip(a), ip(g.r.Range(a, n))
	}
	return s
}

func (g *gen) elemKey(a A) string {
	for i := 0; i < 4 && len(a) > 0; i++ {
		if m, ok := a[g.r.Intn(len(a))].(M); ok && len(m) > 0 {
			if k := g.someKey(m, nil); pathKey(k) {
				return k
			}
		}
	}
	return g.key()
}

func (g *gen) recKey(v interface{}) string {
	var ms []M
	scopes(v, &ms)
	for i := 0; i < 4 && len(ms) > 0; i++ {
		m := ms[g.r.Intn(len(ms))]
		if len(m) > 0 {
			if k := g.someKey(m, nil); pathKey(k) {
				return k
			}
		}
	}
	return g.key()
}

// isDefinite: the path denotes one place.
func (p Path) isDefinite() bool {
	for _, s := range p {
		switch s.K {
		case "key", "first":
		case "idx":
			if len(s.Idx) != 1 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// single reports whether every step of p is taken on one container (keys
// applied to arrays select from each element).
func single(root M, p Path) bool {
	if !p.isDefinite() {
		return false
	}
	var cur interface{} = root
	var ms float64
	for i, s := range p.norm() {
		if _, ok := cur.(A); ok && s.K == "key" {
			return false
		}
		v, err := walk(root, p.norm()[:i+1], root, &ms)
		if err != nil {
			return i == len(p.norm())-1
		}
		cur = v
	}
	return true
}

// ---- scripts ----

type progOpt struct {
	scope   M
	n       int
	console bool // mostly console calls
	spin    float64
	addKeys []string // script keys still free for addscript
	gets    bool
	leak    string
	last    bool // last script of its scope
	single  bool // single threaded: raw messages allowed
	quiet   bool // no writes to the scope
	keys    bool // asks for the order of keys
}

func (g *gen) args(n int) A {
	a := A{}
	for i := 0; i < n; i++ {
		if g.r.P(1, 6) {
			a = append(a, g.r.pick(g.obj(1), g.arr(1)))
		} else if g.r.P(1, 40) { // deep or long
			v := g.r.pick(g.obj(1), g.arr(1), "end")
			for d := g.r.Int(2, 4, 8, 12); d > 0; d-- {
				v = g.r.pick(M{g.key(): v}, A{v}, M{g.key(): 1.0, "z": v})
			}
			if g.r.P(1, 3) {
				l := A{}
				for k := g.r.Int(12, 40, 130); k > 0; k-- {
					l = append(l, float64(k))
				}
				v = l
			}
			a = append(a, v)
		} else if g.r.P(1, 8) {
			a = append(a, g.text())
		} else {
			a = append(a, g.plain())
		}
	}
	return a
}

var texts = []string{"%", "100%", "%s", "%d of %v", "%!", "%%", "%n", "two\nlines", "\n", "ends\n", "\nbegins", "a\n\nb", "tab\tbed", "\tx", "cr\rlf\r\nx", "\\n", "nul\u0000byte", "\u2028", "\U0001F600", "\x1b[31m", "Print call from: <$>:1:1", "undefined", "[Circular]", "  padded  "}

// text is a string that is hard on whatever formats, splits or buffers it.
func (g *gen) text() string {
	if g.r.P(1, 12) {
		n := g.r.Int(300, 1100, 4100, 9000, 17000)
		if g.r.P(1, 4) { // every line costs virtual time
			return strings.Repeat(strings.Repeat("ab ", g.r.Range(10, 60))+"\n", n/300)
		}
		return strings.Repeat(g.r.Str("x", "0123456789", "\u00e9"), n)
	}
	return texts[g.r.Intn(len(texts))]
}

// weight is the number of values in a document.
func weight(v interface{}) int {
	n := 1
	switch v := v.(type) {
	case M:
		for _, e := range v {
			n += weight(e)
		}
	case A:
		for _, e := range v {
			n += weight(e)
		}
	}
	return n
}

func (g *gen) prog(o progOpt) *Prog {
	p := &Prog{ID: g.id()}
	sh := cloneM(o.scope) // the generator's idea of the scope while the script runs
	for i := 0; i < o.n; i++ {
		s := g.stmt(&o, sh)
		if s == nil {
			continue
		}
		p.Stmts = append(p.Stmts, *s)
	}
	// every value that a dump visits costs about 40 steps; a limit lasts 30000
	left, keep := 9000, p.Stmts[:0]
	for _, s := range p.Stmts {
		switch s.Op {
		case "dump", "child", "addscript", "getspin":
			if left -= 60 * weight(sh); left < 0 {
				continue
			}
		}
		if len(s.Path) > 0 { // what a selection visits
			w := 0
			for i := range s.Path {
				if vs, err := selectPath(sh, s.Path[:i+1], nil); err == nil {
					w += weight(A(vs))
				}
			}
			if left -= 60 * w; left < 0 {
				continue
			}
		}
		keep = append(keep, s)
	}
	p.Stmts = keep
	if o.spin > g.limMS()*0.45 {
		// leave enough time for the rest of the script
		keep := p.Stmts[:0]
		for _, s := range p.Stmts {
			if s.Op != "dump" && s.Op != "child" && s.Op != "getspin" {
				keep = append(keep, s)
			}
		}
		p.Stmts = keep
	}
	if o.spin > 0 {
		k := "spin"
		if g.native && g.r.P(1, 2) {
			k = "sleep"
		}
		at := g.r.Intn(len(p.Stmts) + 1)
		p.Stmts = append(p.Stmts[:at], append([]Stmt{{Op: k, N: o.spin}}, p.Stmts[at:]...)...)
	}
	return p
}

func (g *gen) stmt(o *progOpt, sh M) *Stmt {
	e := g.r.P(1, 5)
	if o.keys && g.r.P(1, 4) {
		s := &Stmt{Op: "keys", N: float64(g.r.Intn(4)), Err: e}
		if g.r.P(1, 2) {
			s.K = g.someKey(sh, isContainer)
		}
		if g.r.P(1, 3) {
			s.Path = g.path(sh, pathOpt{script: true, max: 3})
		}
		return s
	}
	x := g.r.Intn(100)
	if o.console {
		x = 50 + g.r.Intn(50)
	} else if o.quiet && x < 45 {
		x += 50
	}
	switch {
	case x < 12:
		v := g.value(1)
		k := g.someKey(sh, nil)
		if hasScript(sh[k]) && g.r.P(3, 4) {
			return nil
		}
		sh[k] = v
		return &Stmt{Op: "set", K: k, V: Tree{clone(v)}}
	case x < 16:
		k := g.someKey(sh, nil)
		if hasScript(sh[k]) && g.r.P(3, 4) {
			return nil
		}
		delete(sh, k)
		return &Stmt{Op: "del", K: k}
	case x < 24:
		return &Stmt{Op: "add", K: g.keyOr(sh, func(v interface{}) bool { _, ok := v.(float64); return ok }), N: float64(g.r.Range(1, 9))}
	case x < 30:
		return &Stmt{Op: "app", K: g.keyOr(sh, func(v interface{}) bool { _, ok := v.(string); return ok }), S: g.r.Str("+", "z", "q1")}
	case x < 34:
		return &Stmt{Op: "copy", K: g.someKey(sh, nil), K2: g.keyOr(sh, func(v interface{}) bool { return !isContainer(v) })}
	case x < 40:
		return &Stmt{Op: "nset", K: g.someKey(sh, isContainer), K2: g.key(), V: Tree{g.plain()}}
	case x < 42:
		k := g.someKey(sh, nil)
		return &Stmt{Op: "wrap", K: k, K2: g.key()}
	case x < 45:
		if len(o.addKeys) == 0 {
			return nil
		}
		k := g.someKey(sh, isContainer)
		i := g.r.Intn(len(o.addKeys))
		k2 := o.addKeys[i]
		o.addKeys = append(append([]string(nil), o.addKeys[:i]...), o.addKeys[i+1:]...)
		inner := &Prog{ID: g.id(), Stmts: []Stmt{{Op: "set", K: g.key(), V: Tree{g.plain()}}, {Op: "dump"}}}
		return &Stmt{Op: "addscript", K: k, K2: k2, Prog: inner}
	case x < 62:
		return &Stmt{Op: "dump", Err: e}
	case x < 68:
		return &Stmt{Op: "child", K: g.someKey(sh, nil), Err: e}
	case x < 74:
		return &Stmt{Op: "peek", K: g.someKey(sh, nil), Err: e}
	case x < 78:
		if g.r.P(1, 5) {
			return &Stmt{Op: "circ", N: float64(g.r.Intn(2)), Err: e}
		}
		return &Stmt{Op: "sp", Err: e}
	case x < 86:
		return &Stmt{Op: "print", Args: g.args(g.r.Range(0, 3)), Err: e}
	case x < 88:
		if g.r.P(1, 3) {
			n := g.r.Int(2, 2, 3, 5, 12)
			if g.c.Prop == "C11" && g.r.P(1, 25) {
				n, g.loops = g.r.Int(70, 150, 400), true
			}
			return &Stmt{Op: "loop", S: g.r.Str("again", "", "x"), N: float64(n), Err: e}
		}
		return &Stmt{Op: "fprint", S: g.r.Str("in f", "deep", "line\nline", ""), N: float64(g.r.Intn(12)), Err: e}
	case x < 89:
		return &Stmt{Op: "legacy", S: g.r.Str("old", "ext")}
	case x < 91:
		return &Stmt{Op: "catch", S: "caught-" + g.r.Str("a", "b"), N: float64(g.r.Intn(throwVariants)), Err: e}
	case x < 96:
		if !o.gets {
			return nil
		}
		return &Stmt{Op: "getspin", Path: g.path(sh, pathOpt{bad: 5, filter: !g.native && g.r.P(1, 3), script: true, max: 3}), Err: e}
	case x < 97:
		if o.leak == "" {
			return nil
		}
		return &Stmt{Op: "noleak", S: o.leak, Err: e}
	case x < 98:
		if o.leak == "" {
			return nil
		}
		return &Stmt{Op: "leak", S: o.leak, N: 1}
	case x < 99:
		if !o.gets || o.quiet {
			return nil
		}
		p := g.path(sh, pathOpt{bad: 10, script: true, max: 2})
		s := &Stmt{Op: "again", Path: p, K: g.key(), V: Tree{g.plain()}, Err: e}
		if g.r.P(1, 2) {
			s.V = Tree{g.value(2)}
		}
		for _, st := range p { // mostly change what is selected
			if st.K == "key" && g.r.P(2, 3) {
				s.K = st.Key
				break
			}
		}
		if _, ok := sh[s.K]; ok && (hasScript(sh[s.K])) {
			s.K = "cnt"
		}
		if g.r.P(1, 3) && single(sh, p) {
			if q := p[len(p)-1]; q.K != "key" || pathKey(q.Key) {
				s.N = 1
			}
		}
		if s.N == 1 && s.V.V == nil {
			s.V = Tree{g.plain()}
		}
		if s.N == 0 {
			sh[s.K] = clone(s.V.V)
		}
		return s
	default:
		if !o.gets || o.quiet {
			return nil
		}
		p := g.path(sh, pathOpt{set: true, script: true, max: 2})
		if !single(sh, p) {
			return nil
		}
		v := g.plain()
		if g.r.P(1, 2) {
			v = g.value(2)
		}
		return &Stmt{Op: "setpx", Path: p, V: Tree{v}}
	}
}

func (g *gen) keyOr(m M, want func(interface{}) bool) string {
	k := g.someKey(m, want)
	if hasScript(m[k]) || isContainer(m[k]) {
		return "cnt"
	}
	return k
}

type docOpt struct {
	scripts int  // about how many
	stmts   int  // per script
	console bool // console heavy
	spin    func() float64
	leak    bool
	gets    bool
	array   bool // allow an array as the root
	single  bool
	quiet   bool
	keys    bool
	fail    []Stmt // a statement list ending in a failure for one script
	bare    string // a malformed script instead
	lang    string // the language of bare, and of some others
	noRepl  bool   // no script replaces its scope
}

// scriptDoc generates a document with scripts.
func (g *gen) scriptDoc(o docOpt) interface{} {
	var root interface{} = g.doc(g.r.Range(1, 3))
	if o.array && g.r.P(1, 6) {
		a := g.arr(2)
		a = append(a, g.obj(1))
		root = a
	}
	if g.r.P(1, 25) {
		g.deepen(root)
	}
	var ms []M
	scopes(root, &ms)
	leak := ""
	if o.leak {
		leak = g.r.Str("q", "w")
	}
	type slot struct {
		m M
		k string
	}
	var slots []slot
	for try := 0; len(slots) < o.scripts && try < 200; try++ {
		m := ms[0]
		if g.r.P(2, 3) {
			m = ms[g.r.Intn(len(ms))]
		}
		n := g.r.Range(1, 3)
		if g.r.P(1, 8) {
			n = g.r.Range(4, 12)
		}
		ks := g.r.Perm(len(scriptKeys))[:n]
		for _, i := range ks {
			if _, ok := m[scriptKeys[i]]; !ok {
				m[scriptKeys[i]] = &Prog{ID: "pending"}
				slots = append(slots, slot{m, scriptKeys[i]})
			}
		}
	}
	failAt := -1
	if o.fail != nil || o.bare != "" {
		failAt = g.r.Intn(len(slots))
	}
	for i, s := range slots {
		po := progOpt{scope: s.m, n: g.r.Range(0, o.stmts), console: o.console, gets: o.gets, leak: leak, single: o.single, quiet: o.quiet, keys: o.keys}
		for _, k := range []string{"zz", "add1", ".$$"} {
			po.addKeys = append(po.addKeys, k)
		}
		if o.spin != nil {
			po.spin = o.spin()
		}
		p := g.prog(po)
		if i == failAt {
			if o.bare != "" {
				p = &Prog{ID: g.id(), Bare: o.bare, Lang: o.lang}
			} else {
				p.Stmts = append(p.Stmts, o.fail...)
			}
		}
		if o.lang != "" && i != failAt && g.r.P(1, 3) { // which of them is reported?
			p = &Prog{ID: g.id(), Bare: "other()", Lang: otherLangs[g.r.Intn(len(otherLangs))]}
		}
		if leak != "" && g.r.P(1, 2) && i != failAt {
			p.Stmts = append(p.Stmts, Stmt{Op: "noleak", S: leak})
		}
		// a script sees its own pollution
		leaked := false
		keep := p.Stmts[:0]
		for _, st := range p.Stmts {
			if st.Op == "leak" {
				leaked = true
			}
			if st.Op != "noleak" || !leaked {
				keep = append(keep, st)
			}
		}
		p.Stmts = keep
		s.m[s.k] = p
	}
	// replace only by the last script of a scope
	if !o.quiet && g.r.P(1, 8) && !o.noRepl {
		m := ms[g.r.Intn(len(ms))]
		last := ""
		for _, k := range sortedKeys(m) {
			if isScript(m[k]) {
				last = k
			}
		}
		if last != "" {
			p := m[last].(*Prog)
			adds := false // of scripts that would be replaced before they run
			for _, sl := range slots {
				for _, st := range sl.m[sl.k].(*Prog).Stmts {
					adds = adds || st.Op == "addscript"
				}
			}
			if p.Bare == "" && failAt < 0 && !adds {
				p.Stmts = append(p.Stmts, Stmt{Op: "replace", V: Tree{g.doc(1)}})
			}
		}
	}
	return root
}

// deepen hangs a deep chain of containers into a document.
func (g *gen) deepen(root interface{}) {
	m, ok := root.(M)
	if !ok {
		for _, e := range root.(A) {
			if m, ok = e.(M); ok {
				break
			}
		}
	}
	if !ok {
		return
	}
	var v interface{} = M{"leaf": g.obj(1), "n": 1.0}
	for i, n := 0, g.r.Int(8, 12, 17, 25, 40); i < n; i++ {
		if g.r.P(1, 4) {
			v = A{v}
		} else {
			v = M{g.r.Str("a", "b", "obj"): v}
		}
	}
	m["chain"] = v
}

// twins is a document in which several scopes have the same content and the
// same script.
func (g *gen) twins() interface{} {
	o := g.obj(1)
	o["n"], o["t"] = g.num(), g.str()
	for i, n := 0, g.r.Range(1, 2); i < n; i++ {
		p := &Prog{ID: g.id(), Mute: true}
		for j, k := 0, g.r.Range(1, 3); j < k; j++ {
			switch g.r.Intn(5) {
			case 0:
				p.Stmts = append(p.Stmts, Stmt{Op: "app", K: "t", S: "+"})
			case 4:
				p.Stmts = append(p.Stmts, Stmt{Op: "where", K: g.r.Str("where", "n", "t")})
			case 1:
				p.Stmts = append(p.Stmts, Stmt{Op: "set", K: g.key(), V: Tree{g.value(1)}})
			default:
				p.Stmts = append(p.Stmts, Stmt{Op: "add", K: "n", N: float64(g.r.Range(1, 9))})
			}
		}
		if g.r.P(1, 3) && i == 0 {
			p.Stmts = append(p.Stmts, Stmt{Op: "copy", K: "n", K2: "from"})
		}
		o[scriptKeys[g.r.Intn(len(scriptKeys))]] = p
	}
	d := g.obj(1)
	k := g.r.Range(2, 5)
	if g.r.P(1, 2) {
		a := A{}
		for i := 0; i < k; i++ {
			a = append(a, clone(o))
		}
		if g.r.P(1, 3) {
			return a
		}
		d["list"] = a
	} else {
		for i := 0; i < k; i++ {
			d[string(rune('p'+i))] = clone(o)
		}
		if g.r.P(1, 2) {
			d["in"] = M{"q": clone(o)}
		}
	}
	return d
}

// ---- simulator configuration ----

func (g *gen) cfg() Cfg {
	r := NewRng(g.r.U64(), "cfg")
	c := Cfg{MapSeed: r.U64(), SchedSeed: r.U64(), FaultSeed: r.U64()}
	switch r.Intn(10) {
	case 0:
		c.Policy = 0
	case 1, 2, 3:
		c.Policy = 1
	case 4:
		c.Policy = 2
	case 5, 6:
		c.Policy = 3
		c.Arg = uint32(r.Range(1, 8)) | uint32(r.Int(30, 100, 400, 2000))<<8
	case 7, 8:
		c.Policy, c.Arg = 4, uint32(r.Int(1, 3, 10, 50))
	default:
		c.Policy = 5
	}
	c.YieldDen = uint32(r.Int(0, 2, 4, 10, 30, 100))
	per := g.c.limit() / int64(r.Range(30000, 60000))
	if per > 150e3 {
		per = 150e3
	}
	c.CostSteps = uint32(r.Int(20, 40, 100))
	c.CostTick = per * int64(c.CostSteps)
	if g.cheap {
		c.YieldDen = uint32(r.Int(0, 100, 1000))
		c.CostSteps, c.CostTick = 100, g.c.limit()/50000
		return c
	}
	if g.stall || r.P(1, 3) {
		if g.c.Delay >= 2 {
			c.StallRate = uint32(r.Range(50, 500))
			c.StallMax = int64(r.Int(1e5, 1e6, 5e6, 2e7))
		}
	}
	if r.P(1, 4) {
		c.TimerRate = uint32(r.Int(1<<12, 1<<14, 1<<15))
		c.TimerMax = int64(r.Int(1e5, 5e6, 5e7))
	}
	if r.P(1, 4) {
		c.ClockRate = uint32(r.Int(1<<10, 1<<13, 1<<15))
		c.ClockMax = int64(r.Int(2e9, 7200e9))
	}
	return c
}
