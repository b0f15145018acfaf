package main

import (
	"errors"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Step is one step of a path; Path is a whole path.
type Step struct {
	K   string  `json:"k"` // key idx wild wildb slice rec first filter
	Key string  `json:"key,omitempty"`
	Idx []int   `json:"i,omitempty"`
	A   *int    `json:"a,omitempty"`
	B   *int    `json:"b,omitempty"`
	F   *Filter `json:"f,omitempty"`
	D   int     `json:"d,omitempty"` // further descents of an ellipsis
}

type Path []Step

// Filter is a filter expression with a known meaning.
type Filter struct {
	K    string  `json:"k"`
	Key  string  `json:"key,omitempty"`
	N    float64 `json:"n,omitempty"`
	S    string  `json:"s,omitempty"`
	Ref  Path    `json:"ref,omitempty"`
	X, Y *Filter `json:",omitempty"`
}

func (f *Filter) String() string {
	switch f.K {
	case "has":
		return "@." + f.Key
	case "nothas":
		return "!@." + f.Key
	case "gt":
		return "@." + f.Key + " > " + num(f.N)
	case "le":
		return "@." + f.Key + " <= " + num(f.N)
	case "eqn":
		return "@." + f.Key + " === " + num(f.N)
	case "eqs":
		return "@." + f.Key + " === " + quoted(f.S)
	case "nes":
		return "@." + f.Key + " !== " + quoted(f.S)
	case "req":
		return quoted(f.S) + " === @." + f.Key
	case "refeq":
		return "@." + f.Key + " === " + f.Ref.String()
	case "refne":
		return f.Ref.String() + " !== @." + f.Key
	case "selfgt":
		return "typeof @ == 'number' && @ > " + num(f.N)
	case "selfstr":
		return "typeof @ == 'string'"
	case "selfobj":
		return "@ !== null && typeof @ == 'object'"
	case "refgt":
		return "@." + f.Key + " > " + f.Ref.String()
	case "reflt":
		return f.Ref.String() + " > @." + f.Key
	case "true", "false":
		return f.K
	case "and":
		return "(" + f.X.String() + " ) && (" + f.Y.String() + " )"
	case "or":
		return "(" + f.X.String() + " ) || (" + f.Y.String() + " )"
	case "spin": // busy for N ms of virtual time on every node
		return "(function(){var t=Date.now();while(Date.now()-t<" + num(f.N) + "){}return true;})() && (" + f.X.String() + " )"
	case "spinif": // busy on the nodes whose Key is S
		return "(function(n){if(n&&n." + f.Key + "==='" + f.S + "'){var t=Date.now();while(Date.now()-t<" + num(f.N) + "){}}return true;})(@)"
	case "forif": // never ends on the nodes whose Key is S
		return "(function(n){if(n&&n." + f.Key + "==='" + f.S + "'){" + foreverJS(int(f.N)) + "}return true;})(@)"
	case "forever": // never ends, on any node
		return "(function(){" + foreverJS(int(f.N)) + "})()"
	case "throwif":
		return "(function(n){if(n&&n." + f.Key + "==='" + f.S + "'){" + throwJS("boom", filterThrows[int(f.N)%len(filterThrows)]) + "}return true;})(@)"
	case "deep": // TypeError unless Key holds an object
		return "@." + f.Key + ".zz1.zz2"
	case "syntax":
		return "@." + f.Key + " === "
	case "recurse":
		return "(function(){" + recurseJS(int(f.N)) + "return true;})()"
	case "firstkey": // compared between executions only
		return "(function(o){for(var k in o){return k==='" + f.Key + "';}return false;})(@)"
	case "unknown":
		return "no_such_name > 1"
	case "vmfault":
		return vmFaults[int(f.N)%len(vmFaults)]
	}
	panic("filter " + f.K)
}

// quoted is a string literal of JavaScript, in single or in double quotes.
func quoted(s string) string {
	q := "'"
	if len(s)%2 == 1 {
		q = "\""
	}
	return q + strings.NewReplacer("\\", "\\\\", "\n", "\\n", "\u2028", "\\u2028", "\u2029", "\\u2029", q, "\\"+q).Replace(s) + q
}

// vmFaults are calls that the interpreter itself fails in (with a panic that
// scripts cannot catch).
var vmFaults = []string{
	"RegExp.prototype.test('x')",
	"String.prototype.charAt.call({},0)",
	"RegExp.prototype.exec('a')",
	"String.prototype.charCodeAt.call(1,1)",
	"(function(){try{return RegExp.prototype.test('x');}catch(e){return true;}finally{}})()",
	"'abc'.lastIndexOf('b',1e21)",
	"[3,1,2].sort(function(){return RegExp.prototype.test('x');})",
}

// filterThrows are the variants of throwJS that a filter uses.
var filterThrows = []int{0, 1, 2, 3, 5, 6, 10, 11, 12, 13, 14, 16, 17, 18}

func foreverJS(n int) string {
	if n == foreverEmpty {
		return "for(;;){}"
	}
	v := []string{
		"while(true){}",
		"for(var i=0;;){i=i+1;}",
		"do{}while(true);",
		"var q=0;while(true){q=q+1;}",
		"(function(){for(var i=0;;i++){}})();",
		"while(true){try{null.x;}catch(e){}}",
		"while(true){try{continue;}finally{}}",
		"var g=function(){return true;};while(g()){}",
		"L:while(true){for(var i=0;i<2;i++){continue L;}}",
		"try{while(true){}}finally{while(true){}}",
		"for(;;);",
		"while(true){switch(1){case 1:break;}}",
		"var o={};for(var i=0;;i++){o[i%5]=[i].concat([1,2]).map(function(x){return x+1;});}",
		"while(true){try{throw new Error('again');}catch(e){}}",
		// no loop in sight
		"(function f(n){return n<2?n:f(n-1)+f(n-2);})(70);",
		"(function f(n){return [1,2,3].map(function(x){return n?f(n-1):x;}).length;})(40);",
		"(function f(n){return 'ab'.replace(/[ab]/g,function(c){return n?f(n-1):c;});})(60);",
		"(function f(n){try{return n?f(n-1)+f(n-1):0;}finally{n=n+1;}})(50);",
		"(function f(n){[1,2].forEach(function(){if(n)f(n-1);});})(50);",
		"(function f(n){return !n||f(n-1)&&f(n-1);})(60);",
		"(function f(n){new(function T(){this.a=n&&f(n-1);this.b=n&&f(n-1);})();return 1;})(45);",
		// a loop somewhere else
		"eval('wh'+'ile(true){}');",
		"new Function('wh'+'ile(true){}')();",
		"[2,1,3].sort(function(){while(true){}});",
		"var o={get x(){while(true){}}};o.x;",
		"({toString:function(){while(true){}}})+'';",
		"JSON.stringify({a:{toJSON:function(){while(true){}}}});",
		"for(var k in {a:1,b:2}){while(true){}}",
		"with({a:1}){while(a){}}",
		"h1();function h1(){h2();}function h2(){while(1){}}",
		"(function f(n){try{if(n)f(n-1);throw n;}catch(e){while(true){}}})(12);",
		"(function(){}).constructor('while(1){}').call(null);",
		"while(true){var r=new RegExp('a+b');r.test('aaab');}",
		"for(;true;){'x,y'.split(',');}",
		"do{var m=Math.random();}while(m<2);",
		"do{var d=new Date().getTime();}while(d>0);",
	}
	return v[((n%len(v))+len(v))%len(v)]
}

const foreverVariants = 36

// foreverEmpty is not generated: see probes.go.
const foreverEmpty = 1000

func (p Path) String() string {
	var b strings.Builder
	b.WriteByte('$')
	for _, s := range p {
		switch s.K {
		case "key":
			b.WriteString("." + s.Key)
		case "rec":
			b.WriteString(".." + s.Key)
		case "first":
			b.WriteString("..." + strings.Repeat(".", s.D) + s.Key)
		case "wild":
			b.WriteString(".*")
		case "wildb":
			b.WriteString("[*]")
		case "idx":
			b.WriteByte('[')
			for i, x := range s.Idx {
				if i > 0 {
					b.WriteString([]string{",", ", "}[x&1])
				}
				b.WriteString(strconv.Itoa(x))
			}
			b.WriteByte(']')
		case "slice":
			b.WriteByte('[')
			if s.A != nil {
				b.WriteString(strconv.Itoa(*s.A))
			}
			b.WriteByte(':')
			if s.B != nil {
				b.WriteString(strconv.Itoa(*s.B))
			}
			b.WriteByte(']')
		case "filter":
			b.WriteString("[?(" + s.F.String() + ")]")
		}
	}
	return b.String()
}

// alternatives expands index lists in path order.
func (p Path) alternatives() []Path {
	out := []Path{nil}
	for _, s := range p {
		if s.K == "idx" && len(s.Idx) > 1 {
			var n []Path
			for _, o := range out {
				for _, i := range s.Idx {
					n = append(n, append(append(Path(nil), o...), Step{K: "idx", Idx: []int{i}}))
				}
			}
			out = n
		} else {
			for i, o := range out {
				out[i] = append(append(Path(nil), o...), s)
			}
		}
	}
	return out
}

// expandFirst turns "...key" into first + key.
func (p Path) norm() Path {
	var out Path
	for _, s := range p {
		if s.K == "first" {
			for i := 0; i <= s.D; i++ {
				out = append(out, Step{K: "first"})
			}
			out = append(out, Step{K: "key", Key: s.Key})
		} else {
			out = append(out, s)
		}
	}
	return out
}

type haltErr struct{}

func (haltErr) Error() string { return "halt" }

var (
	errHalt   = haltErr{}
	errFollow = errors.New("path cannot be followed")
	errFilter = errors.New("filter failed")
	errEither = errors.New("runs out of stack or of time")
)

func jsNum(v interface{}) float64 {
	switch v := v.(type) {
	case nil:
		return 0
	case bool:
		if v {
			return 1
		}
		return 0
	case float64:
		return v
	case string:
		s := strings.TrimSpace(v)
		if s == "" {
			return 0
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return math.NaN()
		}
		return f
	case A:
		return jsNum(jsJoin(v))
	}
	return math.NaN()
}

// jsPrim is what a value is compared as.
func jsPrim(v interface{}) interface{} {
	switch v.(type) {
	case A, M, *Prog:
		return jsJoin(v)
	}
	return v
}

func jsJoin(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return ""
	case string:
		return v
	case float64:
		return num(v)
	case bool:
		return strconv.FormatBool(v)
	case *Prog:
		return v.Source()
	case A:
		var p []string
		for _, e := range v {
			p = append(p, jsJoin(e))
		}
		return strings.Join(p, ",")
	}
	return "[object Object]"
}

func truthy(v interface{}, def bool) bool {
	if !def {
		return false
	}
	switch v := v.(type) {
	case nil:
		return false
	case bool:
		return v
	case float64:
		return v != 0 && !math.IsNaN(v)
	case string:
		return v != ""
	}
	return true
}

// eval gives the filter's verdict on one node. ms accumulates busy time.
func (f *Filter) eval(node interface{}, root M, ms *float64) (bool, error) {
	prop := func() (interface{}, bool, error) {
		if node == nil {
			return nil, false, errFilter
		}
		if m, ok := node.(M); ok {
			v, ok := m[f.Key]
			return v, ok, nil
		}
		return nil, false, nil
	}
	isS := func() bool {
		m, ok := node.(M)
		if !ok {
			return false
		}
		s, ok := m[f.Key].(string)
		return ok && s == f.S
	}
	switch f.K {
	case "has", "nothas":
		v, def, err := prop()
		return truthy(v, def) == (f.K == "has"), err
	case "gt", "le":
		v, def, err := prop()
		if err != nil || !def {
			return false, err
		}
		if f.K == "gt" {
			return jsNum(v) > f.N, nil
		}
		return jsNum(v) <= f.N, nil
	case "eqn":
		v, _, err := prop()
		x, ok := v.(float64)
		return ok && x == f.N, err
	case "refeq", "refne":
		vs, err := selectPath(root, f.Ref, ms)
		if err != nil {
			return false, err
		}
		v, def, err := prop()
		if err != nil {
			return false, err
		}
		same := false
		switch v.(type) {
		case M, A:
		default:
			same = def && len(vs) == 1 && v == vs[0]
		}
		return same == (f.K == "refeq"), nil
	case "eqs", "nes", "req":
		v, _, err := prop()
		x, ok := v.(string)
		if err != nil {
			return false, err
		}
		return (ok && x == f.S) == (f.K != "nes"), nil
	case "selfgt":
		x, ok := node.(float64)
		return ok && x > f.N, nil
	case "selfstr":
		switch node.(type) {
		case string, *Prog:
			return true, nil
		}
		return false, nil
	case "selfobj":
		switch node.(type) {
		case M, A:
			return true, nil
		}
		return false, nil
	case "refgt", "reflt":
		vs, err := selectPath(root, f.Ref, ms)
		if err != nil {
			return false, err
		}
		v, def, err := prop()
		if err != nil || !def {
			return false, err
		}
		if len(vs) != 1 {
			return false, nil // compared with an array: excluded by the generator
		}
		a, b := v, vs[0]
		if f.K == "reflt" {
			a, b = b, a
		}
		if s, ok := jsPrim(a).(string); ok {
			if t, ok := jsPrim(b).(string); ok {
				return s > t, nil
			}
		}
		return jsNum(a) > jsNum(b), nil
	case "true":
		return true, nil
	case "false":
		return false, nil
	case "and":
		x, err := f.X.eval(node, root, ms)
		if err != nil || !x {
			return false, err
		}
		return f.Y.eval(node, root, ms)
	case "or":
		x, err := f.X.eval(node, root, ms)
		if err != nil || x {
			return x, err
		}
		return f.Y.eval(node, root, ms)
	case "spin":
		if f.N >= 1000 {
			*ms += 1000
			return false, errHalt
		}
		*ms += f.N
		return f.X.eval(node, root, ms)
	case "spinif":
		if isS() {
			if f.N >= 1000 {
				*ms += 1000
				return false, errHalt
			}
			*ms += f.N
		}
		return true, nil
	case "forif":
		if isS() {
			*ms += 1000
			return false, errHalt
		}
		return true, nil
	case "forever":
		*ms += 1000
		return false, errHalt
	case "throwif":
		if isS() {
			return false, errFilter
		}
		return true, nil
	case "deep":
		v, def, err := prop()
		if err != nil || !def || v == nil {
			return false, errFilter
		}
		m, ok := v.(M)
		if !ok {
			return false, errFilter
		}
		z, ok := m["zz1"].(M)
		if !ok {
			return false, errFilter
		}
		w, ok := z["zz2"]
		return truthy(w, ok), nil
	case "firstkey":
		return true, nil
	case "recurse":
		return false, errEither
	case "syntax", "unknown", "vmfault":
		return false, errFilter
	}
	panic("filter " + f.K)
}

// refOK reports whether the $-references of a filter can be resolved; the
// code resolves them once, before looking at any node.
func (f *Filter) refOK(root M, ms *float64) error {
	if f == nil {
		return nil
	}
	if f.Ref != nil {
		if _, err := selectPath(root, f.Ref, ms); err != nil {
			return err
		}
	}
	if err := f.X.refOK(root, ms); err != nil {
		return err
	}
	return f.Y.refOK(root, ms)
}

func (f *Filter) pick(cur interface{}, root M, ms *float64) (keys []string, idx []int, err error) {
	if err = f.refOK(root, ms); err != nil {
		return
	}
	switch cur := cur.(type) {
	case M:
		for _, k := range sortedKeys(cur) {
			ok, e := f.eval(cur[k], root, ms)
			if e != nil {
				return nil, nil, e
			}
			if ok {
				keys = append(keys, k)
			}
		}
	case A:
		for i, v := range cur {
			ok, e := f.eval(v, root, ms)
			if e != nil {
				return nil, nil, e
			}
			if ok {
				idx = append(idx, i)
			}
		}
	}
	return
}

func firstKey(m M) (string, bool) {
	for _, k := range sortedKeys(m) {
		switch m[k].(type) {
		case M, A:
			return k, true
		}
	}
	return "", false
}

func (s *Step) bounds(n int) (int, int) {
	a, b := 0, n
	if s.A != nil {
		if a = *s.A; a < 0 {
			a += n
		}
	}
	if s.B != nil {
		if b = *s.B; b < 0 {
			b += n
		}
	}
	return a, b
}

// recFind lists the values of key below v (v's own keys included), outer
// matches before the matches inside them.
func recFind(v interface{}, key string, out *A) {
	switch v := v.(type) {
	case M:
		for _, k := range sortedKeys(v) {
			if k == key {
				if arr, ok := v[k].(A); ok {
					*out = append(*out, arr...)
				} else {
					*out = append(*out, v[k])
				}
			}
			recFind(v[k], key, out)
		}
	case A:
		for _, e := range v {
			recFind(e, key, out)
		}
	}
}

// selectPath is the reference selection.
func selectPath(root M, p Path, ms *float64) ([]interface{}, error) {
	out := A{}
	var firstErr error
	for _, alt := range p.norm().alternatives() {
		v, err := walk(root, alt, root, ms)
		if err != nil {
			if firstErr == nil {
				firstErr = err
			}
			continue
		}
		if arr, ok := v.(A); ok {
			out = append(out, arr...)
		} else {
			out = append(out, v)
		}
	}
	if firstErr != nil {
		return nil, firstErr
	}
	return out, nil
}

func walk(cur interface{}, p Path, root M, ms *float64) (interface{}, error) {
	for i := range p {
		s := &p[i]
		switch c := cur.(type) {
		case M:
			switch s.K {
			case "key":
				v, ok := c[s.Key]
				if !ok {
					return nil, errFollow
				}
				cur = v
			case "wild", "wildb":
				n := A{}
				for _, k := range sortedKeys(c) {
					n = append(n, c[k])
				}
				cur = n
			case "filter":
				ks, _, err := s.F.pick(c, root, ms)
				if err != nil {
					return nil, err
				}
				n := A{}
				for _, k := range ks {
					n = append(n, c[k])
				}
				cur = n
			case "first":
				k, ok := firstKey(c)
				if !ok {
					return nil, errFollow
				}
				cur = c[k]
			case "rec":
				n := A{}
				recFind(c, s.Key, &n)
				cur = n
			default:
				return nil, errFollow
			}
		case A:
			switch s.K {
			case "key":
				n := A{}
				for _, e := range c {
					if m, ok := e.(M); ok {
						if v, ok := m[s.Key]; ok {
							n = append(n, v)
						}
					}
				}
				cur = n
			case "idx":
				if s.Idx[0] >= len(c) || s.Idx[0] < 0 {
					return nil, errFollow
				}
				cur = c[s.Idx[0]]
			case "wild", "wildb":
			case "filter":
				_, idx, err := s.F.pick(c, root, ms)
				if err != nil {
					return nil, err
				}
				n := A{}
				for _, i := range idx {
					n = append(n, c[i])
				}
				cur = n
			case "slice":
				a, b := s.bounds(len(c))
				if a < 0 || b > len(c) || a > b {
					return nil, errFollow
				}
				cur = append(A{}, c[a:b]...)
			case "rec":
				n := A{}
				recFind(c, s.Key, &n)
				cur = n
			default:
				return nil, errFollow
			}
		default:
			return nil, errFollow
		}
	}
	return cur, nil
}

type setter struct {
	val  interface{}
	del  bool
	root M
	ms   *float64
}

// setPath is the reference setter (val == nil deletes). On an error the tree
// may have been changed in part.
func setPath(root M, p Path, val interface{}, ms *float64) error {
	s := &setter{val: val, del: val == nil, root: root, ms: ms}
	for _, alt := range p.norm().alternatives() {
		if _, err := s.set(root, alt); err != nil {
			return err
		}
	}
	return nil
}

func (s *setter) at(cur interface{}, k interface{}, rest Path) (interface{}, error) {
	if len(rest) == 0 {
		return clone(s.val), nil
	}
	switch c := cur.(type) {
	case M:
		return s.set(c[k.(string)], rest)
	case A:
		return s.set(c[k.(int)], rest)
	}
	return nil, errFollow
}

func (s *setter) setM(m M, k string, rest Path) error {
	if len(rest) == 0 && s.del {
		delete(m, k)
		return nil
	}
	v, err := s.at(m, k, rest)
	if err == nil {
		m[k] = v
	}
	return err
}

func (s *setter) setA(a A, idx []int, rest Path) (A, error) {
	if len(rest) == 0 && s.del {
		var out = A{}
		sort.Ints(idx)
		for i, v := range a {
			j := sort.SearchInts(idx, i)
			if j < len(idx) && idx[j] == i {
				continue
			}
			out = append(out, v)
		}
		return out, nil
	}
	for _, i := range idx {
		v, err := s.at(a, i, rest)
		if err != nil {
			return a, err
		}
		a[i] = v
	}
	return a, nil
}

func (s *setter) rec(v interface{}, key string, rest Path) (interface{}, error) {
	switch v := v.(type) {
	case M:
		for _, k := range sortedKeys(v) {
			if k == key && len(rest) == 0 {
				if err := s.setM(v, k, rest); err != nil {
					return v, err
				}
				continue
			}
			n, err := s.rec(v[k], key, rest)
			if err != nil {
				return v, err
			}
			v[k] = n
			if k == key {
				if err := s.setM(v, k, rest); err != nil {
					return v, err
				}
			}
		}
	case A:
		for i := range v {
			n, err := s.rec(v[i], key, rest)
			if err != nil {
				return v, err
			}
			v[i] = n
		}
	}
	return v, nil
}

func all(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func (s *setter) set(cur interface{}, p Path) (interface{}, error) {
	if len(p) == 0 {
		return cur, nil
	}
	st, rest := &p[0], p[1:]
	switch c := cur.(type) {
	case M:
		switch st.K {
		case "key":
			if _, ok := c[st.Key]; !ok && len(rest) > 0 {
				return c, errFollow
			}
			return c, s.setM(c, st.Key, rest)
		case "wild", "wildb":
			for _, k := range sortedKeys(c) {
				if err := s.setM(c, k, rest); err != nil {
					return c, err
				}
			}
			return c, nil
		case "filter":
			ks, _, err := st.F.pick(c, s.root, s.ms)
			if err != nil {
				return c, err
			}
			for _, k := range ks {
				if err := s.setM(c, k, rest); err != nil {
					return c, err
				}
			}
			return c, nil
		case "first":
			k, ok := firstKey(c)
			if !ok {
				return c, errFollow
			}
			return c, s.setM(c, k, rest)
		case "rec":
			return s.rec(c, st.Key, rest)
		}
	case A:
		switch st.K {
		case "key":
			for _, e := range c {
				if m, ok := e.(M); ok {
					if _, ok := m[st.Key]; ok {
						if err := s.setM(m, st.Key, rest); err != nil {
							return c, err
						}
					}
				}
			}
			return c, nil
		case "idx":
			if st.Idx[0] < 0 || st.Idx[0] >= len(c) {
				return c, errFollow
			}
			return s.setA(c, []int{st.Idx[0]}, rest)
		case "wild", "wildb":
			return s.setA(c, all(len(c)), rest)
		case "filter":
			_, idx, err := st.F.pick(c, s.root, s.ms)
			if err != nil {
				return c, err
			}
			return s.setA(c, idx, rest)
		case "slice":
			a, b := st.bounds(len(c))
			if a < 0 || b > len(c) {
				return c, errFollow
			}
			var idx []int
			for i := a; i < b; i++ {
				idx = append(idx, i)
			}
			return s.setA(c, idx, rest)
		case "rec":
			return s.rec(c, st.Key, rest)
		}
	}
	return cur, errFollow
}

func pushModel(arr A, v interface{}, idx []int) A {
	if len(idx) == 0 {
		return append(append(A{}, arr...), clone(v))
	}
	set := map[int]bool{}
	max := 0
	for _, i := range idx {
		set[i] = true
		if i > max {
			max = i
		}
	}
	n := len(arr) + len(set)
	if max+1 > n {
		n = max + 1
	}
	out := make(A, n)
	j := 0
	for i := range out {
		if set[i] {
			out[i] = clone(v)
		} else if j < len(arr) {
			out[i] = arr[j]
			j++
		}
	}
	return out
}

func popModel(arr A, idx []int) (popped, rest A) {
	if len(idx) == 0 {
		idx = []int{0}
	}
	set := map[int]bool{}
	for _, i := range idx {
		set[i] = true
	}
	popped, rest = A{}, A{}
	for i, v := range arr {
		if set[i] {
			popped = append(popped, v)
		} else {
			rest = append(rest, v)
		}
	}
	return
}
