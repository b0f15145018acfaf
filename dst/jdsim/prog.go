package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Prog is a script: a short program in a small statement language with three
// renderings - JavaScript source, a Go callback and the reference model.
type Prog struct {
	ID     string `json:"id"`
	Stmts  []Stmt `json:"s"`
	Bare   string `json:"bare,omitempty"` // raw source (no markers), for malformed scripts
	Nop    bool   `json:"nop,omitempty"`  // Bare is a script that does nothing
	Lang   string `json:"lang,omitempty"` // a language that is not supported
	Native bool   `json:"-"`              // (in the reference model) runs as a native callback
	JS     bool   `json:"js,omitempty"`   // JavaScript even in a document with native callbacks
	Mute   bool   `json:"mute,omitempty"` // writes nothing, so that several scopes can have the very same script
}

type Stmt struct {
	Op   string  `json:"op"`
	K    string  `json:"k,omitempty"`
	K2   string  `json:"k2,omitempty"`
	V    Tree    `json:"v"`
	N    float64 `json:"n,omitempty"`
	S    string  `json:"s,omitempty"`
	Err  bool    `json:"err,omitempty"` // console.error instead of console.log
	Path Path    `json:"p,omitempty"`
	Prog *Prog   `json:"prog,omitempty"`
	Args A       `json:"args,omitempty"`
}

const helperJS = `function C(v){if(v===null||v===undefined)return 'null';var t=typeof v;if(t==='number'||t==='boolean')return String(v);` +
	`if(t==='string')return v.indexOf('#//!')===0?'SCRIPT':'"'+v+'"';var r=[];if(Array.isArray(v)){for(var i=0;i<v.length;i++)r.push(C(v[i]));return '['+r.join(',')+']';}` +
	`var ks=[];for(var k in v){if(Object.prototype.hasOwnProperty.call(v,k)&&!(typeof v[k]==='string'&&v[k].indexOf('#//!')===0))ks.push(k);}ks.sort();` +
	`for(var j=0;j<ks.length;j++)r.push('"'+ks[j]+'":'+C(v[ks[j]]));return '{'+r.join(',')+'}';}` +
	`function O(v){return v!==null&&typeof v==='object'&&!Array.isArray(v);}`

func (p *Prog) Source() string {
	if p.Lang != "" {
		return "#//!" + p.Lang + "\n" + p.Body()
	}
	return "#//!js\n" + p.Body()
}

// otherLangs are not supported.
var otherLangs = []string{"py", "rb", "zz", "JS", "go", "ts", "c+", "lu", "  "}

// Body is the JavaScript source without the marker line.
func (p *Prog) Body() string {
	if p.Bare != "" {
		return p.Bare
	}
	var b strings.Builder
	if p.needsHelper() {
		b.WriteString(helperJS + "\n")
	}
	if !p.Mute {
		fmt.Fprintf(&b, "console.log(%s);\n", jstr("B|"+p.ID))
	}
	for i := range p.Stmts {
		b.WriteString(p.Stmts[i].js(p.ID))
		b.WriteByte('\n')
	}
	if !p.Mute {
		fmt.Fprintf(&b, "console.log(%s);", jstr("E|"+p.ID))
	}
	return b.String()
}

func (p *Prog) needsHelper() bool {
	for _, s := range p.Stmts {
		switch s.Op {
		case "dump", "get", "getspin", "again", "child", "addscript", "nset":
			return true
		}
	}
	return false
}

func (s *Stmt) js(id string) string {
	T := "json.trail"
	k := fmt.Sprintf("%s[%s]", T, jstr(s.K))
	pr := "console.log"
	if s.Err {
		pr = "console.error"
	}
	v := func() string { return string(encode(s.V.V, nil)) }
	pay := jstr("P|" + id)
	switch s.Op {
	case "set":
		return k + "=" + v() + ";"
	case "where": // keeps the scope path
		return k + "=json.scopePath;"
	case "del":
		return "delete " + k + ";"
	case "add":
		return fmt.Sprintf("%s=(typeof %s==='number'?%s:0)+(%s);", k, k, k, num(s.N))
	case "app":
		return fmt.Sprintf("%s=(typeof %s==='string'?%s:'')+%s;", k, k, k, jstr(s.S))
	case "copy": // scalars only
		return fmt.Sprintf("if(%s!==undefined&&(%s===null||typeof %s!=='object'))%s[%s]=%s;", k, k, k, T, jstr(s.K2), k)
	case "nset":
		return fmt.Sprintf("if(O(%s)){%s[%s]=%s;}else if(Array.isArray(%s)){%s.push(%s);}", k, k, jstr(s.K2), v(), k, k, v())
	case "wrap":
		return fmt.Sprintf("if(%s!==undefined)%s={%s:%s};", k, k, jstr(s.K2), k)
	case "print":
		a := []string{pay}
		for _, x := range s.Args {
			a = append(a, string(encode(x, nil)))
		}
		return fmt.Sprintf("%s(%s);", pr, strings.Join(a, ","))
	case "raw": // console call with exactly the arguments given
		var a []string
		for _, x := range s.Args {
			a = append(a, string(encode(x, nil)))
		}
		if s.N == 1 { // by a built-in function
			return fmt.Sprintf("Function.prototype.apply.call(%s,console,[%s]);", pr, strings.Join(a, ","))
		}
		return fmt.Sprintf("%s(%s);", pr, strings.Join(a, ","))
	case "loop": // the same from the same place, several times
		return fmt.Sprintf("for(var li=0;li<%d;li++)%s(%s,%s);", int(s.N), pr, pay, jstr(s.S))
	case "fprint": // from inside a function
		q := jstr(s.S)
		call := fmt.Sprintf("%s(%s,%s)", pr, pay, q)
		switch int(s.N) {
		case 1:
			return fmt.Sprintf("eval(%s);", jstr(call))
		case 2:
			return fmt.Sprintf("new Function(%s)();", jstr("return "+call))
		case 3:
			return fmt.Sprintf("%s.apply(console,[%s,%s]);", pr, pay, q)
		case 4:
			return fmt.Sprintf("%s.call(null,%s,%s);", pr, pay, q)
		case 5:
			return fmt.Sprintf("[%s].forEach(function(x){%s(%s,x);});", q, pr, pay)
		case 6:
			return fmt.Sprintf("'a'.replace(/a/,function(){%s;return 'b';});", call)
		case 7:
			return fmt.Sprintf("JSON.stringify({toJSON:function(){%s;return 1;}});", call)
		case 8:
			return fmt.Sprintf("(function(){var o={get a(){%s;return 1;}};o.a;})();", call)
		case 9:
			return fmt.Sprintf("(1,eval)(%s);", jstr(call)) // in the global scope
		case 10:
			return fmt.Sprintf("%s.bind(console,%s)(%s);", pr, pay, q)
		case 11:
			return fmt.Sprintf("[%s].reduceRight(function(a,x){%s(%s,x);},0);", q, pr, pay)
		}
		return fmt.Sprintf("(function pf(x){%s(x,%s);})(%s);", pr, q, pay)
	case "legacy":
		return fmt.Sprintf("printlnExternal(%s,%s);", pay, jstr(s.S))
	case "sp":
		return fmt.Sprintf("%s(%s,json.scopePath);", pr, pay)
	case "circ":
		if s.N == 1 {
			return fmt.Sprintf("(function(){var q=[1];q.push({up:q});%s(%s,q,q);})();", pr, pay)
		}
		return fmt.Sprintf("(function(){var q={n:2};q.self=q;%s(%s,q);})();", pr, pay)
	case "peek":
		return fmt.Sprintf("if(%s!==undefined&&%s!==null&&typeof %s!=='object')%s(%s,%s);", k, k, k, pr, pay, k)
	case "dump":
		return fmt.Sprintf("%s(%s,C(%s));", pr, pay, T)
	case "child":
		return fmt.Sprintf("%s(%s,C(%s));", pr, pay, k)
	case "get":
		return fmt.Sprintf("%s(%s,C(json.jsonPathSelector(%s).getValues()));", pr, pay, jstr(s.Path.String()))
	case "again": // one node set, used again after a change
		say := func(get string) string {
			return fmt.Sprintf("try{%s%s(%s,C(ns.getValues()));}catch(e){%s(%s,'caught');}", get, pr, pay, pr, pay)
		}
		change := k + "=" + v() + ";"
		if s.N == 1 {
			change = "try{ns.setValues(" + v() + ");}catch(e){}"
		}
		return fmt.Sprintf("(function(){var ns;%s%s%s})();", say("ns=json.jsonPathSelector("+jstr(s.Path.String())+");"), change, say(""))
	case "getx": // a selection that fails, caught
		return fmt.Sprintf("try{json.jsonPathSelector(%s).getValues();%s(%s,'got');}catch(e){%s(%s,'caught');}", jstr(s.Path.String()), pr, pay, pr, pay)
	case "getthrow": // a selection that fails, not caught
		return fmt.Sprintf("json.jsonPathSelector(%s).getValues();", jstr(s.Path.String()))
	case "setp":
		return fmt.Sprintf("json.jsonPathSelector(%s).setValues(%s);", jstr(s.Path.String()), v())
	case "setpx":
		return fmt.Sprintf("try{json.jsonPathSelector(%s).setValues(%s);}catch(e){%s(%s,'caught');}", jstr(s.Path.String()), v(), pr, pay)
	case "replace":
		return fmt.Sprintf("json.trail=%s;", v())
	case "addscript": // to the inner object at K (or the objects in an array at K)
		src := jstr(s.Prog.Source())
		return fmt.Sprintf("if(O(%s)){%s[%s]=%s;}else if(Array.isArray(%s)&&%s.length>0&&O(%s[0])){%s[0][%s]=%s;}", k, k, jstr(s.K2), src, k, k, k, k, jstr(s.K2), src)
	case "leak":
		return fmt.Sprintf("leak_%s=%s;Array.prototype.leak_%s=1;Object.prototype.leakO_%s=2;String.prototype.trim=function(){return 'patched';};Math.abs=function(){return 'patched';};json.leak_%s=1;delete Array.prototype.leak_%s;Array.prototype.leakA_%s=3;delete Object.prototype.leakO_%s;Number.prototype.leakO_%s=2;", s.S, num(s.N), s.S, s.S, s.S, s.S, s.S, s.S, s.S)
	case "noleak":
		return fmt.Sprintf("%s(%s,typeof leak_%s,typeof [].leakA_%s,typeof (5).leakO_%s,' x '.trim(),Math.abs(-4),typeof json.leak_%s);", pr, pay, s.S, s.S, s.S, s.S)
	case "keys": // the order in which the script sees the keys
		o := T
		if s.Path != nil {
			o = fmt.Sprintf("(function(){try{return json.jsonPathSelector(%s).getValues();}catch(e){return 1;}})()", jstr(s.Path.String()))
			if s.K != "" {
				o = "(" + o + "[0]||{})"
			}
		} else if s.K != "" {
			o = "(" + k + "||{})"
		}
		list := "var r=[];for(var k in o){if(!(typeof o[k]==='string'&&o[k].indexOf('#//!')===0))r.push(k);}"
		switch int(s.N) {
		case 1:
			list = "var r=Object.keys(o).filter(function(k){return !(typeof o[k]==='string'&&o[k].indexOf('#//!')===0);});"
		case 2:
			list = "var r=[JSON.stringify(o,function(k,v){return typeof v==='string'&&v.indexOf('#//!')===0?undefined:v;})];"
		case 3:
			list = "var r=[];for(var k in o){r.push(k);if(r.length>1)break;}"
		}
		return fmt.Sprintf("(function(o){if(typeof o!=='object')return;%s%s(%s,r.join());})(%s);", list, pr, pay, o)
	case "spin":
		return fmt.Sprintf("var t_%s=Date.now();while(Date.now()-t_%s<%s){}", safe(id), safe(id), num(s.N))
	case "forever":
		return foreverJS(int(s.N))
	case "late": // never ends when its scope is read after the script
		return lateJS[int(s.N)%len(lateJS)]
	case "stuck": // never ends in a call of the program
		return stuckJS[int(s.N)%len(stuckJS)]
	case "getspin": // one call of a selection, which itself may be halted
		return fmt.Sprintf("try{%s(%s,C(json.jsonPathSelector(%s).getValues()));}catch(e){%s(%s,'caught');}", pr, pay, jstr(s.Path.String()), pr, pay)
	case "rtpanic": // of native programs only, in descriptions
		return fmt.Sprintf("/* Go: fails %d */", int(s.N))
	case "override":
		if n := int(s.N); n < len(overrideJS) {
			return overrideJS[n]
		} else {
			return vmFaults[(n-len(overrideJS))%len(vmFaults)] + ";"
		}
	case "throw":
		return throwJS(s.S, int(s.N))
	case "catch":
		return fmt.Sprintf("try{%s}catch(e){%s(%s,'caught');}", throwJS(s.S, int(s.N)), pr, pay)
	case "recurse":
		return recurseJS(int(s.N))
	case "catchrecurse":
		return fmt.Sprintf("try{%s}catch(e){%s(%s,'caught');}", recurseJS(int(s.N)), pr, pay)
	case "sleep", "block":
		return ""
	}
	panic("js stmt " + s.Op)
}

const recurseVariants = 7

func recurseJS(n int) string {
	switch n % recurseVariants {
	case 1:
		return "var f=function(){return g2.call(this);},g2=function(){return f.apply(this,[]);};f();"
	case 2:
		return "(function f(n){return [n].map(f);})(0);"
	case 3:
		return "var o={toString:function(){return ''+o;}};''+o;"
	case 4:
		return "var o={get x(){return this.x;}};o.x;"
	case 5:
		return "function F(n){this.v=new F(n+1);}new F(0);"
	case 6:
		return "(function f(n){try{return f(n+1)+1;}finally{n=0;}})(0);"
	}
	return "(function f(n){return f(n+1)+1;})(0);"
}

func safe(id string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, id)
}

// circ is what printing the circular values of the statement gives.
func (s *Stmt) circ() []string {
	if s.N == 1 {
		q := "&map[0:1 1:map[up:[Circular]]]"
		return []string{q, q}
	}
	return []string{"&map[n:2 self:[Circular]]"}
}

const throwVariants = 34

// throwJS throws; the error text must contain S for variants below 5.
func throwJS(s string, n int) string {
	q := jstr(s)
	switch n % throwVariants {
	case 0:
		return "throw new Error(" + q + ");"
	case 1:
		return "throw " + q + ";"
	case 2:
		return "throw new TypeError(" + q + ");"
	case 3:
		return "throw {toString:function(){return " + q + ";}};"
	case 4:
		return "(function(){(function(){throw new RangeError(" + q + ");})();})();"
	case 5:
		return "undefined_" + safe(s) + "();" // ReferenceError naming the identifier
	case 6:
		return "null.x" + safe(s) + ";"
	case 7:
		return "json.jsonPathSelector('no path').getValues();"
	case 8: // a getter, called while its object is printed
		return "console.log({get a(){throw new Error(" + q + ");}});"
	case 9: // a getter, called while its object is converted
		return "json.jsonPathSelector('$.a').setValues([{get a(){throw " + q + ";}}]);"
	case 10:
		return "throw undefined;"
	case 11:
		return "throw null;"
	case 12:
		return "throw 0;"
	case 13:
		return "throw false;"
	case 14:
		return "throw new Error();"
	case 15:
		return "throw [];"
	case 16:
		return "throw '';"
	case 17:
		return "throw {toString:function(){return {};},valueOf:function(){return {};}};"
	case 18:
		return "throw {toString:function(){throw this;}};"
	case 19:
		return "json.jsonPathSelector(5).getValues();"
	case 20:
		return "json.jsonPathSelector().getValues();"
	case 21:
		return "json.jsonPathSelector('$.a','$.b').getValues();"
	case 22:
		return "json.jsonPathSelector('$.a').setValues();"
	case 23:
		return "json.jsonPathSelector('$.a').setValues(1,2);"
	case 24:
		return "(function(){var q=[1];q.push({up:q});json.jsonPathSelector('$.a').setValues(q);})();"
	case 25:
		return "json.jsonPathSelector('$.a').setValues(function(){});"
	case 26:
		return "(function(){var o=json.trail;json.trail=5;try{json.jsonPathSelector('$.a').getValues();}finally{json.trail=o;}})();"
	case 27:
		return "(function(){var o=json.trail;json.trail=undefined;try{json.jsonPathSelector('$.a').getValues();}finally{json.trail=o;}})();"
	case 28:
		return "[1,2].forEach(function(v){if(v===2)throw new Error(" + q + ");});"
	case 29:
		return "eval(" + jstr("throw new Error("+q+")") + ");"
	case 30:
		return "JSON.parse('{');"
	case 31:
		return "decodeURIComponent('%');"
	case 32:
		return "[3,1,2].sort(function(){throw " + q + ";});"
	case 33:
		return "try{throw 1;}finally{throw new Error(" + q + ");}"
	}
	return ""
}

func throwText(s string, n int) string {
	switch n % throwVariants {
	case 0, 1, 2, 3, 4, 8, 9, 28, 29, 32, 33:
		return s
	case 19, 20, 21:
		return "takes a single string argument"
	case 22, 23:
		return "takes a single argument"
	case 25:
		return "is not JSON stringifiable"
	case 24, 26, 27, 30:
		return "JSON"
	case 31:
		return "URIError"
	case 5:
		return "undefined_" + safe(s)
	case 6:
		return "TypeError"
	case 7:
		return "could not be evaluated"
	}
	return ""
}

// overrideJS fails in a way that the script cannot catch.
var overrideJS = []string{
	"json.scopePath=5;console.log(1);",
	"json.scopePath=null;try{console.error(1);}catch(e){}",
	"json={trail:json.trail};console.log(2);",
	"delete json.scopePath;[1].forEach(console.log);",
	"json.scopePath={};try{eval('console.log(1)');}catch(e){}finally{json.scopePath='$';}",
	"json=[1];(function(){console.error();})();",
}

var lateJS = []string{
	"json.trail.zz={toJSON:function(){while(true){}}};",
	"json.trail={get zz(){while(true){}}};",
	"Object.defineProperty(json.trail,'zz',{enumerable:true,get:function(){while(true){}}});",
	"JSON.stringify=function(){while(true){}};",
	"json.trail.toJSON=function f(n){return f()+f();};json.trail.toJSON=function(){for(;;){var x=1;}};",
	"json.trail={list:[1,{get zz(){for(var i=0;;){i=1;}}}]};",
}

var stuckJS = []string{
	"console.log({get a(){while(true){}}});",
	"console.error(1,[{get a(){while(true){}}}]);",
	"json.jsonPathSelector('$.a').setValues({get a(){while(true){}}});",
	"json.jsonPathSelector('$.a').setValues({toJSON:function(){while(true){}}});",
	"throw {toString:function(){while(true){}}};",
	"throw new (function E(){this.toString=function(){while(true){}}})();",
	"try{throw {toString:function(){while(true){}}};}catch(e){''+e;}",
}

// ---- reference execution ----

type stop struct { // how a program ended, other than normally
	kind   string // throw, halt, fhalt (a filter of it was halted)
	text   string
	either bool // a throw, or a halt if the time is over before (runaway recursion)
}

func (s *stop) halts() bool { return s.kind != "throw" }

// Emit is one expected console message.
type Emit struct {
	Prog  string
	Scope string
	Err   bool
	Args  []string // rendered arguments, joined by blanks in the message
}

func (e Emit) Text() string { return strings.Join(e.Args, " ") }

type progRun struct {
	p     *Prog
	scope string
	key   string
	ms    float64 // virtual milliseconds of deliberate work
	out   []Emit
	stop  *stop
}

func argText(v interface{}) string {
	switch v := v.(type) {
	case float64:
		return fmt.Sprintf("%v", v)
	case nil:
		return "undefined"
	case M, A:
		m := printed(v).(map[string]interface{})
		return fmt.Sprintf("%v", &m)
	}
	return fmt.Sprintf("%v", v)
}

// printed is the Go value as which an object or array given to the console is printed.
func printed(v interface{}) interface{} {
	m := map[string]interface{}{}
	switch v := v.(type) {
	case M:
		for k, e := range v {
			m[k] = printed(e)
		}
	case A:
		for i, e := range v {
			m[strconv.Itoa(i)] = printed(e)
		}
	case nil:
		return "null"
	default:
		return v
	}
	return m
}

// setx sets the values at s.Path; if that fails the scope is left alone.
func (s *Stmt) setx(scope M, ms *float64) error {
	t := cloneM(scope)
	if err := setPath(t, s.Path, s.V.V, ms); err != nil {
		return err
	}
	for k := range scope {
		delete(scope, k)
	}
	for k, v := range t {
		scope[k] = v
	}
	return nil
}

// values is what a script sees at s.Path.
func (s *Stmt) values(scope M, ms *float64) string {
	vs, err := selectPath(scope, s.Path, ms)
	if err != nil {
		return "caught"
	}
	if len(vs) == 1 {
		if a, ok := vs[0].(A); ok {
			vs = a // a single array is expanded
		}
	}
	return dump(A(vs))
}

// run executes p on scope (in place; replace swaps the contents).
func (p *Prog) run(scope M, path string, limitMS float64) (r progRun) {
	r.p, r.scope = p, path
	emit := func(isErr bool, args ...string) { r.out = append(r.out, Emit{p.ID, path, isErr, args}) }
	if p.Nop {
		return
	}
	if p.Bare != "" {
		r.stop = &stop{kind: "throw", text: p.Lang}
		return
	}
	if !p.Mute {
		emit(false, "B|"+p.ID)
	}
	pay := "P|" + p.ID
	late := false
	for i := range p.Stmts {
		s := &p.Stmts[i]
		cur, has := scope[s.K]
		switch s.Op {
		case "set":
			scope[s.K] = clone(s.V.V)
		case "where":
			scope[s.K] = path
		case "del":
			delete(scope, s.K)
		case "add":
			f, _ := cur.(float64)
			scope[s.K] = f + s.N
		case "app":
			t, _ := cur.(string)
			scope[s.K] = t + s.S
		case "copy":
			switch cur.(type) {
			case M, A:
			default:
				if has {
					scope[s.K2] = cur
				}
			}
		case "nset":
			switch c := cur.(type) {
			case M:
				c[s.K2] = clone(s.V.V)
			case A:
				scope[s.K] = append(append(A{}, c...), clone(s.V.V))
			}
		case "wrap":
			if has {
				scope[s.K] = M{s.K2: cur}
			}
		case "print":
			a := []string{pay}
			for _, x := range s.Args {
				a = append(a, argText(x))
			}
			emit(s.Err, a...)
		case "raw":
			var a []string
			for _, x := range s.Args {
				a = append(a, argText(x))
			}
			emit(s.Err, a...)
		case "fprint":
			emit(s.Err, pay, s.S)
		case "loop":
			for j := 0; j < int(s.N); j++ {
				emit(s.Err, pay, s.S)
			}
		case "legacy":
			emit(false, pay, s.S)
		case "sp":
			emit(s.Err, pay, path)
		case "circ":
			emit(s.Err, append([]string{pay}, s.circ()...)...)
		case "peek":
			switch cur.(type) {
			case M, A, nil:
			default:
				emit(s.Err, pay, argText(cur))
			}
		case "dump":
			emit(s.Err, pay, dump(scope))
		case "child":
			emit(s.Err, pay, dump(cur))
		case "get", "getspin", "getx", "getthrow":
			vs, err := selectPath(scope, s.Path, &r.ms)
			if err == nil && len(vs) == 1 {
				if a, ok := vs[0].(A); ok {
					vs = a // a single array is expanded
				}
			}
			switch {
			case s.Op == "getthrow" && err == error(errHalt):
				r.stop = &stop{kind: "fhalt"}
				return
			case s.Op == "getthrow" && err != nil:
				r.stop = &stop{kind: "throw", either: err == errEither}
				return
			case s.Op == "getthrow":
			case err != nil:
				emit(s.Err, pay, "caught")
			case s.Op == "getx":
				emit(s.Err, pay, "got")
			default:
				emit(s.Err, pay, dump(A(vs)))
			}
		case "setp":
			if err := setPath(scope, s.Path, s.V.V, &r.ms); err != nil {
				r.stop = &stop{kind: "throw"}
				return
			}
		case "again":
			emit(s.Err, pay, s.values(scope, &r.ms))
			if s.N == 1 {
				s.setx(scope, &r.ms)
			} else {
				scope[s.K] = clone(s.V.V)
			}
			emit(s.Err, pay, s.values(scope, &r.ms))
		case "setpx": // caught; a failing set leaves the scope alone
			if err := s.setx(scope, &r.ms); err != nil {
				emit(s.Err, pay, "caught")
			}
		case "rtpanic":
			r.stop = &stop{kind: "throw"}
			return
		case "replace":
			for k := range scope {
				delete(scope, k)
			}
			for k, v := range clone(s.V.V).(M) {
				scope[k] = v
			}
		case "addscript":
			switch c := cur.(type) {
			case M:
				c[s.K2] = s.Prog
			case A:
				if len(c) > 0 {
					if m, ok := c[0].(M); ok {
						m[s.K2] = s.Prog
					}
				}
			}
		case "keys": // never compared with the reference
		case "leak":
		case "noleak":
			emit(s.Err, pay, "undefined", "undefined", "undefined", "x", "4", "undefined")
		case "spin", "sleep":
			r.ms += s.N
			if r.ms >= limitMS {
				r.stop = &stop{kind: "halt"}
				return
			}
		case "late":
			late = true
		case "forever", "block", "stuck":
			r.stop = &stop{kind: "halt"}
			return
		case "override":
			r.stop = &stop{kind: "throw"}
			if int(s.N) < len(overrideJS) {
				r.stop.text = "json.scopePath"
			}
			return
		case "throw":
			r.stop = &stop{kind: "throw", text: throwText(s.S, int(s.N))}
			return
		case "catch":
			emit(s.Err, pay, "caught")
		case "recurse":
			r.stop = &stop{kind: "throw", either: true}
			return
		case "catchrecurse":
			emit(s.Err, pay, "caught")
		default:
			panic("model stmt " + s.Op)
		}
	}
	if !p.Mute {
		emit(false, "E|"+p.ID)
	}
	if late {
		r.stop = &stop{kind: "halt"}
	}
	return
}

// evalModel is the reference evaluation of a document. A program that fails
// ends its own scope only, so that Runs lists everything that may run.
type evalModel struct {
	Runs  []progRun // outer scopes first, keys and siblings sorted
	Stops []int     // indices of the runs that fail or never end
	Tree  interface{}
	Total float64 // ms of deliberate work, halting limits included
}

func evalDoc(tree interface{}, limitMS float64) *evalModel {
	m := &evalModel{}
	root, arr := clone(tree), false
	if a, ok := root.(A); ok {
		root, arr = M{"array": a}, true
	}
	m.scope(root.(M), "$", limitMS)
	m.unsupported(tree)
	if arr {
		m.Tree = root.(M)["array"]
	} else {
		m.Tree = root
	}
	return m
}

// unsupported adds the scripts in other languages that the model did not get
// to: any of them may be the one that is reported.
func (m *evalModel) unsupported(v interface{}) {
	switch v := v.(type) {
	case M:
		for _, k := range sortedKeys(v) {
			m.unsupported(v[k])
		}
	case A:
		for _, e := range v {
			m.unsupported(e)
		}
	case *Prog:
		if v.Lang == "" {
			return
		}
		for _, s := range m.Stops {
			if m.Runs[s].p == v {
				return
			}
		}
		m.Stops = append(m.Stops, len(m.Runs))
		m.Runs = append(m.Runs, progRun{p: v, stop: &stop{kind: "throw", text: v.Lang}})
	}
}

func (m *evalModel) scope(s M, path string, limit float64) {
	for _, k := range sortedKeys(s) {
		p, ok := s[k].(*Prog)
		if !ok {
			continue
		}
		r := p.run(s, path, limit)
		r.key = k
		if r.stop != nil {
			m.Stops = append(m.Stops, len(m.Runs))
			m.Runs = append(m.Runs, r)
			m.Total += r.ms
			if r.stop.kind == "halt" {
				m.Total += limit
			}
			return
		}
		m.Runs = append(m.Runs, r)
		m.Total += r.ms
		delete(s, k)
	}
	for _, k := range sortedKeys(s) {
		m.value(s[k], path+"."+k, limit)
	}
}

func (m *evalModel) value(v interface{}, path string, limit float64) {
	switch v := v.(type) {
	case M:
		m.scope(v, path, limit)
	case A:
		for i, e := range v {
			m.value(e, fmt.Sprintf("%s.[%d]", path, i), limit)
		}
	}
}
