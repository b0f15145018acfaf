package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/andygello555/json-dom/jom/json_map"
)

// Trees are map[string]interface{}, []interface{}, string, float64, bool, nil
// and *Prog (a script) leaves.

type (
	M = map[string]interface{}
	A = []interface{}
)

func clone(v interface{}) interface{} {
	switch v := v.(type) {
	case M:
		m := make(M, len(v))
		for _, k := range sortedKeys(v) { // used under the simulator, on maps that were not made there
			m[k] = clone(v[k])
		}
		return m
	case A:
		a := make(A, len(v))
		for i, e := range v {
			a[i] = clone(e)
		}
		return a
	}
	return v
}

func cloneM(m M) M { return clone(m).(M) }

func sortedKeys(m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// num is a number the way JavaScript prints it.
func num(f float64) string {
	if a := math.Abs(f); a != 0 && (a >= 1e21 || a < 1e-6) {
		s := strconv.FormatFloat(f, 'e', -1, 64)
		return strings.Replace(strings.Replace(s, "e+0", "e+", 1), "e-0", "e-", 1)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// canon is an exact, order-independent rendering of a tree.
func canon(v interface{}) string {
	var b strings.Builder
	canonTo(&b, v)
	return b.String()
}

func canonTo(b *strings.Builder, v interface{}) {
	switch v := v.(type) {
	case M:
		b.WriteByte('{')
		for i, k := range sortedKeys(v) {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			canonTo(b, v[k])
		}
		b.WriteByte('}')
	case A:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			canonTo(b, e)
		}
		b.WriteByte(']')
	case string:
		b.WriteString(strconv.Quote(v))
	case float64:
		b.WriteString(num(v))
	case int:
		b.WriteString(strconv.Itoa(v))
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case nil:
		b.WriteString("null")
	case *Prog:
		if v.Native {
			b.WriteString("<callback>")
		} else {
			b.WriteString(strconv.Quote(v.Source()))
		}
	case func(json_map.JsonMapInt):
		b.WriteString("<callback>")
	default:
		fmt.Fprintf(b, "<%T>", v)
	}
}

// plainTree replaces scripts by their source.
func plainTree(v interface{}) interface{} {
	switch v := v.(type) {
	case M:
		m := make(M, len(v))
		for k, e := range v {
			m[k] = plainTree(e)
		}
		return m
	case A:
		a := make(A, len(v))
		for i, e := range v {
			a[i] = plainTree(e)
		}
		return a
	case *Prog:
		return v.Source()
	}
	return v
}

// dump is what the script helper C() renders: like canon, but scripts are left
// out of objects and strings are not escaped.
func dump(v interface{}) string {
	var b strings.Builder
	dumpTo(&b, v)
	return b.String()
}

func dumpTo(b *strings.Builder, v interface{}) {
	switch v := v.(type) {
	case M:
		b.WriteByte('{')
		n := 0
		for _, k := range sortedKeys(v) {
			if isScript(v[k]) {
				continue
			}
			if n++; n > 1 {
				b.WriteByte(',')
			}
			b.WriteString("\"" + k + "\":")
			dumpTo(b, v[k])
		}
		b.WriteByte('}')
	case A:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			dumpTo(b, e)
		}
		b.WriteByte(']')
	case string:
		if strings.HasPrefix(v, "#//!") {
			b.WriteString("SCRIPT")
		} else {
			b.WriteString("\"" + v + "\"")
		}
	case float64:
		b.WriteString(num(v))
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case nil:
		b.WriteString("null")
	case *Prog:
		b.WriteString("SCRIPT")
	default:
		if isScript(v) {
			b.WriteString("SCRIPT")
			return
		}
		fmt.Fprintf(b, "<%T>", v)
	}
}

func isScript(v interface{}) bool {
	switch v := v.(type) {
	case *Prog:
		return true
	case string:
		return strings.HasPrefix(v, "#//!")
	case nil:
		return false
	}
	return strings.HasPrefix(fmt.Sprintf("%T", v), "func(")
}

func hasScript(v interface{}) bool {
	switch v := v.(type) {
	case M:
		for _, e := range v {
			if hasScript(e) {
				return true
			}
		}
	case A:
		for _, e := range v {
			if hasScript(e) {
				return true
			}
		}
	}
	return isScript(v)
}

// encode renders a tree as JSON text; scripts become strings holding their
// JavaScript source. perm, if not nil, decides the order of object keys.
func encode(v interface{}, perm *Rng) []byte {
	var b bytes.Buffer
	encTo(&b, v, perm)
	return b.Bytes()
}

func jstr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func encTo(b *bytes.Buffer, v interface{}, perm *Rng) {
	switch v := v.(type) {
	case M:
		ks := sortedKeys(v)
		if perm != nil {
			p := perm.Perm(len(ks))
			ks2 := make([]string, len(ks))
			for i, j := range p {
				ks2[i] = ks[j]
			}
			ks = ks2
		}
		b.WriteByte('{')
		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(jstr(k))
			b.WriteByte(':')
			encTo(b, v[k], perm)
		}
		b.WriteByte('}')
	case A:
		b.WriteByte('[')
		for i, e := range v {
			if i > 0 {
				b.WriteByte(',')
			}
			encTo(b, e, perm)
		}
		b.WriteByte(']')
	case string:
		b.WriteString(jstr(v))
	case float64:
		b.WriteString(num(v))
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case nil:
		b.WriteString("null")
	case *Prog:
		b.WriteString(jstr(v.Source()))
	default:
		panic(fmt.Sprintf("encode %T", v))
	}
}

// wrapper for JSON round trips of trees with scripts
type Tree struct{ V interface{} }

func (t Tree) MarshalJSON() ([]byte, error) {
	var w func(v interface{}) interface{}
	w = func(v interface{}) interface{} {
		switch v := v.(type) {
		case M:
			m := make(M)
			for k, e := range v {
				m[k] = w(e)
			}
			return m
		case A:
			a := make(A, len(v))
			for i, e := range v {
				a[i] = w(e)
			}
			return a
		case *Prog:
			return map[string]interface{}{"$prog": v}
		}
		return v
	}
	return json.Marshal(w(t.V))
}

func (t *Tree) UnmarshalJSON(b []byte) error {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	var w func(v interface{}) (interface{}, error)
	w = func(v interface{}) (interface{}, error) {
		switch v := v.(type) {
		case M:
			if p, ok := v["$prog"]; ok && len(v) == 1 {
				pb, _ := json.Marshal(p)
				pr := &Prog{}
				err := json.Unmarshal(pb, pr)
				return pr, err
			}
			for k, e := range v {
				n, err := w(e)
				if err != nil {
					return nil, err
				}
				v[k] = n
			}
		case A:
			for i, e := range v {
				n, err := w(e)
				if err != nil {
					return nil, err
				}
				v[i] = n
			}
		}
		return v, nil
	}
	n, err := w(v)
	t.V = n
	return err
}
