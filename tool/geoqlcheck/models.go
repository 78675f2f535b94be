package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------ strings

var strOps = map[string]bool{"raw": true, "low": true, "up": true, "cat": true, "unq": true, "trimp": true, "trims": true,
	"trimall": true, "trimsp": true, "itoa": true, "itoa0": true, "ffloat": true, "durstr": true, "str": true, "mapkey": true,
	"errtext": true, "tos": true, "bytes2s": true, "substr": true, "fmt": true, "quote": true, "strfn": true, "buf": true, "sorted": true}

var fltOps = map[string]bool{"flt": true, "tofloat": true, "pf": true, "fneg": true, "fabs": true, "ftrunc": true, "float32": true,
	"f+": true, "f-": true, "f*": true, "f/": true, "fltfn": true}

func isStrTerm(v Val) bool {
	t, ok := v.(Term)
	return ok && strOps[t.Op]
}

func isFltTerm(v Val) bool {
	t, ok := v.(Term)
	return ok && fltOps[t.Op]
}

func isStr(v Val) bool {
	if _, ok := v.(Str); ok {
		return true
	}
	return isStrTerm(v)
}

// strCat joins strings; nested joins are flattened.
func strCat(vs ...Val) Val {
	var out []Val
	add := func(v Val) {
		if s, ok := v.(Str); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if p, ok := out[n-1].(Str); ok {
					out[n-1] = p + s
					return
				}
			}
		}
		out = append(out, v)
	}
	for _, v := range vs {
		if t, ok := v.(Term); ok && t.Op == "cat" {
			for _, a := range t.A {
				add(a)
			}
			continue
		}
		if _, ok := v.(Top); ok {
			return Top{}
		}
		add(v)
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return Term{"cat", out}
}

// rawOf gives the class of a lexeme text, and whether it was lowered.
func rawOf(v Val) (class string, t Term, ok bool) {
	t, ok = v.(Term)
	if !ok {
		return
	}
	if t.Op == "low" || t.Op == "up" {
		u, ok2 := t.A[0].(Term)
		if !ok2 || u.Op != "raw" {
			return "", t, false
		}
		return string(u.A[1].(Str)), u, true
	}
	if t.Op != "raw" {
		return "", t, false
	}
	return string(t.A[1].(Str)), t, true
}

// strEq compares a string term with another string.
func (st *State) strEq(x, y Val) Val {
	if eqVal(x, y) {
		return Bool(true)
	}
	if _, ok := x.(Top); ok {
		return Top{}
	}
	if _, ok := y.(Top); ok {
		return Top{}
	}
	if hk, ok := st.e.h.(interface {
		StrEq(st *State, x, y Val) Val
	}); ok {
		if v := hk.StrEq(st, x, y); v != nil {
			return v
		}
	}
	if _, ok := y.(Str); ok {
		x, y = y, x
	}
	if c, ok := x.(Str); ok {
		if class, t, ok := rawOf(y); ok {
			s := string(c)
			if t2, isT := y.(Term); isT && t2.Op == "low" && strings.ToLower(s) != s {
				return Bool(false)
			}
			if hk, ok := st.e.h.(interface {
				LexemeIs(st *State, l Term, class, s string) Val
			}); ok {
				if v := hk.LexemeIs(st, t, class, s); v != nil {
					return v
				}
			}
			return Bool(false)
		}
		if t, ok := y.(Term); ok && t.Op == "cat" {
			n := len(t.A)
			if p, ok := t.A[0].(Str); ok {
				if !strings.HasPrefix(string(c), string(p)) {
					return Bool(false)
				}
				return st.strEq(c[len(p):], strCat(t.A[1:]...))
			}
			if p, ok := t.A[n-1].(Str); ok {
				if !strings.HasSuffix(string(c), string(p)) {
					return Bool(false)
				}
				return st.strEq(c[:len(c)-len(p)], strCat(t.A[:n-1]...))
			}
		}
		if lo, hi, ok := st.lenRange(y); ok && (int64(len(c)) < lo || int64(len(c)) > hi) {
			return Bool(false)
		}
	}
	// a common prefix or suffix says nothing
	if p, q, ok := stripCommon(x, y); ok {
		return st.strEq(p, q)
	}
	return st.opaqueEq(x, y)
}

// stripCommon removes equal ends of two joins.
func stripCommon(x, y Val) (Val, Val, bool) {
	parts := func(v Val) []Val {
		if t, ok := v.(Term); ok && t.Op == "cat" {
			return t.A
		}
		return []Val{v}
	}
	a, b := parts(x), parts(y)
	if len(a) == 1 && len(b) == 1 {
		return nil, nil, false
	}
	n := 0
	for len(a) > 0 && len(b) > 0 && eqVal(a[0], b[0]) {
		a, b = a[1:], b[1:]
		n++
	}
	for len(a) > 0 && len(b) > 0 && eqVal(a[len(a)-1], b[len(b)-1]) {
		a, b = a[:len(a)-1], b[:len(b)-1]
		n++
	}
	if n == 0 {
		return nil, nil, false
	}
	return strCat(a...), strCat(b...), true
}

func (st *State) lenRange(v Val) (int64, int64, bool) {
	n := st.norm(st.strLen(v))
	if _, _, ok := linParts(n); !ok {
		return 0, 0, false
	}
	lo, hi := st.bounds(n)
	return lo, hi, true
}

func (st *State) strLen(v Val) Val {
	switch a := v.(type) {
	case Str:
		return Int(len(a))
	case Term:
		switch a.Op {
		case "cat":
			n := Val(Int(0))
			for _, p := range a.A {
				n = st.intOp(token.ADD, n, st.strLen(p), types.Typ[types.Int])
			}
			return n
		case "unq":
			return st.intOp(token.SUB, st.strLen(a.A[0]), Int(2), types.Typ[types.Int])
		case "trimp", "trims":
			return st.intOp(token.SUB, st.strLen(a.A[0]), Int(1), types.Typ[types.Int])
		case "low", "up":
			if _, t, ok := rawOf(a); ok {
				return st.strLen(t)
			}
		case "raw":
			if c := string(a.A[1].(Str)); strings.HasPrefix(c, "w:") {
				return Int(len(c) - 2)
			}
			lo := int64(1)
			if a.A[1] == Val(Str("string")) {
				lo = 2
			}
			return st.intFor(lo, posInf, term("strlen", a))
		}
		return st.intFor(0, posInf, term("strlen", a))
	}
	return Top{}
}

func (st *State) strIndex(v, idx Val) Val {
	i, ok := idx.(Int)
	if s, isS := v.(Str); isS && ok && int(i) >= 0 && int(i) < len(s) {
		return Int(s[i])
	}
	if ok && i == 0 {
		if class, t, ok := rawOf(v); ok {
			switch {
			case class == "string":
				return Int('"')
			case class == "int" || class == "float" || class == "fdot":
				return st.intFor('0', '9', term("byte0", v))
			case strings.HasPrefix(class, "id:"):
				c := class[3]
				if t2 := v.(Term); t2.Op == "low" {
					return Int(strings.ToLower(string(c))[0])
				} else if t2.Op == "up" {
					return Int(strings.ToUpper(string(c))[0])
				}
				return Int(c)
			case class == "id":
				return Int(st.e.otherByte())
			}
			_ = t
		}
		if t, ok := v.(Term); ok && t.Op == "cat" {
			return st.strIndex(t.A[0], Int(0))
		}
	}
	if _, ok := v.(Top); ok {
		return Top{}
	}
	// the closing quote
	quoted := v
	if t, ok := v.(Term); ok && t.Op == "trimp" {
		quoted = t.A[0]
	}
	if class, _, ok := rawOf(quoted); ok && class == "string" {
		last := st.intOp(token.SUB, st.strLen(v), Int(1), types.Typ[types.Int])
		if d, ok := st.upper(idx, last); ok && d == 0 {
			if e, ok := st.upper(last, idx); ok && e == 0 {
				return Int('"')
			}
		}
	}
	return st.intFor(0, 255, term("byte", v, idx))
}

// otherByte stands for the first letter of a word that the program does
// not distinguish.
func (e *Engine) otherByte() int64 { return 'q' }

func (st *State) strSlice(v, lo, hi, n Val) Val {
	if s, ok := v.(Str); ok {
		l, ok1 := lo.(Int)
		h, ok2 := hi.(Int)
		if ok1 && ok2 {
			return s[l:h]
		}
	}
	if eqVal(lo, Int(0)) && eqVal(hi, n) {
		return v
	}
	if class, _, ok := rawOf(v); ok && class == "string" {
		if eqVal(lo, Int(1)) {
			if d, ok := st.upper(hi, n); ok {
				if e, _ := st.upper(n, hi); e == -d {
					if d == -1 {
						return term("unq", v)
					}
					if d == 0 {
						return term("trimp", v)
					}
				}
			}
		}
		if eqVal(lo, Int(0)) {
			if d, ok := st.upper(hi, n); ok && d == -1 {
				if e, _ := st.upper(n, hi); e == 1 {
					return term("trims", v)
				}
			}
		}
	}
	if t, ok := v.(Term); ok && eqVal(lo, Int(1)) && eqVal(hi, n) && t.Op == "trims" {
		return term("unq", t.A[0])
	}
	if t, ok := v.(Term); ok && eqVal(lo, Int(0)) && t.Op == "trimp" {
		if d, ok := st.upper(hi, n); ok && d == -1 {
			if e, _ := st.upper(n, hi); e == 1 {
				return term("unq", t.A[0])
			}
		}
	}
	if _, ok := v.(Top); ok {
		return Top{}
	}
	return term("substr", v, lo, hi)
}

func strLower(v Val) Val {
	switch a := v.(type) {
	case Str:
		return Str(strings.ToLower(string(a)))
	case Term:
		if a.Op == "low" {
			return a
		}
		if class, _, ok := rawOf(a); ok && (class == "int" || class == "float" || class == "fdot") {
			return a
		} else if ok && strings.HasPrefix(class, "w:") {
			return Str(class[2:])
		}
		if a.Op == "raw" || isStrTerm(a) {
			return term("low", a)
		}
	}
	return Top{}
}

func strUpper(v Val) Val {
	switch a := v.(type) {
	case Str:
		return Str(strings.ToUpper(string(a)))
	case Term:
		if class, _, ok := rawOf(a); ok && strings.HasPrefix(class, "w:") {
			return Str(strings.ToUpper(class[2:]))
		}
		if class, _, ok := rawOf(a); ok && (class == "int" || class == "float" || class == "fdot") {
			return a
		}
		if isStrTerm(a) {
			return term("up", a)
		}
	}
	return Top{}
}

// trimQuote removes a literal prefix or suffix.
func trimAffix(v Val, fix string, prefix bool) Val {
	if s, ok := v.(Str); ok {
		if prefix {
			return Str(strings.TrimPrefix(string(s), fix))
		}
		return Str(strings.TrimSuffix(string(s), fix))
	}
	t, ok := v.(Term)
	if !ok {
		return Top{}
	}
	if fix == "" {
		return v
	}
	if class, _, ok := rawOf(t); ok {
		if class == "string" {
			if fix == `"` {
				if prefix {
					return term("trimp", t)
				}
				return term("trims", t)
			}
			if fix[0] != '"' && prefix || fix[len(fix)-1] != '"' && !prefix {
				return v
			}
		}
	}
	if fix == `"` && t.Op == "trimp" && !prefix {
		return term("unq", t.A[0])
	}
	if fix == `"` && t.Op == "trims" && prefix {
		return term("unq", t.A[0])
	}
	return term("strfn", Str(fmt.Sprintf("trim%v", prefix)), v, Str(fix))
}

// ------------------------------------------------------------ floats

// classes of float values that matter for their text
const (
	fltFrac  = iota // not whole
	fltSmall        // whole, below 2^53
	fltBig          // whole, 2^53 to 2^63
	fltHuge         // whole, 2^63 or more
)

var fltU = &Universe{Name: "float", N: 4, Label: func(i int) string {
	return [4]string{"fraction", "whole number", "large whole number", "whole number beyond int"}[i]
}}

func fltCore(v Val) Val {
	for {
		t, ok := v.(Term)
		if !ok || t.Op != "fneg" && t.Op != "fabs" {
			return v
		}
		v = t.A[0]
	}
}

func (st *State) fltClass(v Val) SymID {
	v = fltCore(v)
	dom := fullBits(4)
	if t, ok := v.(Term); ok && t.Op == "tofloat" {
		dom = dom.minus(bit(fltFrac))
	}
	return st.choiceFor(fltU, dom, term("fltclass", v))
}

func (st *State) fltNeg(v Val) Val {
	return st.mapTab(v, func(v Val) Val {
		switch a := v.(type) {
		case Flt:
			return -a
		case Term:
			if a.Op == "fneg" {
				return a.A[0]
			}
			return term("fneg", a)
		}
		return Top{}
	})
}

func (st *State) fltCmp(op token.Token, x, y Val) Val {
	if _, ok := x.(Top); ok {
		return Top{}
	}
	if _, ok := y.(Top); ok {
		return Top{}
	}
	a, ok1 := x.(Flt)
	b, ok2 := y.(Flt)
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return Bool(a < b)
		case token.LEQ:
			return Bool(a <= b)
		case token.GTR:
			return Bool(a > b)
		case token.GEQ:
			return Bool(a >= b)
		}
		return Bool(a == b)
	}
	if ok1 {
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
		x, y = y, x
		b, ok2 = a, true
	}
	byClass := func(set Bits) Val {
		s := st.fltClass(x)
		return st.norm(mkTab(s, []Grp{{set, Bool(true)}, {fullBits(4).minus(set), Bool(false)}}))
	}
	if op == token.EQL {
		if eqVal(x, y) {
			return Bool(true)
		}
		tx, o1 := x.(Term)
		ty, o2 := y.(Term)
		if o1 && o2 && ty.Op == "ftrunc" && eqVal(ty.A[0], x) {
			return byClass(fullBits(4).minus(bit(fltFrac)))
		}
		if o1 && o2 && tx.Op == "ftrunc" && eqVal(tx.A[0], y) {
			x = y
			return byClass(fullBits(4).minus(bit(fltFrac)))
		}
		if t, ok := y.(Term); ok && t.Op == "tofloat" && o1 {
			// v == float64(int64(v))
			if l, ok := t.A[0].(Term); ok && l.Op == "toint" && eqVal(l.A[0], x) {
				return st.opaqueBool(term("feq", x, y))
			}
		}
		if tx, ok := x.(Term); ok && tx.Op == "fltfn" && ok2 && b == 0 && (tx.A[0] == Val(Str("math.Mod1")) || tx.A[0] == Val(Str("math.Modf.frac"))) {
			x = tx.A[1]
			return byClass(fullBits(4).minus(bit(fltFrac)))
		}
	}
	if t, ok := x.(Term); ok && t.Op == "fabs" && ok2 {
		c := float64(b)
		const lim, huge = 1 << 53, 1 << 63
		ge := Bits{} // classes where |v| >= c for sure
		lt := Bits{}
		if c <= lim {
			ge = ge.or(bit(fltBig)).or(bit(fltHuge))
		} else if c <= huge {
			ge = ge.or(bit(fltHuge))
		}
		if c >= lim {
			lt = lt.or(bit(fltFrac)).or(bit(fltSmall))
		}
		if c >= huge {
			lt = lt.or(bit(fltBig))
		}
		s := st.fltClass(x)
		yes, no := Bool(true), Bool(false)
		var unk Val
		rest := fullBits(4).minus(ge).minus(lt).and(st.syms[s].Dom)
		if !rest.empty() {
			unk = st.opaqueBool(term("fge", x, y))
		}
		g := []Grp{{ge, yes}, {lt, no}}
		if unk != nil {
			g = append(g, Grp{rest, unk})
		}
		r := st.norm(mkTab(s, g))
		switch op {
		case token.GEQ, token.GTR:
			return r
		case token.LSS, token.LEQ:
			return negBool(st, r)
		}
	}
	switch op {
	case token.LSS:
		return negBool(st, st.opaqueBool(term("fge", x, y)))
	case token.GEQ:
		return st.opaqueBool(term("fge", x, y))
	case token.GTR:
		return negBool(st, st.opaqueBool(term("fge", y, x)))
	case token.LEQ:
		return st.opaqueBool(term("fge", y, x))
	}
	return st.opaqueEq(x, y)
}

// ------------------------------------------------------------ builtins

func (fr *Frame) builtin(st *State, name string, args []Val, c *ssa.CallCommon, in *ssa.Call) []Outcome {
	ok := func(v Val) []Outcome { return []Outcome{{st: st, val: v}} }
	name = strings.TrimPrefix(name, "builtin.")
	switch name {
	case "len":
		return ok(fr.lenOf(st, args[0]))
	case "cap":
		return ok(st.intFor(0, posInf, term("cap", args[0])))
	case "append":
		var more Val = Nil{}
		if len(args) > 1 {
			more = args[1]
		}
		var t types.Type
		if c != nil {
			t = c.Args[0].Type()
		}
		return ok(fr.appendTo(st, in, args[0], more, t))
	case "copy":
		dst, src := st.concretize(args[0]), st.concretize(args[1])
		switch d := dst.(type) {
		case InSlice:
			fr.report([]string{"C16"}, "write-input", in, "a list of the statement is overwritten")
		case Slice:
			if d.O < 0 && !fr.e.initing {
				fr.report([]string{"C16"}, "write-shared", in, "package state is modified")
				break
			}
			ob := st.obj(d.O)
			if s, isS := src.(Slice); isS && plainList(ob) && plainList(st.obj(s.O)) {
				f := append([]Val(nil), ob.F...)
				n := copy(f, st.obj(s.O).F)
				st.setObj(d.O, &Obj{ob.Shape, ob.T, f})
				return ok(Int(n))
			}
			if s, isS := src.(InSlice); isS && len(ob.F) == 1 {
				if g, isSeg := ob.F[0].(Seg); isSeg && g.Kind == "opaque" && eqVal(g.A[0], st.inLen(s.T)) {
					st.setObj(d.O, &Obj{ob.Shape, ob.T, []Val{Seg{"in", []Val{Int(0), s.T}}}})
					return ok(g.A[0])
				}
			}
			if len(ob.F) > 0 {
				f := make([]Val, len(ob.F))
				for i, v := range ob.F {
					if _, is := v.(Seg); is {
						f[i] = v
					} else {
						f[i] = Top{}
					}
				}
				st.setObj(d.O, &Obj{ob.Shape, ob.T, f})
			}
		}
		return ok(st.intFor(0, posInf, term("copied", dst, src)))
	case "delete":
		switch m := st.concretize(args[0]).(type) {
		case InMap:
			fr.report([]string{"C16"}, "write-input", in, "a map of the statement or the dictionary is modified")
		case MapV:
			if m.O < 0 && !fr.e.initing {
				fr.report([]string{"C16"}, "write-shared", in, "package state is modified")
				break
			}
			ob := st.obj(m.O)
			k := st.concretize(args[1])
			if ob.Shape == "map" {
				outs := fr.deciding(st, func(s *State) {
					ob := s.obj(m.O)
					for i := 0; i+1 < len(ob.F); i += 2 {
						c := s.norm(s.eq(ob.F[i], k, nil))
						if c == Val(Bool(true)) {
							f := append(append([]Val(nil), ob.F[:i]...), ob.F[i+2:]...)
							s.setObj(m.O, &Obj{ob.Shape, ob.T, f})
							return
						}
						if c != Val(Bool(false)) {
							panic(mapSplit{c})
						}
					}
				})
				var res []Outcome
				for _, s := range outs {
					res = append(res, Outcome{st: s, val: Agg{}})
				}
				return res
			}
		}
		return ok(Agg{})
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := st.concretize(r), st.concretize(a)
			i, ok1 := x.(Int)
			j, ok2 := y.(Int)
			if ok1 && ok2 {
				if (i < j) == (name == "min") {
					r = i
				} else {
					r = j
				}
				continue
			}
			lx, hx := st.bounds(x)
			ly, hy := st.bounds(y)
			if name == "max" {
				r = st.intFor(max(lx, ly), max(hx, hy), term(name, x, y))
			} else {
				r = st.intFor(min(lx, ly), min(hx, hy), term(name, x, y))
			}
		}
		return ok(r)
	case "print", "println", "clear", "close":
		return ok(Agg{})
	case "recover":
		p := st.pan
		st.pan = nil
		if p == nil {
			return ok(Nil{})
		}
		return ok(p)
	case "panic":
		return []Outcome{{st: st, pan: args[0]}}
	case "ssa:wrapnilchk":
		v := st.concretize(args[0])
		if _, isNil := v.(Nil); isNil {
			return []Outcome{{st: st, pan: rtPanic(fr.e.posOf(in), "nil pointer dereference")}}
		}
		return ok(v)
	}
	panic(undecidable{"builtin " + name})
}

func plainList(ob *Obj) bool {
	for _, v := range ob.F {
		if _, is := v.(Seg); is {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------ library

// nondeterministic library functions: results that differ between runs.
func nondet(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	switch p := fn.Pkg.Pkg.Path(); p {
	case "math/rand", "math/rand/v2", "crypto/rand":
		return true
	case "time":
		return fn.Name() == "Now" || fn.Name() == "Since" || fn.Name() == "Until"
	case "os":
		return fn.Name() == "Getpid" || fn.Name() == "Getenv" || fn.Name() == "LookupEnv" || fn.Name() == "Hostname"
	case "runtime":
		return fn.Name() == "NumGoroutine" || fn.Name() == "ReadMemStats"
	}
	return false
}

func errOutcome(t Term) Val { return libErr(t) }

// splitErr makes two outcomes: success with v, or an error.
func splitErr(st *State, cond Term, v, zero Val) []Outcome {
	s := st.choiceFor(boolU, fullBits(2), cond)
	d := st.syms[s].Dom
	var outs []Outcome
	if d.has(1) {
		t := st
		if d.has(0) {
			t = st.clone()
		}
		t.restrict(s, bit(1))
		outs = append(outs, Outcome{st: t, val: Agg{[]Val{v, Nil{}}}})
	}
	if d.has(0) {
		st.restrict(s, bit(0))
		outs = append(outs, Outcome{st: st, val: Agg{[]Val{zero, libErr(cond)}}})
	}
	return outs
}

func (fr *Frame) model(st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	name := fn.String()
	ok := func(v Val) ([]Outcome, bool) { return []Outcome{{st: st, val: v}}, true }
	if nondet(fn) {
		fr.reportAt([]string{"C14"}, "nondeterminism", fr.e.posOf(site), "the result depends on %s", name)
	}
	pure := func(i int, f func(v Val) Val) ([]Outcome, bool) { return ok(st.mapTab(args[i], f)) }
	switch name {
	case "strings.ToLower":
		if t, isT := st.norm(args[0]).(Term); isT && (t.Op == "lextext" || t.Op == "lexlow") {
			return ok(Term{"lexlow", t.A})
		}
		return pure(0, strLower)
	case "strings.ToUpper":
		return pure(0, strUpper)
	case "strings.TrimPrefix", "strings.TrimSuffix":
		fix, isC := st.concretize(args[1]).(Str)
		return pure(0, func(v Val) Val {
			if !isC {
				return Top{}
			}
			return trimAffix(v, string(fix), name == "strings.TrimPrefix")
		})
	case "strings.CutPrefix", "strings.CutSuffix":
		break
	case "strings.TrimSpace":
		return pure(0, func(v Val) Val {
			if s, ok := v.(Str); ok {
				return Str(strings.TrimSpace(string(s)))
			}
			if class, _, ok := rawOf(v); ok {
				_ = class
				return v
			}
			return term("trimsp", v)
		})
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		cut, isC := st.concretize(args[1]).(Str)
		return pure(0, func(v Val) Val {
			if s, ok := v.(Str); ok && isC {
				switch name {
				case "strings.Trim":
					return Str(strings.Trim(string(s), string(cut)))
				case "strings.TrimLeft":
					return Str(strings.TrimLeft(string(s), string(cut)))
				}
				return Str(strings.TrimRight(string(s), string(cut)))
			}
			return term("strfn", Str(name), v, args[1])
		})
	case "strings.HasPrefix", "strings.HasSuffix":
		fix, isC := st.concretize(args[1]).(Str)
		return pure(0, func(v Val) Val {
			if s, ok := v.(Str); ok && isC {
				if name == "strings.HasPrefix" {
					return Bool(strings.HasPrefix(string(s), string(fix)))
				}
				return Bool(strings.HasSuffix(string(s), string(fix)))
			}
			if class, _, ok := rawOf(v); ok && isC && fix == `"` {
				return Bool(class == "string")
			}
			if isC && len(fix) == 1 && name == "strings.HasPrefix" {
				if b, ok := st.strIndex(v, Int(0)).(Int); ok {
					return Bool(b == Int(fix[0]))
				}
			}
			return st.opaqueBool(term("fix", Str(name), v, args[1]))
		})
	case "strings.EqualFold":
		return ok(st.mapTab2(args[0], args[1], func(a, b Val) Val { return st.eq1(strLower(a), strLower(b)) }))
	case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
		return ok(st.mapTab2(args[0], args[1], func(a, b Val) Val {
			x, ok1 := a.(Str)
			y, ok2 := b.(Str)
			if ok1 && ok2 && name == "strings.Contains" {
				return Bool(strings.Contains(string(x), string(y)))
			}
			if c, isI := b.(Int); isI && ok1 {
				return Bool(strings.ContainsRune(string(x), rune(c)))
			}
			return st.opaqueBool(term("contains", a, b))
		}))
	case "strings.Repeat":
		return ok(st.mapTab2(args[0], args[1], func(a, b Val) Val {
			x, ok1 := a.(Str)
			y, ok2 := b.(Int)
			if ok1 && ok2 && y >= 0 && y < 1000 {
				return Str(strings.Repeat(string(x), int(y)))
			}
			return term("strfn", Str(name), a, b)
		}))
	case "strings.Join":
		if s, isS := st.concretize(args[0]).(Slice); isS && plainList(st.obj(s.O)) {
			var parts []Val
			for i, x := range st.obj(s.O).F {
				if i > 0 {
					parts = append(parts, args[1])
				}
				parts = append(parts, st.concretize(x))
			}
			return ok(strCat(parts...))
		}
		return ok(term("strfn", Str(name), args[0], args[1]))
	case "strings.NewReader":
		o := st.newObj("reader", fn.Signature.Results().At(0).Type(), []Val{args[0]})
		return ok(Ptr{O: o})
	case "(*strings.Reader).Seek":
		t := term("seek", args...)
		return splitErr(st, term("ok", t), st.intFor(0, posInf, t), Int(0)), true
	case "(*strings.Reader).Read":
		t := term("read", args...)
		n := st.intFor(0, posInf, t)
		return ok(Agg{[]Val{n, st.errUnknown(t)}})
	case "strconv.Atoi", "strconv.ParseInt":
		x := st.concretize(args[0])
		if s, isS := x.(Str); isS {
			v, err := strconv.ParseInt(string(s), 10, 64)
			if err != nil {
				return ok(Agg{[]Val{Int(0), libErr(term("atoi", x))}})
			}
			return ok(Agg{[]Val{Int(v), Nil{}}})
		}
		if class, _, isRaw := rawOf(x); isRaw {
			switch class {
			case "int":
				if len(args) > 1 && (args[1] != Val(Int(10)) || args[2] != Val(Int(64)) && args[2] != Val(Int(0))) {
					break
				}
				return splitErr(st, term("atoiok", x), st.intFor(0, posInf, term("atoi", x)), Int(0)), true
			default:
				return ok(Agg{[]Val{Int(0), libErr(term("atoi", x))}})
			}
		}
		t := term("parseint", args...)
		return splitErr(st, term("ok", t), st.intFor(negInf, posInf, t), Int(0)), true
	case "strconv.ParseFloat":
		x := st.concretize(args[0])
		if s, isS := x.(Str); isS {
			v, err := strconv.ParseFloat(string(s), 64)
			if err != nil {
				return ok(Agg{[]Val{Flt(0), libErr(term("pf", x))}})
			}
			return ok(Agg{[]Val{Flt(v), Nil{}}})
		}
		if class, _, isRaw := rawOf(x); isRaw {
			if class == "float" || class == "int" || class == "fdot" {
				if args[1] != Val(Int(64)) {
					return splitErr(st, term("pfok", x), term("fltfn", Str("pf32"), x), Flt(0)), true
				}
				return splitErr(st, term("pfok", x), term("pf", x), Flt(0)), true
			}
			return ok(Agg{[]Val{Flt(0), libErr(term("pf", x))}})
		}
		t := term("fltfn", Str("pf"), x)
		return splitErr(st, term("ok", t), t, Flt(0)), true
	case "strconv.ParseBool":
		x := st.concretize(args[0])
		if s, isS := x.(Str); isS {
			v, err := strconv.ParseBool(string(s))
			if err != nil {
				return ok(Agg{[]Val{Bool(false), libErr(term("pb", x))}})
			}
			return ok(Agg{[]Val{Bool(v), Nil{}}})
		}
		return splitErr(st, term("ok", term("pb", x)), st.opaqueBool(term("pbv", x)), Bool(false)), true
	case "strconv.Itoa", "strconv.FormatInt":
		if len(args) > 1 && st.concretize(args[1]) != Val(Int(10)) {
			return ok(term("strfn", Str(name), args[0], args[1]))
		}
		return pure(0, func(v Val) Val {
			if i, ok := v.(Int); ok {
				return Str(strconv.FormatInt(int64(i), 10))
			}
			if _, ok := v.(Top); ok {
				return v
			}
			return term("itoa", v)
		})
	case "strconv.FormatFloat":
		f, p, b := st.concretize(args[1]), st.concretize(args[2]), st.concretize(args[3])
		return pure(0, func(v Val) Val {
			if x, ok := v.(Flt); ok {
				fi, o1 := f.(Int)
				pi, o2 := p.(Int)
				bi, o3 := b.(Int)
				if o1 && o2 && o3 {
					return Str(strconv.FormatFloat(float64(x), byte(fi), int(pi), int(bi)))
				}
			}
			if _, ok := v.(Top); ok {
				return v
			}
			return term("ffloat", v, f, p, b)
		})
	case "strconv.FormatBool":
		return pure(0, func(v Val) Val {
			if b, ok := v.(Bool); ok {
				return Str(strconv.FormatBool(bool(b)))
			}
			return term("strfn", Str(name), v)
		})
	case "strconv.Quote":
		return pure(0, func(v Val) Val {
			if s, ok := v.(Str); ok {
				return Str(strconv.Quote(string(s)))
			}
			return term("quote", v)
		})
	case "fmt.Sprintf", "fmt.Errorf":
		s := fr.sprintf(st, args)
		if name == "fmt.Errorf" {
			t, isT := s.(Term)
			if !isT {
				t = term("msg", s)
			}
			return ok(libErr(t))
		}
		return ok(s)
	case "fmt.Sprint":
		if s, isS := st.concretize(args[0]).(Slice); isS && plainList(st.obj(s.O)) {
			var parts []Val
			for _, x := range st.obj(s.O).F {
				parts = append(parts, fr.fmtArg(st, "v", x))
			}
			if len(parts) == 1 {
				return ok(parts[0])
			}
		}
		return ok(term("fmt", args...))
	case "errors.New":
		return ok(libErr(term("msg", st.concretize(args[0]))))
	case "errors.Is", "errors.As":
		return ok(st.opaqueBool(term("errfn", args...)))
	case "time.ParseDuration":
		x := st.concretize(args[0])
		if s, isS := x.(Str); isS {
			v, err := time.ParseDuration(string(s))
			if err != nil {
				return ok(Agg{[]Val{Int(0), libErr(term("pdur", x))}})
			}
			return ok(Agg{[]Val{Int(v), Nil{}}})
		}
		return splitErr(st, term("pdurok", x), st.intFor(negInf, posInf, term("pdur", x)), Int(0)), true
	case "(time.Duration).String":
		return pure(0, func(v Val) Val {
			if i, ok := v.(Int); ok {
				return Str(time.Duration(i).String())
			}
			if _, ok := v.(Top); ok {
				return v
			}
			return term("durstr", v)
		})
	case "(time.Duration).Truncate":
		return ok(st.mapTab2(args[0], args[1], func(a, b Val) Val {
			x, o1 := a.(Int)
			y, o2 := b.(Int)
			if o1 && o2 {
				return Int(time.Duration(x).Truncate(time.Duration(y)))
			}
			if _, ok := a.(Top); ok {
				return a
			}
			lo, hi := st.bounds(a)
			return st.intFor(min(lo, 0), max(hi, 0), term("durtrunc", a, b))
		}))
	case "math.Abs":
		return pure(0, func(v Val) Val {
			switch a := v.(type) {
			case Flt:
				return Flt(math.Abs(float64(a)))
			case Term:
				if a.Op == "fneg" || a.Op == "fabs" {
					return term("fabs", fltCore(a))
				}
				return term("fabs", a)
			}
			return Top{}
		})
	case "math.Trunc", "math.Floor", "math.Ceil", "math.Round":
		return pure(0, func(v Val) Val {
			switch a := v.(type) {
			case Flt:
				switch name {
				case "math.Trunc":
					return Flt(math.Trunc(float64(a)))
				case "math.Floor":
					return Flt(math.Floor(float64(a)))
				case "math.Ceil":
					return Flt(math.Ceil(float64(a)))
				}
				return Flt(math.Round(float64(a)))
			case Term:
				return term("ftrunc", a) // equal to the value exactly when it is whole
			}
			return Top{}
		})
	case "math.Mod":
		return ok(st.mapTab2(args[0], args[1], func(a, b Val) Val {
			if b == Val(Flt(1)) {
				return term("fltfn", Str("math.Mod1"), a)
			}
			return term("fltfn", Str(name), a, b)
		}))
	case "math.Modf":
		return ok(Agg{[]Val{st.mapTab(args[0], func(v Val) Val { return term("ftrunc", v) }),
			st.mapTab(args[0], func(v Val) Val { return term("fltfn", Str("math.Modf.frac"), v) })}})
	case "sort.Strings", "slices.Sort", "slices.Sort[[]string string]", "sort.Slice", "sort.SliceStable":
		fr.sortList(st, args[0], site, name)
		return ok(Agg{})
	case "(sort.StringSlice).Sort":
		fr.sortList(st, args[0], site, name)
		return ok(Agg{})
	case "unicode.IsLetter", "unicode.IsDigit", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower":
		return pure(0, func(v Val) Val {
			if i, ok := v.(Int); ok {
				r := rune(i)
				switch name {
				case "unicode.IsLetter":
					return Bool(unicode.IsLetter(r))
				case "unicode.IsDigit":
					return Bool(unicode.IsDigit(r))
				case "unicode.IsSpace":
					return Bool(unicode.IsSpace(r))
				case "unicode.IsUpper":
					return Bool(unicode.IsUpper(r))
				}
				return Bool(unicode.IsLower(r))
			}
			if _, ok := v.(Top); ok {
				return v
			}
			return st.opaqueBool(term("uni", Str(name), v))
		})
	case "unicode.ToLower":
		return pure(0, func(v Val) Val {
			if i, ok := v.(Int); ok {
				return Int(unicode.ToLower(rune(i)))
			}
			return st.intFor(0, utf8.MaxRune, term("tolower", v))
		})
	case "bytes.NewBuffer", "bytes.NewBufferString":
		var init []Val
		switch a := st.concretize(args[0]).(type) {
		case Str, Term:
			init = []Val{a}
		}
		return ok(Ptr{O: st.newObj("buffer", fn.Signature.Results().At(0).Type(), init)})
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte",
		"(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		p := st.concretize(args[0])
		if _, isNil := p.(Nil); isNil {
			return []Outcome{{st: st, pan: rtPanic(fr.e.posOf(site), "nil pointer dereference")}}, true
		}
		v := st.concretize(args[1])
		if i, isI := v.(Int); isI {
			v = Str(string(rune(i)))
		}
		if sl, isS := v.(Slice); isS {
			v = st.convert1(sl, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String])
		}
		fr.bufAdd(st, p, v)
		if strings.HasSuffix(name, "Byte") {
			return ok(Nil{})
		}
		return ok(Agg{[]Val{st.lenKnown(v), Nil{}}})
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		p := st.concretize(args[0])
		if f, isP := bufParts(st, p); isP {
			return ok(strCat(f...))
		}
		return ok(Top{})
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		p := st.concretize(args[0])
		if f, isP := bufParts(st, p); isP {
			return ok(st.strLen(strCat(f...)))
		}
		return ok(st.intFor(0, posInf, term("buflen", p)))
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		p := st.concretize(args[0])
		if q, isP := p.(Ptr); isP {
			if ob, has := st.objs[q.O]; has && (ob.Shape == "buffer" || ob.Shape == "cell" && q.P == "") {
				st.setObj(q.O, &Obj{"buffer", ob.T, nil})
			}
		}
		return ok(Agg{})
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return ok(Agg{})
	case "io.WriteString":
		w := st.concretize(args[0])
		if outs, done := fr.e.h.Invoke(fr, st, w, writeStringMethod(fr.e), args[1:], site); done {
			return outs, true
		}
	}
	return nil, false
}

var wsMethod *types.Func

// writeStringMethod stands for the method io.WriteString calls.
func writeStringMethod(e *Engine) *types.Func {
	if wsMethod == nil {
		sig := types.NewSignatureType(nil, nil, nil,
			types.NewTuple(types.NewVar(0, nil, "s", types.Typ[types.String])),
			types.NewTuple(types.NewVar(0, nil, "n", types.Typ[types.Int]), types.NewVar(0, nil, "err", types.Universe.Lookup("error").Type())), false)
		wsMethod = types.NewFunc(0, nil, "WriteString", sig)
	}
	return wsMethod
}

func (st *State) errUnknown(t Term) Val {
	s := st.choiceFor(nilU, fullBits(2), term("errnil", t))
	return st.norm(Tab{s, []Grp{{bit(0), Nil{}}, {bit(1), libErr(t)}}})
}

func (st *State) lenKnown(v Val) Val {
	if isStr(v) {
		return st.strLen(v)
	}
	return Top{}
}

func bufParts(st *State, p Val) ([]Val, bool) {
	q, ok := p.(Ptr)
	if !ok || q.P != "" {
		return nil, false
	}
	ob := st.obj(q.O)
	if ob.Shape == "buffer" {
		return ob.F, true
	}
	if ob.Shape == "cell" {
		return nil, true
	}
	return nil, false
}

func (fr *Frame) bufAdd(st *State, p, v Val) {
	q, ok := p.(Ptr)
	if !ok || q.P != "" {
		return
	}
	ob, ok := st.objs[q.O]
	if !ok {
		return
	}
	var f []Val
	if ob.Shape == "buffer" {
		f = ob.F
	} else if ob.Shape != "cell" {
		return
	}
	if hk, ok := fr.e.h.(interface{ BufferText(v Val) Val }); ok {
		v = hk.BufferText(v)
		if v == nil {
			st.setObj(q.O, &Obj{"buffer", ob.T, []Val{term("buf")}})
			return
		}
	}
	s := strCat(append(append([]Val(nil), f...), v)...)
	st.setObj(q.O, &Obj{"buffer", ob.T, []Val{s}})
}

// sortList orders a list of strings in place.
func (fr *Frame) sortList(st *State, v Val, site ssa.Instruction, name string) {
	v = st.concretize(v)
	if i, ok := v.(Iface); ok {
		v = st.concretize(i.V)
	}
	switch a := v.(type) {
	case InSlice:
		fr.report([]string{"C16"}, "write-input", site, "a list of the statement is sorted in place")
	case Slice:
		if a.O < 0 && !fr.e.initing {
			fr.report([]string{"C16"}, "write-shared", site, "package state is sorted in place")
			return
		}
		ob := st.obj(a.O)
		if len(ob.F) <= 1 && plainList(ob) {
			return
		}
		// the order of the elements no longer depends on how they came
		f := make([]Val, len(ob.F))
		for i, x := range ob.F {
			if s, ok := x.(Seg); ok {
				f[i] = Seg{"sorted", append([]Val{s.A[0], Str(s.Kind)}, s.A[1:]...)}
				if s.Kind == "sorted" {
					f[i] = s
				}
				continue
			}
			f[i] = x
		}
		allStr := true
		for _, x := range f {
			if _, ok := x.(Str); !ok {
				allStr = false
			}
		}
		if allStr {
			sort.Slice(f, func(i, j int) bool { return f[i].(Str) < f[j].(Str) })
		}
		st.setObj(a.O, &Obj{ob.Shape, ob.T, f})
	}
}

// sprintf expands the verbs with a known meaning.
func (fr *Frame) sprintf(st *State, args []Val) Val {
	f, ok := st.concretize(args[0]).(Str)
	var list []Val
	if len(args) > 1 {
		switch s := st.concretize(args[1]).(type) {
		case Slice:
			if !plainList(st.obj(s.O)) {
				return term("fmt", args...)
			}
			list = st.obj(s.O).F
		case Nil:
		default:
			return term("fmt", args...)
		}
	}
	if !ok {
		return term("fmt", append([]Val{args[0]}, list...)...)
	}
	var parts []Val
	s := string(f)
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			parts = append(parts, Str(s[i:j]))
			i = j - 1
			continue
		}
		i++
		j := i
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			return term("fmt", append([]Val{f}, list...)...)
		}
		if s[j] == '%' {
			parts = append(parts, Str("%"))
			i = j
			continue
		}
		if k >= len(list) {
			return term("fmt", append([]Val{f}, list...)...)
		}
		parts = append(parts, fr.fmtArg(st, s[i:j+1], list[k]))
		k++
		i = j
	}
	return strCat(parts...)
}

func (fr *Frame) fmtArg(st *State, verb string, v Val) Val {
	return st.mapTab(v, func(v Val) Val {
		var t types.Type
		if i, ok := v.(Iface); ok {
			t = i.T
			v = i.V
		}
		return st.mapTab(v, func(v Val) Val {
			hasStr := false
			if t != nil && !isStandIn(t) {
				if m := fr.e.prog.LookupMethod; m != nil {
					ms := types.NewMethodSet(t)
					if ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
						hasStr = true
					}
				}
			}
			switch verb {
			case "s", "v":
				if isStr(v) && !hasStr {
					return v
				}
				if t != nil && hasStr && typeKey(t) == "time.Duration" {
					return term("durstr", v)
				}
				if verb == "v" && !hasStr {
					switch v.(type) {
					case Int:
						return Str(strconv.FormatInt(int64(v.(Int)), 10))
					case Lin:
						return term("itoa", v)
					case Bool:
						return Str(strconv.FormatBool(bool(v.(Bool))))
					}
				}
			case "d":
				switch a := v.(type) {
				case Int:
					return Str(strconv.FormatInt(int64(a), 10))
				case Lin:
					return term("itoa", a)
				}
			case "02d":
				switch a := v.(type) {
				case Int:
					return Str(fmt.Sprintf("%02d", int64(a)))
				case Lin:
					return term("itoa0", Int(2), a)
				}
			case "q":
				if s, ok := v.(Str); ok {
					return Str(strconv.Quote(string(s)))
				}
				if isStr(v) {
					return term("quote", v)
				}
			case "t":
				if b, ok := v.(Bool); ok {
					return Str(strconv.FormatBool(bool(b)))
				}
			}
			if _, ok := v.(Top); ok {
				return Top{}
			}
			return term("fmt", Str(verb), v)
		})
	})
}
