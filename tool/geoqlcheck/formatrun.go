package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The format analysis interprets the format function of every node type
// on a symbolic node. What it writes is compared, character by character,
// with the notation from which the parser builds that node; the texts of
// the children are taken as they come, because their own functions are
// checked in the same way.

func init() {
	runs["format"] = formatRun
	for _, p := range []string{"C13", "C14", "C15", "C16"} {
		plan[p] = []string{"format"}
	}
}

type formatHooks struct {
	specHooks
	method string // name of the formatting method of Expr
	writer Term
	pad    Val
	root   *ssa.Function
	events int
	writes int
}

var werr = term("werr")

func (h *formatHooks) classify(st *State, ev Event) []string {
	text := keyOf(Agg{ev.v})
	if strings.Contains(text, "mapkey(") || strings.Contains(text, "keys") {
		return []string{"C14", "C13"}
	}
	return []string{"C13"}
}

// write sends a string to the specification.
func (h *formatHooks) write(fr *Frame, st *State, site ssa.Instruction, s Val) []*State {
	g := st.ghost.(specGhost)
	if g.mode == "failed" {
		fr.report([]string{"C15"}, "write-after-error", site, "something is written after a write has failed")
		return []*State{st}
	}
	sts := []*State{st}
	emit := func(ev Event) {
		var next []*State
		for _, s := range sts {
			next = append(next, h.emitEvent(fr, s, site, ev)...)
		}
		sts = next
	}
	var parts []Val
	if t, ok := s.(Term); ok && t.Op == "cat" {
		parts = t.A
	} else {
		parts = []Val{s}
	}
	for _, p := range parts {
		if x, ok := p.(Str); ok {
			for i := 0; i < len(x); i++ {
				switch c := x[i]; c {
				case ' ', '\t', '\n', '\r':
					emit(Event{kind: "space"})
				default:
					emit(Event{kind: "char", ch: c})
				}
			}
			continue
		}
		if h.isPad(p) {
			emit(Event{kind: "space"})
			continue
		}
		if _, ok := p.(Top); ok {
			panic(undecidable{"an unknown text is written at " + fr.e.posOf(site)})
		}
		emit(Event{kind: "atom", v: []Val{p}})
	}
	return sts
}

// isPad recognises texts made of padding and white space only.
func (h *formatHooks) isPad(v Val) bool {
	switch v := v.(type) {
	case Str:
		return strings.TrimSpace(string(v)) == ""
	case Tab:
		for _, g := range v.G {
			if !h.isPad(g.V) {
				return false
			}
		}
		return true
	case Term:
		if v.Op == "cat" {
			for _, a := range v.A {
				if !h.isPad(a) {
					return false
				}
			}
			return true
		}
		if v.Op == "strfn" && len(v.A) > 1 && v.A[0] == Val(Str("strings.Repeat")) {
			return h.isPad(v.A[1])
		}
		return eqVal(v, h.pad)
	}
	return false
}

func (h *formatHooks) Invoke(fr *Frame, st *State, recv Val, m *types.Func, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	if m.Name() == "WriteString" {
		r, ok := st.concretize(recv).(Iface)
		if !ok || r.T != opaqueT || !eqVal(r.V, h.writer) {
			return nil, false
		}
		s := st.concretize(args[0])
		h.writes++
		var outs []Outcome
		for _, s2 := range h.write(fr, st, site, s) {
			bad := s2.clone()
			g := bad.ghost.(specGhost)
			if g.mode == "" {
				failWrite(bad, g)
				n := bad.newInt(0, posInf, nil)
				outs = append(outs, Outcome{st: bad, val: Agg{[]Val{Lin{n, 0}, libErr(werr)}}})
			}
			outs = append(outs, Outcome{st: s2, val: Agg{[]Val{Lin{s2.newInt(0, posInf, nil), 0}, Nil{}}}})
		}
		return outs, true
	}
	if m.Name() != h.method {
		return nil, false
	}
	v := st.norm(recv)
	if hasNil(v) {
		v = st.concretize(v)
	}
	p, ok := placeOf(v)
	if !ok {
		return nil, false
	}
	return h.child(fr, st, p, args, m.Type().(*types.Signature), site), true
}

func (h *formatHooks) Call(fr *Frame, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	if site == nil || fn.Name() != h.method || fn.Signature.Recv() == nil || len(args) == 0 || fn == h.root && false {
		return nil, false
	}
	n := namedOf(fn.Signature.Recv().Type())
	if n == nil {
		return nil, false
	}
	if _, isNode := h.t.index[n.Obj().Name()]; !isNode {
		return nil, false
	}
	v := st.norm(args[0])
	if hasNil(v) {
		v = st.concretize(v)
	}
	if eqVal(v, In{term("obj:"+n.Obj().Name(), term("root"))}) {
		// the node of this analysis itself: part of its own text
		if fn == h.root {
			return nil, false
		}
		return nil, false
	}
	p, ok := placeOf(v)
	if !ok {
		return nil, false
	}
	return h.child(fr, st, p, args[1:], fn.Signature, site), true
}

// child accounts for the text of a child node.
func (h *formatHooks) child(fr *Frame, st *State, p Val, args []Val, sig *types.Signature, site ssa.Instruction) []Outcome {
	for i, a := range args {
		a = st.norm(a)
		t := sig.Params().At(i).Type()
		switch {
		case isStringType(t):
			if !h.isPad(a) {
				fr.report([]string{"C13"}, "padding", site, "the padding of a part is not white space")
			}
		case types.IsInterface(t):
			if w, ok := a.(Iface); !ok || w.T != opaqueT || !eqVal(w.V, h.writer) {
				fr.report([]string{"C13", "C15"}, "writer", site, "a part is not written to the writer of the caller")
			}
		}
	}
	g := st.ghost.(specGhost)
	if g.mode == "failed" {
		fr.report([]string{"C15"}, "write-after-error", site, "a part is written after a write has failed")
		return []Outcome{{st: st, val: zeroResults(sig)}}
	}
	var outs []Outcome
	for _, s := range h.emitEvent(fr, st, site, Event{kind: "child", v: []Val{p}}) {
		bad := s.clone()
		failWrite(bad, bad.ghost.(specGhost))
		if i := errResult(sig); i >= 0 {
			vals := zeroResults(sig)
			if a, ok := vals.(Agg); ok && sig.Results().Len() > 1 {
				a.F[i] = libErr(werr)
				vals = a
			} else {
				vals = libErr(werr)
			}
			outs = append(outs, Outcome{st: bad, val: vals})
		} else {
			outs = append(outs, Outcome{st: bad, pan: libErr(werr)})
		}
		outs = append(outs, Outcome{st: s, val: zeroResults(sig)})
	}
	return outs
}

// failWrite is the state after a failed write: what the text would have
// been no longer matters.
func failWrite(st *State, g specGhost) {
	st.ghost = specGhost{mode: "failed"}
	live := st.liveSyms(st.allRoots())
	for _, s := range sortedSyms(st) {
		if !live[s] && st.narrowed(s) {
			st.forget(s)
		}
	}
}

func errResult(sig *types.Signature) int {
	for i := 0; i < sig.Results().Len(); i++ {
		if sig.Results().At(i).Type().String() == "error" {
			return i
		}
	}
	return -1
}

func zeroResults(sig *types.Signature) Val {
	n := sig.Results().Len()
	if n == 1 {
		return zeroOf(sig.Results().At(0).Type())
	}
	return zeroOf(sig.Results()).(Agg)
}

// LoopHead folds the keys collected from a map into one segment.
func (h *formatHooks) LoopHead(fr *Frame, st *State, b *ssa.BasicBlock) []*State {
	foldKeys(st)
	return []*State{st}
}

func foldKeys(st *State) {
	for id, ob := range st.objs {
		if ob.Shape != "list" && ob.Shape != "list!" {
			continue
		}
		for i := 0; i < len(ob.F); i++ {
			var at Val
			var cnt Val
			j := i
			if s, ok := ob.F[i].(Seg); ok && s.Kind == "keys" {
				cnt, at = s.A[0], s.A[1]
				j++
			} else if t, ok := ob.F[i].(Term); ok && t.Op == "mapkey" && t.A[1] == Val(Int(0)) {
				cnt, at = Int(1), t.A[0]
				j++
			} else {
				continue
			}
			for j < len(ob.F) {
				t, ok := ob.F[j].(Term)
				if !ok || t.Op != "mapkey" || !eqVal(t.A[0], at) || !eqVal(t.A[1], cnt) {
					break
				}
				cnt = st.intOp(token.ADD, cnt, Int(1), types.Typ[types.Int])
				j++
			}
			f := append([]Val(nil), ob.F[:i]...)
			f = append(f, Seg{"keys", []Val{cnt, at}})
			f = append(f, ob.F[j:]...)
			st.objs[id] = &Obj{ob.Shape, ob.T, f}
			break
		}
	}
}

// ------------------------------------------------------------ notation

type placeFn func(idx []Val) Term

// notation builds the text of one node.
type notation struct {
	t    *Tree
	sp   *Spec
	n    string // node type
	base placeFn
}

func (b *notation) field(name string) (int, types.Type) {
	i, ok := b.t.index[b.n]
	if !ok {
		panic(undecidable{"there is no node type " + b.n})
	}
	s := b.t.nodes[i].Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type()
		}
	}
	panic(undecidable{"node type " + b.n + " has no field " + name})
}

func (b *notation) fld(name string) placeFn {
	i, _ := b.field(name)
	n := b.n
	return func(idx []Val) Term { return term("fld", term("obj:"+n, b.base(idx)), Int(i)) }
}

func (b *notation) fldType(name string) types.Type { _, t := b.field(name); return t }

func (b *notation) child(what string, p placeFn, sep bool) {
	b.sp.emit(Ins{op: "ev", sep: sep, what: func(*State, []Val) string { return "the text of " + what },
		match: func(_ *State, idx []Val, ev Event) bool {
			return ev.kind == "child" && eqVal(ev.v[0], p(idx))
		}})
}

func (b *notation) atom(what string, tight bool, match func(st *State, idx []Val, v Val) bool) {
	b.sp.emit(Ins{op: "ev", tight: tight, what: func(*State, []Val) string { return what },
		match: func(st *State, idx []Val, ev Event) bool {
			return ev.kind == "atom" && match(st, idx, ev.v[0])
		}})
}

func (b *notation) str(what string, p placeFn, tight bool) {
	b.atom(what, tight, func(_ *State, idx []Val, v Val) bool { return eqVal(v, term("str", p(idx))) })
}

// float writes a number; float says that digits alone would be read as
// an integer.
func (b *notation) float(what string, p placeFn, float bool) {
	b.atom(what, false, func(_ *State, idx []Val, v Val) bool {
		return eqVal(v, term("ffloat", term("flt", p(idx)), Int('f'), Int(-1), Int(64)))
	})
	class := func(st *State, idx []Val) SymID { return st.fltClass(term("flt", p(idx))) }
	must := bit(fltHuge)
	if float {
		must = bit(fltSmall).or(bit(fltBig)).or(bit(fltHuge))
	}
	b.sp.iff(func(st *State, idx []Val) bool { return st.splitBy(class(st, idx), must) }, func() {
		b.sp.lit("~.0")
	}, func() {
		b.sp.iff(func(st *State, idx []Val) bool { return st.splitBy(class(st, idx), bit(fltFrac)) }, func() {}, func() {
			b.sp.opt(".0")
		})
	})
	b.sp.spent(p)
}

// integer writes a whole number; leading zeros do not matter.
func (b *notation) integer(what string, p placeFn) {
	val := func(st *State, idx []Val) Val { return b.t.load(st, p(idx), types.Typ[types.Int]) }
	b.sp.emit(Ins{op: "alts", zeros: true, what: func(*State, []Val) string { return what }, alts: func(st *State, idx []Val) []string {
		lo, hi := st.bounds(val(st, idx))
		if lo == hi {
			s := strconv.FormatInt(lo, 10)
			if lo >= 0 {
				return []string{s, "0" + s}
			}
			return []string{s}
		}
		return nil
	}, atom: func(st *State, idx []Val, v Val) bool {
		t, ok := v.(Term)
		if !ok {
			return false
		}
		n := val(st, idx)
		switch t.Op {
		case "itoa":
			return eqVal(t.A[0], n)
		case "itoa0":
			return eqVal(t.A[1], n)
		}
		return false
	}})
}

// word writes one of the spellings of a keyword or unit.
func (b *notation) word(what string, fold, sep bool, alts func(st *State, idx []Val) []string) {
	b.sp.emit(Ins{op: "alts", sep: sep, fold: fold, what: func(*State, []Val) string { return what }, alts: alts})
}

func (b *notation) kw(text string, sep bool) {
	b.word("the keyword "+text, true, sep, func(*State, []Val) []string { return []string{text} })
}

func (b *notation) enumIs(st *State, p Term, ty types.Type, vals ...int64) bool {
	v := b.t.load(st, p, ty)
	in := func(v Val) bool {
		for _, x := range vals {
			if v == Val(Int(x)) {
				return true
			}
		}
		return false
	}
	tb, ok := v.(Tab)
	if !ok {
		return in(v)
	}
	set := Bits{}
	for _, g := range tb.G {
		if in(g.V) {
			set = set.or(g.Set)
		}
	}
	return st.splitBy(tb.S, set)
}

// cases runs the branch of the constant that a field has.
func (b *notation) cases(field string, names []string, f func(n string)) {
	p, ty := b.fld(field), b.fldType(field)
	n := names[0]
	if len(names) == 1 {
		f(n)
		return
	}
	c := b.t.constVal(n)
	b.sp.iff(func(st *State, idx []Val) bool { return b.enumIs(st, p(idx), ty, c) },
		func() { f(n) }, func() { b.cases(field, names[1:], f) })
}

var unitSpell = map[string][]string{
	"Kph": {"kph", "KPH", "Kph"}, "Mph": {"mph", "MPH", "Mph"},
	"Celsius": {"c", "C"}, "Fahrenheit": {"f", "F"},
	"Kilometer": {"km", "Km"}, "Meter": {"M"},
	"Bar": {"bar", "Bar", "BAR"}, "Psi": {"psi", "Psi", "PSI"},
	"AM": {"am", "Am", "AM"}, "PM": {"pm", "Pm", "PM"},
}

var opSpell = map[string][]string{
	"ADD": {"+"}, "SUB": {"-"}, "MUL": {"*"}, "QUO": {"/"}, "REM": {"rem", "mod"},
	"GEQ": {">="}, "LEQ": {"<="}, "GTR": {">"}, "LSS": {"<"}, "LEQL": {"=="}, "LNEQ": {"!="},
	"EQL": {"eq"}, "NOT_EQ": {"not eq"}, "AND": {"and"}, "OR": {"or"}, "IN": {"in"}, "NOT_IN": {"not in"},
	"NEARBY": {"nearby"}, "NOT_NEARBY": {"not nearby"}, "INTERSECTS": {"intersects"}, "NOT_INTERSECTS": {"not intersects"},
}

func (b *notation) unit(field string, names ...string) {
	b.cases(field, names, func(n string) {
		b.word("the unit "+n, false, false, func(*State, []Val) []string { return unitSpell[n] })
	})
}

func (b *notation) listLen(p placeFn) func(st *State, idx []Val) Val {
	return func(st *State, idx []Val) Val {
		return st.intFor(b.t.minLen[b.t.placeKey(p(idx))], posInf, term("len", p(idx)))
	}
}

func elemOf(p placeFn, depth int) placeFn {
	return func(idx []Val) Term { return term("elem", p(idx), idx[depth]) }
}

// coord writes a pair of floats in brackets.
func (b *notation) coord(what string, p placeFn) {
	b.sp.lit("[")
	b.float("the first coordinate of "+what, func(idx []Val) Term { return term("comp", p(idx), Int(0)) }, false)
	b.sp.lit(",")
	b.float("the second coordinate of "+what, func(idx []Val) Term { return term("comp", p(idx), Int(1)) }, false)
	b.sp.lit("]")
}

func (b *notation) list(p placeFn, one func()) {
	b.sp.loop(b.listLen(p), one, func() { b.sp.lit(",") })
}

func (b *notation) children(field string) {
	p := b.fld(field)
	b.list(p, func() { b.child("an element of "+field, elemOf(p, 0), false) })
}

func (b *notation) optional(field string, sep bool, before func()) {
	p, ty := b.fld(field), b.fldType(field)
	b.sp.iff(func(st *State, idx []Val) bool { return b.t.present(st, p(idx), ty) }, func() {
		before()
		b.child(field, p, sep)
	}, nil)
}

// calendarBody writes a calendar value without its word and brackets.
func (b *notation) calendarBody() {
	switch b.n {
	case "DateTyp":
		b.integer("the year", b.fld("Year"))
		b.sp.lit("-")
		b.integer("the month", b.fld("Month"))
		b.sp.lit("-")
		b.integer("the day", b.fld("Day"))
	case "TimeTyp":
		b.integer("the hours", b.fld("Hours"))
		b.sp.lit(":")
		b.integer("the minutes", b.fld("Minutes"))
		sec := b.fld("Seconds")
		b.sp.positive(func(st *State, idx []Val) Val { return b.t.load(st, sec(idx), types.Typ[types.Int]) }, func() {
			b.sp.lit(":")
			b.integer("the seconds", sec)
		})
		u, ty := b.fld("U"), b.fldType("U")
		b.sp.iff(func(st *State, idx []Val) bool {
			return b.enumIs(st, u(idx), ty, b.t.constVal("AM"), b.t.constVal("PM"))
		}, func() { b.unit("U", "AM", "PM") }, nil)
	case "WeekdayTyp", "MonthTyp":
		names, first := dayNames, int64(0)
		if b.n == "MonthTyp" {
			names, first = monthNames, 1
		}
		p := b.fld("Val")
		b.word("the name of the value", true, false, func(st *State, idx []Val) []string {
			lo, hi := st.bounds(b.t.load(st, p(idx), types.Typ[types.Int]))
			if lo != hi || lo < first || lo-first >= int64(len(names)) {
				return nil
			}
			return []string{names[lo-first], names[lo-first][:3]}
		})
	}
	s := b.t.nodes[b.t.index[b.n]].Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		b.sp.spent(b.fld(s.Field(i).Name()))
	}
}

func (b *notation) calendar() {
	b.kw(calWord[b.n], false)
	b.sp.lit("[")
	b.calendarBody()
	b.sp.lit("]")
}

// at is the notation of another node.
func (b *notation) at(n string, p placeFn) *notation { return &notation{b.t, b.sp, n, p} }

var dayNames = []string{"sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"}
var monthNames = []string{"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"}
var calWord = map[string]string{"DateTyp": "date", "TimeTyp": "time", "WeekdayTyp": "weekday", "MonthTyp": "month"}
var calTypes = []string{"DateTyp", "TimeTyp", "WeekdayTyp", "MonthTyp"}
var calKind = map[string]string{"DATE": "DateTyp", "TIME": "TimeTyp", "WEEKDAY": "WeekdayTyp", "MONTH": "MonthTyp"}

// node writes the notation of the node; variant selects among the forms
// of a node type.
func (b *notation) node(variant string) {
	sp := b.sp
	switch b.n {
	case "Trigger":
		b.kw("trigger", false)
		vars := b.fld("Vars")
		sp.positive(b.listLen(vars), func() {
			b.kw("set", true)
			sp.loop(b.listLen(vars), func() { b.child("a variable", elemOf(vars, 0), true) }, nil)
		})
		b.kw("when", true)
		b.child("When", b.fld("When"), true)
		rc, ri := b.fld("RepeatCount"), b.fld("RepeatInterval")
		sp.iff(func(st *State, idx []Val) bool {
			return b.t.present(st, rc(idx), b.fldType("RepeatCount")) || b.t.present(st, ri(idx), b.fldType("RepeatInterval"))
		}, func() {
			b.kw("repeat", true)
			b.optional("RepeatCount", true, func() {})
			b.optional("RepeatInterval", true, func() { b.kw("every", true) })
		}, nil)
		b.optional("ResetAfter", true, func() { b.kw("reset", true); b.kw("after", true) })
	case "Assign":
		b.child("Left", b.fld("Left"), false)
		sp.lit("=")
		b.child("Right", b.fld("Right"), false)
		sp.lit(";")
	case "ArrayTyp":
		l := b.fld("List")
		if n, ok := calKind[variant]; ok {
			b.kw(calWord[n], false)
			sp.lit("[")
			b.list(l, func() { b.at(n, elemOf(l, 0)).calendarBody() })
			sp.lit("]")
			return
		}
		sp.lit("[")
		b.children("List")
		sp.lit("]")
	case "BinaryExpr":
		b.child("Left", b.fld("Left"), false)
		word := opSpell[variant][0][0] >= 'a'
		b.word("the operator "+variant, true, word, func(*State, []Val) []string { return opSpell[variant] })
		b.child("Right", b.fld("Right"), word)
	case "ParenExpr":
		sp.lit("(")
		b.child("Expr", b.fld("Expr"), false)
		sp.lit(")")
	case "WildcardTyp":
		sp.lit("*")
	case "TimeTyp", "DateTyp", "WeekdayTyp", "MonthTyp":
		b.calendar()
	case "GeometryPointTyp":
		b.kw("point", false)
		v := b.fld("Val")
		b.coord("the point", v)
		b.optional("Radius", false, func() { sp.lit(":") })
	case "GeometryLineTyp":
		b.kw("line", false)
		sp.lit("[")
		v := b.fld("Val")
		b.list(v, func() { b.coord("the line", elemOf(v, 0)) })
		sp.lit("]")
		b.optional("Margin", false, func() { sp.lit(":") })
	case "GeometryPolygonTyp":
		b.kw("polygon", false)
		sp.lit("[")
		v := b.fld("Val")
		b.list(v, func() {
			sp.lit("[")
			ring := elemOf(v, 0)
			b.list(ring, func() { b.coord("the polygon", elemOf(ring, 1)) })
			sp.lit("]")
		})
		sp.lit("]")
	case "GeometryMultiObjectTyp":
		b.cases("Kind", []string{"GEOMETRY_MULTIPOINT", "GEOMETRY_MULTILINE", "GEOMETRY_MULTIPOLYGON"}, func(n string) {
			b.kw(strings.ToLower(strings.TrimPrefix(n, "GEOMETRY_")), false)
		})
		sp.lit("[")
		b.children("Val")
		sp.lit("]")
	case "GeometryCollectionTyp":
		b.kw("collection", false)
		sp.lit("[")
		b.children("Objects")
		sp.lit("]")
	case "IntTyp":
		b.integer("the number", b.fld("Val"))
	case "Range":
		if calWord[variant] != "" {
			b.kw(calWord[variant], false)
			sp.lit("[")
			b.at(variant, b.fld("Low")).calendarBody()
			sp.lit("..")
			b.at(variant, b.fld("High")).calendarBody()
			sp.lit("]")
			return
		}
		b.child("Low", b.fld("Low"), false)
		// a space keeps the dots apart from the number before them
		sp.emitLit("..", true)
		b.child("High", b.fld("High"), false)
	case "PercentTyp":
		b.float("the number", b.fld("Val"), false)
		sp.lit("%")
	case "StringTyp":
		sp.lit("\"")
		b.str("the text", b.fld("Val"), true)
		sp.lit("~\"")
	case "FloatTyp":
		b.float("the number", b.fld("Val"), true)
	case "DurationTyp":
		b.duration()
	case "TemperatureTyp":
		p, ty := b.fld("Vec"), b.fldType("Vec")
		is := func(c string) func(st *State, idx []Val) bool {
			return func(st *State, idx []Val) bool { return b.enumIs(st, p(idx), ty, b.t.constVal(c)) }
		}
		sp.iff(is("Minus"), func() { sp.lit("-") }, func() {
			sp.iff(is("Plus"), func() { sp.opt("+") }, nil)
		})
		b.float("the number", b.fld("Val"), false)
		b.unit("U", "Celsius", "Fahrenheit")
	case "PressureTyp":
		b.float("the number", b.fld("Val"), false)
		b.unit("U", "Bar", "Psi")
	case "DistanceTyp":
		b.float("the number", b.fld("Val"), false)
		b.unit("U", "Kilometer", "Meter")
	case "SpeedTyp":
		b.float("the number", b.fld("Val"), false)
		b.unit("U", "Kph", "Mph")
	case "Ident":
		b.str("the name", b.fld("Val"), false)
	case "Ref":
		sp.lit("@")
		b.str("the name", b.fld("ID"), true)
	case "Selector":
		b.selector()
	case "BooleanTyp":
		p := b.fld("Val")
		b.word("the value", true, false, func(st *State, idx []Val) []string {
			switch st.norm(b.t.load(st, p(idx), types.Typ[types.Bool])) {
			case Val(Bool(true)):
				return []string{"true", "up"}
			case Val(Bool(false)):
				return []string{"false", "down"}
			}
			return nil
		})
	default:
		panic(undecidable{"there is no notation for node type " + b.n})
	}
}

// duration: whole seconds as the library writes them, and the rest in
// nanoseconds; or everything in nanoseconds.
func (b *notation) duration() {
	p := b.fld("Val")
	val := func(st *State, idx []Val) Val { return b.t.load(st, p(idx), types.Typ[types.Int64]) }
	const sec = Int(1000000000)
	whole := func(st *State, idx []Val) Val { return st.intFor(0, posInf, term("durtrunc", val(st, idx), sec)) }
	b.atom("the whole seconds", false, func(st *State, idx []Val, v Val) bool {
		t, ok := v.(Term)
		return ok && t.Op == "durstr" && eqVal(t.A[0], whole(st, idx))
	})
	rest := func(st *State, idx []Val) Val {
		return st.intOp(token.SUB, val(st, idx), whole(st, idx), types.Typ[types.Int64])
	}
	b.sp.positive(rest, func() {
		b.atom("the nanoseconds", true, func(st *State, idx []Val, v Val) bool {
			t, ok := v.(Term)
			return ok && t.Op == "itoa" && eqVal(t.A[0], rest(st, idx))
		})
		b.sp.lit("~ns")
	})
}

// selector: its name, its arguments in a fixed order and its properties.
func (b *notation) selector() {
	sp := b.sp
	b.str("the name", b.fld("Ident"), false)
	args := b.fld("Args")
	n := func(st *State, idx []Val) Val { return st.intFor(0, posInf, term("len", args(idx))) }
	sp.positive(n, func() {
		sp.lit("{")
		w := b.fld("Wildcard")
		sp.iff(func(st *State, idx []Val) bool {
			v := b.t.load(st, w(idx), types.Typ[types.Bool])
			if tb, ok := v.(Tab); ok {
				set := Bits{}
				for _, g := range tb.G {
					if g.V == Val(Bool(true)) {
						set = set.or(g.Set)
					}
				}
				return st.splitBy(tb.S, set)
			}
			return v == Val(Bool(true))
		}, func() { sp.lit("*"); sp.lit(",") }, nil)
		sp.loop(n, func() {
			sp.lit("\"")
			b.atom("the arguments in sorted order", true, func(st *State, idx []Val, v Val) bool {
				t, ok := v.(Term)
				if !ok || t.Op != "str" {
					return false
				}
				e, ok := t.A[0].(Term)
				if !ok || e.Op != "segelem" || st.equalInts(e.A[1], idx[len(idx)-1]) == false {
					return false
				}
				of, ok := e.A[0].(Seg)
				if !ok || len(of.A) != 1 {
					return false
				}
				s, ok := of.A[0].(Seg)
				return ok && s.Kind == "sorted" && len(s.A) == 3 && s.A[1] == Val(Str("keys")) && eqVal(s.A[2], args(idx[:len(idx)-1]))
			})
			sp.lit("~\"")
		}, func() { sp.lit(",") })
		sp.lit("}")
	})
	props := b.fld("Props")
	sp.positive(b.listLen(props), func() {
		sp.lit(":")
		sp.loop(b.listLen(props), func() {
			b.child("a property", func(idx []Val) Term { return term("elem", props(idx), idx[len(idx)-1]) }, false)
		},
			func() { sp.lit(",") })
	})
}

// equalInts reports whether two integers are known to be equal.
func (st *State) equalInts(x, y Val) bool {
	a, ok1 := st.upper(x, y)
	b, ok2 := st.upper(y, x)
	return ok1 && ok2 && a == 0 && b == 0
}

// variants lists the forms of a node type and how they restrict the tree.
func variants(t *Tree, n string) (names []string, restrict func(v string)) {
	none := func(string) {}
	switch n {
	case "ArrayTyp":
		return []string{"DATE", "TIME", "WEEKDAY", "MONTH", "plain"}, func(v string) {
			if c, ok := calKind[v]; ok {
				t.enumDom["ArrayTyp.Kind"] = map[int64]bool{t.constVal(v): true}
				t.domains["ArrayTyp.List[]"] = t.types(c)
				return
			}
			m := map[int64]bool{}
			for _, x := range t.enumOf(t.w.pkg.Pkg.Scope().Lookup("Token").Type().(*types.Named)).vals {
				m[x] = true
			}
			for k := range calKind {
				delete(m, t.constVal(k))
			}
			t.enumDom["ArrayTyp.Kind"] = m
			delete(t.domains, "ArrayTyp.List[]")
		}
	case "Range":
		return append([]string{"other"}, calTypes...), func(v string) {
			d := t.types("IntTyp", "FloatTyp", "PercentTyp", "StringTyp", "DurationTyp", "TemperatureTyp", "PressureTyp", "DistanceTyp", "SpeedTyp", "Selector", "Ref", "BooleanTyp")
			if v != "other" {
				d = t.types(v)
			}
			t.domains["Range.Low"], t.domains["Range.High"] = d, d
		}
	case "BinaryExpr":
		return sortedKeys(opSpell), func(v string) { t.enumDom["BinaryExpr.Op"] = map[int64]bool{t.constVal(v): true} }
	}
	return []string{""}, none
}

func consts(t *Tree, names ...string) map[int64]bool {
	m := map[int64]bool{}
	for _, n := range names {
		m[t.constVal(n)] = true
	}
	return m
}

// parsedTree restricts the tree to what the parser builds.
func parsedTree(t *Tree) {
	t.wellFormed()
	t.enumDom["SpeedTyp.U"] = consts(t, "Kph", "Mph")
	t.enumDom["TemperatureTyp.U"] = consts(t, "Celsius", "Fahrenheit")
	t.enumDom["TemperatureTyp.Vec"] = consts(t, "Plus", "Minus")
	t.enumDom["TemperatureTyp.Vec"][0] = true
	t.enumDom["PressureTyp.U"] = consts(t, "Bar", "Psi")
	t.enumDom["DistanceTyp.U"] = consts(t, "Kilometer", "Meter")
	t.enumDom["TimeTyp.U"] = consts(t, "AM", "PM", "Unknown")
	t.enumDom["GeometryMultiObjectTyp.Kind"] = consts(t, "GEOMETRY_MULTIPOINT", "GEOMETRY_MULTILINE", "GEOMETRY_MULTIPOLYGON")
	t.ints["DurationTyp.Val"] = [2]int64{0, 1<<62 - 1}
}

// formatMethod finds the method of Expr that writes text.
func formatMethod(t *Tree) *types.Func {
	for i := 0; i < t.exprI.NumMethods(); i++ {
		m := t.exprI.Method(i)
		sig := m.Type().(*types.Signature)
		for k := 0; k < sig.Params().Len(); k++ {
			if types.IsInterface(sig.Params().At(k).Type()) {
				return m
			}
		}
	}
	panic(undecidable{"Expr has no method that writes to a writer"})
}

func formatRun(w *World, prop string, thorough bool) *Result {
	r := newResult("format")
	r.Rules = append(r.Rules, "the text that the format function of each node type writes is the notation the parser reads for that node (token by token, all choices of fields, any list length), independent of map order; it stops at the first failed write and reports that error; it writes nothing but its own variables")
	t := newTree(w)
	parsedTree(t)
	m := formatMethod(t)
	sig := m.Type().(*types.Signature)
	for _, n := range t.nodes {
		name := n.Obj().Name()
		if x := os.Getenv("GEOQL_NODE"); x != "" && x != name {
			continue
		}
		t0 := time.Now()
		names, restrict := variants(t, name)
		for _, v := range names {
			restrict(v)
			var fn *ssa.Function
			var args []Val
			node := term("root")
			self := Iface{types.NewPointer(n), In{term("obj:"+name, node)}}
			h := &formatHooks{method: m.Name(), writer: term("writer"), pad: term("str", term("pad"))}
			h.t, h.props, h.kind = t, []string{"C13"}, "format"
			if name == "Trigger" {
				fn = w.fn("Format")
				args = []Val{Iface{opaqueT, h.writer}, self}
			} else {
				fn = w.prog.LookupMethod(types.NewPointer(n), w.pkg.Pkg, m.Name())
			}
			h.root = fn
			sp := &Spec{}
			h.spec = sp
			(&notation{t, sp, name, func([]Val) Term { return node }}).node(v)
			sp.end()
			e := w.e.fork(h)
			e.loopLim = 3
			st := newState(e)
			st.ghost = specGhost{}
			if args == nil {
				args = []Val{self.V}
				for i := 0; i < sig.Params().Len(); i++ {
					pt := sig.Params().At(i).Type()
					switch {
					case isStringType(pt):
						args = append(args, h.pad)
					case types.IsInterface(pt):
						args = append(args, Iface{opaqueT, h.writer})
					case isBoolType(pt):
						args = append(args, st.opaqueBool(term("inline")))
					default:
						args = append(args, Top{})
					}
				}
			}
			outs, top := e.root(fn, st, args)
			r.absorb(e, top)
			r.Stats["forms"]++
			what := "the text of " + name
			if v != "" {
				what += " " + v
			}
			h.finishFormat(r, outs, w, fn, what, name == "Trigger")
		}
		restrict(names[len(names)-1])
		if debugViol {
			fmt.Fprintln(os.Stderr, name, time.Since(t0), r.Stats["instructions_interpreted"])
		}
	}
	// a statement that is not a trigger is refused
	h := &formatHooks{method: m.Name(), writer: term("writer"), pad: term("str", term("pad"))}
	h.t, h.props, h.kind = t, []string{"C13", "C15"}, "format"
	h.spec = &Spec{}
	h.spec.end()
	e := w.e.fork(h)
	st := newState(e)
	st.ghost = specGhost{}
	fn := w.fn("Format")
	outs, top := e.root(fn, st, []Val{Iface{opaqueT, h.writer}, Nil{}})
	r.absorb(e, top)
	for _, o := range outs {
		if o.pan != nil {
			r.add([]string{"C02"}, "format-panic", panicPos(o.pan, w.fnPos(fn)), "Format of no statement panics: %s", panicText(o.pan))
		} else if isNilVal(o.st.norm(o.val)) {
			r.add([]string{"C13"}, "format", w.fnPos(fn), "Format of no statement reports success")
		}
	}
	r.Samples = append(r.Samples, `Range(Low, High): low ".." high; ArrayTyp[TIME]: time "[" hours ":" minutes ... "," ... "]"`)
	return r
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// finishFormat checks how the function ended.
func (h *formatHooks) finishFormat(r *Result, outs []Outcome, w *World, fn *ssa.Function, what string, top bool) {
	pos := w.fnPos(fn)
	ei := errResult(fn.Signature)
	if len(outs) == 0 && len(r.Viols) == 0 && !r.partial() {
		r.add(h.props, h.kind, pos, "%s: never returns", what)
	}
	for _, o := range outs {
		r.Stats["outcomes"]++
		g := o.st.ghost.(specGhost)
		if o.pan != nil {
			p := o.st.norm(o.pan)
			switch {
			case eqVal(p, libErr(werr)) && g.mode == "failed" && ei < 0:
			case eqVal(p, libErr(werr)) && g.mode == "failed":
				r.add([]string{"C15", "C02"}, "write-error", pos, "%s: a failed write makes it panic", what)
			default:
				r.add([]string{"C02", "C13"}, h.kind+"-panic", panicPos(o.pan, pos), "%s", h.explain(o.st, what+" panics: "+panicText(o.pan)))
			}
			continue
		}
		splitAll(o.st, func(s *State) {
			g := s.ghost.(specGhost)
			if ei >= 0 {
				v := s.norm(o.val)
				if a, ok := v.(Agg); ok && fn.Signature.Results().Len() > 1 {
					v = a.F[ei]
				}
				v = s.concretize(v)
				if g.mode == "failed" && !eqVal(v, libErr(werr)) {
					r.add([]string{"C15"}, "write-error", pos, "%s: after a failed write it returns %s instead of the error of the writer", what, briefVal(v))
				}
				if g.mode != "failed" && !isNilVal(v) {
					r.add([]string{"C13", "C15"}, "write-error", pos, "%s: it returns an error although every write succeeded (%s)", h.explain(s, what), panicText(v))
				}
			} else if g.mode == "failed" {
				r.add([]string{"C15"}, "write-error", pos, "%s: a failed write is not reported", what)
			}
			if g.mode == "failed" {
				return
			}
			for _, b := range h.spec.finish(s.clone(), g) {
				if debugViol {
					fmt.Fprintln(os.Stderr, "UNFINISHED", s.canonKey(s.reach(s.allRoots()), s.allRoots()))
					fmt.Fprintln(os.Stderr, "        NOW", b.st.canonKey(b.st.reach(b.st.allRoots()), b.st.allRoots()))
				}
				r.add(h.props, h.kind, pos, "%s", h.explain(b.st, what+": "+b.msg))
			}
		})
	}
}
