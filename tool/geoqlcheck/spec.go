package main

import (
	"fmt"
	"strings"
)

// Spec is the expected sequence of events of a run, as a small program.
type Spec struct{ ins []Ins }

// Ins is one instruction of a specification.
type Ins struct {
	op     string // "ev", "br", "jmp", "loop", "next", "end", "opt"
	match  func(st *State, idx []Val, ev Event) bool
	what   func(st *State, idx []Val) string
	cond   func(st *State, idx []Val) bool
	length func(st *State, idx []Val) Val
	target int
	do     func(st *State, idx []Val)
	tight  bool // no white space may come before
	sep    bool // white space must come before
	// "alts": one of several spellings, or a value that atom accepts
	alts  func(st *State, idx []Val) []string
	atom  func(st *State, idx []Val, v Val) bool
	fold  bool
	zeros bool
}

// Event is something the program does that the specification talks about.
type Event struct {
	kind string
	v    []Val
	ch   byte
}

func (e Event) String() string {
	if e.kind == "char" {
		return fmt.Sprintf("%q", string(e.ch))
	}
	var s []string
	for _, v := range e.v {
		s = append(s, briefVal(v))
	}
	return e.kind + " " + strings.Join(s, ", ")
}

// specGhost is the position in a specification.
type specGhost struct {
	pc   int
	idx  []Val
	ws   bool
	mode string // run specific
	bad  bool
	part string
}

func (g specGhost) Shape() string {
	return fmt.Sprintf("%d/%d/%v/%s/%v/%s", g.pc, len(g.idx), g.ws, g.mode, g.bad, g.part)
}
func (g specGhost) Roots() []Val        { return g.idx }
func (g specGhost) With(vs []Val) Ghost { g.idx = append([]Val(nil), vs...); return g }

// ---- builder

func (s *Spec) emit(i Ins) int { s.ins = append(s.ins, i); return len(s.ins) - 1 }

func (s *Spec) ev(what string, match func(st *State, idx []Val, ev Event) bool) {
	s.emit(Ins{op: "ev", match: match, what: func(*State, []Val) string { return what }})
}

func (s *Spec) lit(text string) {
	sep := strings.HasPrefix(text, " ")
	text = strings.TrimLeft(text, " ")
	tight := strings.HasPrefix(text, "~")
	text = strings.TrimPrefix(text, "~")
	for i := 0; i < len(text); i++ {
		c := text[i]
		s.emit(Ins{op: "ev", tight: i > 0 || tight, sep: sep && i == 0,
			match: func(_ *State, _ []Val, ev Event) bool { return ev.kind == "char" && ev.ch == c },
			what:  func(*State, []Val) string { return fmt.Sprintf("%q of %q", string(c), text) }})
	}
}

// emitLit is lit with a choice of mandatory white space before.
func (s *Spec) emitLit(text string, sep bool) {
	at := len(s.ins)
	s.lit(text)
	s.ins[at].sep = sep
}

// optional text: taken when the output continues with its first character
func (s *Spec) opt(text string) {
	c := text[0]
	at := s.emit(Ins{op: "opt", match: func(_ *State, _ []Val, ev Event) bool { return ev.kind == "char" && ev.ch == c }})
	s.lit("~" + text)
	s.ins[at].target = len(s.ins)
}

func (s *Spec) iff(cond func(st *State, idx []Val) bool, yes func(), no func()) {
	at := s.emit(Ins{op: "br", cond: cond})
	yes()
	if no == nil {
		s.ins[at].target = len(s.ins)
		return
	}
	j := s.emit(Ins{op: "jmp"})
	s.ins[at].target = len(s.ins)
	no()
	s.ins[j].target = len(s.ins)
}

// loop repeats body for idx 0..length-1 with sep in between.
func (s *Spec) loop(length func(st *State, idx []Val) Val, body func(), sep func()) {
	l := s.emit(Ins{op: "loop", length: length})
	top := len(s.ins)
	body()
	n := s.emit(Ins{op: "next", length: length})
	if sep != nil {
		sep()
	}
	s.emit(Ins{op: "jmp", target: top})
	s.ins[l].target = len(s.ins)
	s.ins[n].target = len(s.ins)
}

// spent says that what is known about parts of the input no longer
// matters unless the program still holds it.
func (s *Spec) spent(places ...placeFn) {
	s.emit(Ins{op: "do", do: func(st *State, idx []Val) {
		live := st.liveSyms(st.allRoots())
		for _, f := range places {
			p := f(idx)
			for _, id := range sortedSyms(st) {
				if !live[id] && st.narrowed(id) && eqVal(innerPlace(st.syms[id].Def), p) {
					st.forget(id)
				}
			}
		}
	}})
}

// innerPlace is the place that a fact about one value is about.
func innerPlace(v Val) Val {
	t, ok := v.(Term)
	for ok && t.Op != "fld" && t.Op != "elem" && t.Op != "comp" && len(t.A) == 1 {
		v = t.A[0]
		t, ok = v.(Term)
	}
	return v
}

func (s *Spec) end() { s.emit(Ins{op: "end"}) }

// ---- matching

type specOut struct {
	st  *State
	g   specGhost
	msg string // not empty: mismatch
}

// advance resolves everything up to the next event or the end. It may
// split the state on integer conditions.
func (s *Spec) advance(st *State, g specGhost, ev *Event) []specOut {
	for n := 0; ; n++ {
		if n > 10000 {
			panic("specification loops")
		}
		in := s.ins[g.pc]
		switch in.op {
		case "ev", "end":
			return []specOut{{st: st, g: g}}
		case "alts":
			if ev != nil && in.extends(st, g, *ev) {
				return []specOut{{st: st, g: g}}
			}
			if in.complete(st, g) {
				g.pc++
				g.part = ""
				continue
			}
			return []specOut{{st: st, g: g}}
		case "opt":
			if ev == nil || g.ws || !in.match(st, g.idx, *ev) {
				g.pc = in.target
			} else {
				g.pc++
			}
		case "jmp":
			g.pc = in.target
		case "do":
			in.do(st, g.idx)
			g.pc++
		case "pos":
			v := in.length(st, g.idx)
			yes, no := g, g
			yes.pc++
			no.pc = in.target
			if u, ok := st.upper(v, Int(0)); ok && u <= 0 {
				g = no
				continue
			}
			if u, ok := st.upper(Int(0), v); ok && u < 0 {
				g = yes
				continue
			}
			var outs []specOut
			more := st.clone()
			if more.assumeLE(Int(0), 1, v) {
				outs = append(outs, s.advance(more, yes, ev)...)
			}
			if st.assumeLE(v, 0, Int(0)) {
				outs = append(outs, s.advance(st, no, ev)...)
			}
			return outs
		case "br":
			if in.cond(st, g.idx) {
				g.pc++
			} else {
				g.pc = in.target
			}
		case "loop", "next":
			idx := g.idx
			var cur Val = Int(0)
			if in.op == "next" {
				switch v := idx[len(idx)-1].(type) {
				case Int:
					cur = v + 1
				case Lin:
					cur = mkLin(v.S, v.O+1)
				default:
					panic("spec index")
				}
				idx = idx[:len(idx)-1]
			}
			n := in.length(st, idx)
			stay, leave := g, g
			stay.idx = append(append([]Val(nil), idx...), cur)
			stay.pc++
			leave.idx = append([]Val(nil), idx...)
			leave.pc = in.target
			if u, ok := st.upper(n, cur); ok && u <= 0 {
				g = leave
				continue
			}
			if u, ok := st.upper(cur, n); ok && u < 0 {
				g = stay
				continue
			}
			var outs []specOut
			more := st.clone()
			if more.assumeLE(cur, 1, n) {
				outs = append(outs, s.advance(more, stay, ev)...)
			}
			if st.assumeLE(n, 0, cur) {
				outs = append(outs, s.advance(st, leave, ev)...)
			}
			return outs
		}
	}
}

func (in Ins) char(ev Event) string {
	if ev.kind == "space" {
		return " "
	}
	c := string(ev.ch)
	if in.fold {
		c = strings.ToLower(c)
	}
	return c
}

// extends reports whether the event continues one of the spellings.
func (in Ins) extends(st *State, g specGhost, ev Event) bool {
	switch ev.kind {
	case "atom":
		return in.atom != nil && strings.Trim(g.part, "0") == "" && in.atom(st, g.idx, ev.v[0])
	case "char", "space":
		if ev.kind == "char" && g.ws && g.part != "" {
			return false
		}
		np := g.part + in.char(ev)
		if ev.kind == "space" && strings.HasSuffix(g.part, " ") {
			np = g.part
		}
		if in.zeros && in.atom != nil && np == "0" {
			return true
		}
		for _, a := range in.alts(st, g.idx) {
			if in.fold {
				a = strings.ToLower(a)
			}
			if strings.HasPrefix(a, np) {
				return true
			}
		}
	}
	return false
}

func (in Ins) complete(st *State, g specGhost) bool {
	for _, a := range in.alts(st, g.idx) {
		if in.fold {
			a = strings.ToLower(a)
		}
		if a == g.part && a != "" {
			return true
		}
	}
	return false
}

// positive continues with yes if the number is above zero.
func (s *Spec) positive(v func(st *State, idx []Val) Val, yes func()) {
	at := s.emit(Ins{op: "pos", length: v})
	yes()
	s.ins[at].target = len(s.ins)
}

// feed consumes one event.
func (s *Spec) feed(st *State, g specGhost, ev Event) []specOut {
	if g.bad {
		return []specOut{{st: st, g: g}}
	}
	var outs []specOut
	for _, o := range s.advance(st, g, &ev) {
		in := s.ins[o.g.pc]
		if in.op == "alts" && (ev.kind != "space" || o.g.part != "") {
			switch {
			case in.sep && !o.g.ws && o.g.part == "":
				o.msg = "no space before " + in.what(o.st, o.g.idx)
			case !in.extends(o.st, o.g, ev):
				dumpState(o.st, ev.String())
				o.msg = "got " + ev.String() + " where " + in.what(o.st, o.g.idx) + " belongs"
				if o.g.part != "" {
					o.msg += " (after " + fmt.Sprintf("%q", o.g.part) + ")"
				}
			case ev.kind == "atom":
				o.g.pc++
				o.g.part = ""
				o.g.ws = false
				outs = append(outs, o)
				continue
			default:
				o.g.part += in.char(ev)
				o.g.ws = false
				outs = append(outs, o)
				continue
			}
			o.g.bad = true
			outs = append(outs, o)
			continue
		}
		if ev.kind == "space" {
			if in.op == "ev" && in.tight {
				o.msg = "white space inside " + in.what(o.st, o.g.idx)
				o.g.bad = true
			}
			o.g.ws = true
			outs = append(outs, o)
			continue
		}
		switch {
		case in.op == "end":
			o.msg = "unexpected " + ev.String() + " after the end"
		case !in.match(o.st, o.g.idx, ev):
			dumpState(o.st, ev.String())
			o.msg = "got " + ev.String() + " where " + in.what(o.st, o.g.idx) + " belongs"
		case in.sep && !o.g.ws:
			o.msg = "no space before " + in.what(o.st, o.g.idx)
		default:
			o.g.pc++
			o.g.ws = false
			outs = append(outs, o)
			continue
		}
		o.g.bad = true
		outs = append(outs, o)
	}
	return outs
}

// finish checks that nothing is missing.
func (s *Spec) finish(st *State, g specGhost) []specOut {
	if g.bad {
		return nil
	}
	outs := s.advance(st, g, nil)
	var bad []specOut
	for _, o := range outs {
		in := s.ins[o.g.pc]
		if in.op != "end" {
			o.msg = "missing " + in.what(o.st, o.g.idx)
			bad = append(bad, o)
		}
	}
	return bad
}

// briefVal describes a value for a message.
func briefVal(v Val) string {
	if p, ok := placeOf(v); ok {
		return "the node at " + briefTerm(p)
	}
	if _, ok := v.(Tab); ok {
		return "one of several values"
	}
	return briefTerm(v)
}

// briefTerm writes places as paths of fields.
func briefTerm(v Val) string {
	t, ok := v.(Term)
	if !ok {
		return keyOf(v)
	}
	switch {
	case t.Op == "root":
		return "it"
	case t.Op == "fld" && theTree != nil:
		if k := theTree.placeKey(t); k != "" {
			return k
		}
	case (t.Op == "elem" || t.Op == "comp") && theTree != nil:
		if k := theTree.placeKey(t); k != "" {
			return k
		}
	}
	if len(t.A) == 0 {
		return t.Op
	}
	var s []string
	for _, a := range t.A {
		s = append(s, briefTerm(a))
	}
	return t.Op + "(" + strings.Join(s, ", ") + ")"
}
