package main

import (
	"go/types"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The sentence analysis interprets Parse on sentences: sequences of
// lexemes, each of which is a set of alternatives (any word, any operator,
// any lexeme at all). The outcome is derived for all alternatives at once
// and compared with the sentence by the rules of the notation.

func init() {
	for run, props := range map[string][]string{
		"precedence": {"C09"}, "sign": {"C07"}, "units": {"C11"}, "names": {"C12"}, "vars": {"C20"}, "shape": {"C05"}, "calendar": {"C08"}, "literals": {"C23"}, "any": {"C01", "C02", "C04", "C24"},
	} {
		run := run
		runs[run] = func(w *World, prop string, thorough bool) *Result { return sentenceRun(w, run, thorough) }
		for _, p := range props {
			plan[p] = append(plan[p], run)
		}
	}
	plan["C12"] = append(plan["C12"], "format")
	for _, p := range []string{"C01", "C02", "C04"} {
		plan[p] = append(plan[p], "shape")
	}
}

type sentGhost struct {
	at     int  // lexemes read
	ends   int  // whether the end of the input has been read
	erred  bool // a lexical error has been reported
	unread bool // the conversion of a number has failed
	syms   []Val
}

func (g sentGhost) Shape() string {
	s := "at " + itoa(g.at) + "/" + itoa(g.ends)
	if g.erred {
		s += " err"
	}
	if g.unread {
		s += " unread"
	}
	return s
}
func (g sentGhost) Roots() []Val { return g.syms }
func (g sentGhost) With(r []Val) Ghost {
	g.syms = append([]Val(nil), r...)
	return g
}

type sentHooks struct {
	tokenHooks
	slots    []Bits
	concrete bool // numbers stand for themselves
	faults   bool
	failing  bool
	nums     map[int]int64 // the concrete numbers
}

func (h *sentHooks) KeepNamed() bool { return true }

// retry asks for concrete numbers.
type retry struct{}

// numberOf is the number that a lexeme denotes.
func numberOf(st *State, sym SymID, float bool) Val {
	t := term("number", SymRef{sym})
	if float {
		return t
	}
	return st.intFor(0, 1<<40, t)
}

func (h *sentHooks) Call(fr *Frame, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	switch {
	case isScanner(fn, h.w, "Scan"):
		return h.scan(fr, st, fn, args, site), true
	case isScanner(fn, h.w, "TokenText"):
		g := st.ghost.(sentGhost)
		if g.ends == 1 || len(g.syms) == 0 {
			return []Outcome{{st: st, val: Str("")}}, true
		}
		return []Outcome{{st: st, val: term("lextext", g.syms[len(g.syms)-1])}}, true
	}
	switch fn.String() {
	case "time.ParseDuration":
		// no duration ends in a character that is no letter
		sym, found := SymID(0), false
		walkVal(st.norm(args[0]), func(v Val) {
			if r, ok := v.(SymRef); ok {
				if si, ok := st.syms[r.S]; ok && si.U == h.lx.u && si.Dom.overlaps(h.lx.class("other character")) {
					sym, found = r.S, true
				}
			}
		})
		if found && st.splitBy(sym, h.lx.class("other character")) {
			return []Outcome{{st: st, val: Agg{[]Val{Int(0), someErr}}}}, true
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseFloat":
		// the number that a lexeme denotes
		text := st.norm(args[0])
		if tab, ok := text.(Tab); ok && fn.Name() != "ParseFloat" && st.syms[tab.S].U == h.lx.u {
			if !st.splitBy(tab.S, h.lx.class("int")) {
				words := true
				walkVal(st.expand(args[0]), func(v Val) {
					switch v := v.(type) {
					case Str:
						if _, err := strconv.Atoi(string(v)); err == nil {
							words = false
						}
					case Term:
						if v.Op != "raw" && v.Op != "lextext" && v.Op != "lexlow" {
							words = false
						}
					}
				})
				if !words {
					break
				}
				g := st.ghost.(sentGhost)
				g.unread = true
				st.ghost = g
				return []Outcome{{st: st, val: Agg{[]Val{Int(0), someErr}}}}, true
			}
			text = st.norm(args[0])
		}
		t, ok := text.(Term)
		if !ok || t.Op != "lextext" && t.Op != "lexlow" {
			break
		}
		sym := t.A[0].(SymRef).S
		class := h.lx.class("int")
		if fn.Name() == "ParseFloat" {
			class = h.lx.class("int", "float")
		}
		if !st.syms[sym].Dom.subset(class) {
			if fn.Name() == "ParseFloat" {
				break
			}
			// no lexeme of another class is an integer
			if !st.splitBy(sym, class) {
				return []Outcome{{st: st, val: Agg{[]Val{Int(0), someErr}}}}, true
			}
		}
		v := numberOf(st, sym, fn.Name() == "ParseFloat")
		exact := fn.Name() == "Atoi" || fn.Name() == "ParseFloat" && eqVal(st.norm(args[1]), Int(64)) || fn.Name() == "ParseInt" && eqVal(st.norm(args[1]), Int(10))
		if !exact {
			if fn.Name() == "ParseFloat" {
				v = term("rounded number", SymRef{sym})
			} else {
				v = st.intFor(negInf, posInf, term("number in another base", SymRef{sym}))
			}
		}
		if h.concrete {
			for i, x := range st.ghost.(sentGhost).syms {
				if x.(SymRef).S == sym {
					v = Int(numberAt(i, h.nums))
					if fn.Name() == "ParseFloat" {
						v = Flt(floatAt(i, h.nums, st.syms[sym].Dom.subset(h.lx.class("float"))))
					}
					if !exact {
						v = Top{}
					}
				}
			}
		}
		outs := []Outcome{{st: st, val: Agg{[]Val{v, Nil{}}}}}
		if h.failing {
			bad := st.clone()
			g := bad.ghost.(sentGhost)
			g.unread = true
			bad.ghost = g
			// hexadecimal digits give 0, too many digits the greatest number
			var zero Val = bad.intFor(0, posInf, term("failed", SymRef{sym}))
			if fn.Name() == "ParseFloat" {
				zero = Top{}
			}
			outs = append(outs, Outcome{st: bad, val: Agg{[]Val{zero, someErr}}})
		}
		return outs, true
	}
	return h.tokenHooks.Call(fr, st, fn, args, site)
}

func (h *sentHooks) scan(fr *Frame, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) (outs []Outcome) {
	recv := st.norm(args[0])
	sources := []*State{st}
	if g := st.ghost.(sentGhost); h.faults && g.ends == 0 && !g.erred {
		bad := st.clone()
		g.erred = true
		bad.ghost = g
		p, ok := h.p.field(recv, fn, "Error")
		if !ok {
			panic(undecidable{"the scanner has no Error hook"})
		}
		f, ok := bad.norm(bad.loadPtr(p)).(Clo)
		if !ok {
			sources = append(sources, bad)
		} else {
			for _, o := range fr.callFn(bad, f, []Val{recv, term("lexical error")}, site, false) {
				if o.pan != nil {
					outs = append(outs, o)
					continue
				}
				sources = append(sources, o.st)
			}
		}
	}
	for _, st := range sources {
		g := st.ghost.(sentGhost)
		if g.ends == 1 || g.at >= len(h.slots) {
			g.ends = 1
			st.ghost = g
			h.p.position(st, recv, fn)
			outs = append(outs, Outcome{st: st, val: Int(runeEOF)})
			continue
		}
		next := func(s *State, dom Bits, end bool) {
			g := g
			sym := s.newChoice(h.lx.u, dom, nil)
			g.at++
			if end {
				g.ends = 1
			}
			g.syms = append(append([]Val(nil), g.syms...), SymRef{sym})
			s.ghost = g
			h.p.position(s, recv, fn)
			outs = append(outs, Outcome{st: s, val: h.lx.tab(sym, dom, func(c lexClass) Val { return Int(c.r) })})
		}
		dom := h.slots[g.at]
		if dom.has(h.lx.eof) {
			next(st.clone(), bit(h.lx.eof), true)
			dom = dom.minus(bit(h.lx.eof))
		}
		if !dom.empty() {
			next(st, dom, false)
		}
	}
	return
}

func (lx *Lexemes) class(names ...string) Bits {
	return lx.where(func(c lexClass) bool { return slices.Contains(names, c.name) })
}

func (lx *Lexemes) word(words ...string) Bits {
	return lx.where(func(c lexClass) bool { return c.r == runeIdent && c.word != "" && slices.Contains(words, c.word) })
}

func (lx *Lexemes) char(s string) Bits {
	return lx.where(func(c lexClass) bool { return c.r > 0 && string(rune(c.r)) == s })
}

// ------------------------------------------------------------ sentences

type sentence struct {
	nums  map[int]int64 // the concrete numbers, where not any will do
	c     *sentCheck
	text  string
	slots []Bits

	faults  bool // lexical errors happen
	failing bool // numbers may be out of range

	stmt, err Val // the results of the outcome being looked at
	ends      bool
	erred     bool
	unread    bool
}

type sentCheck struct {
	w        *World
	lx       *Lexemes
	r        *Result
	prop     string
	h        *sentHooks
	e        *Engine
	tok      map[string]int64
	binOps   map[int]string // lexeme -> token
	any      Bits
	concrete bool
	fnParse  *ssa.Function
}

// parse reads a pattern: words stand for themselves, INT, FLOAT, STRING,
// OP, WORD and ANY for sets.
func (c *sentCheck) sentence(text string) *sentence {
	s := &sentence{c: c, text: text}
	for _, f := range strings.Fields(text) {
		s.slots = append(s.slots, c.set(f))
	}
	return s
}

func (c *sentCheck) set(f string) Bits {
	lx := c.lx
	var b Bits
	switch f {
	case "INT":
		b = lx.class("int")
	case "FLOAT":
		b = lx.class("float")
	case "STRING":
		b = lx.class("string")
	case "OP":
		for i := range c.binOps {
			b = b.or(bit(i))
		}
	case "SIGN":
		b = lx.char("+").or(lx.char("-"))
	case "NAME":
		b = lx.class("word")
	case "VAR":
		b = lx.class("alpha", "Alpha", "beta")
	case "WORD":
		b = lx.where(func(d lexClass) bool { return d.r == runeIdent })
	case "ANY":
		b = c.any
	default:
		if len(f) == 1 && !(f[0] >= 'a' && f[0] <= 'z') {
			b = lx.char(f)
		} else {
			b = lx.word(f)
			if b.empty() {
				b = lx.class("word " + f + "…")
			}
		}
	}
	if b.empty() {
		panic(undecidable{"no lexeme " + f})
	}
	return b
}

// each interprets Parse on the sentence and hands over the outcomes.
func (s *sentence) each(f func(st *State, syms []SymID, stmt Val, ok bool)) {
	c := s.c
	n := len(c.r.Viols)
	defer func() {
		c.concrete = false
		if x := recover(); x != nil {
			if _, again := x.(retry); !again {
				panic(x)
			}
			c.r.Viols = c.r.Viols[:n]
			c.r.Stats["sentences_with_concrete_numbers"]++
			c.concrete = true
			s.interpret(f)
			c.concrete = false
		}
	}()
	s.interpret(f)
}

func (s *sentence) interpret(f func(st *State, syms []SymID, stmt Val, ok bool)) {
	c := s.c
	h := &sentHooks{tokenHooks: *c.h.tokenHooksPtr(), slots: s.slots, concrete: c.concrete, faults: s.faults, failing: s.failing, nums: s.nums}
	e := c.w.e.fork(h)
	e.recLim, e.loopLim = 40, 40
	st := newState(e)
	st.ghost = sentGhost{}
	outs, top := e.root(c.fnParse, st, []Val{term("input text")})
	c.r.absorb(e, top)
	c.r.Stats["sentences"]++
	for _, o := range outs {
		if o.pan != nil {
			c.r.add([]string{"C02"}, "panic", panicPos(o.pan, c.w.fnPos(c.fnParse)), "Parse can panic on %q: %s", s.text, panicText(o.pan))
			continue
		}
		splitAll(o.st, func(st *State) {
			a, isAgg := st.norm(o.val).(Agg)
			if !isAgg || len(a.F) != 2 {
				panic(undecidable{"the results of Parse"})
			}
			stmt, err := st.concretize(a.F[0]), st.concretize(a.F[1])
			g := st.ghost.(sentGhost)
			var syms []SymID
			for _, v := range g.syms {
				syms = append(syms, v.(SymRef).S)
			}
			c.r.Stats["outcomes"]++
			s.stmt, s.err, s.ends, s.erred, s.unread = stmt, err, g.ends == 1, g.erred, g.unread
			f(st, syms, stmt, isNilVal(err) && !isNilVal(stmt))
		})
	}
}

func (h *sentHooks) tokenHooksPtr() *tokenHooks { return &h.tokenHooks }

func (c *sentCheck) bad(kind, f string, a ...any) {
	c.r.add([]string{c.prop}, kind, c.w.fnPos(c.fnParse), f, a...)
}

// describe names the lexemes of an outcome.
func (s *sentence) describe(st *State, syms []SymID) string {
	var out []string
	for _, x := range syms {
		d := st.syms[x].Dom
		t := s.c.lx.cls[d.first()].name
		if d.count() > 1 {
			t += "…"
		}
		out = append(out, t)
	}
	return strings.Join(out, " ")
}

// node is a part of the tree that was parsed.
type node struct {
	st *State
	v  Val
	t  types.Type
}

// kind is the name of the node's type, "" for nil.
func (n *node) kind() string {
	n.v = n.st.concretize(n.v)
	if i, ok := n.v.(Iface); ok {
		n.v, n.t = n.st.concretize(i.V), i.T
	}
	if isNilVal(n.v) {
		return ""
	}
	if nm := namedOf(n.t); nm != nil {
		return nm.Obj().Name()
	}
	return "?"
}

func (n *node) at(name string) *node {
	k := n.kind()
	if k == "" {
		return &node{n.st, Nil{}, n.t}
	}
	nm := namedOf(n.t)
	if nm == nil {
		panic(undecidable{"a node that is no named type"})
	}
	path, ok := fieldPath(nm, name)
	if !ok {
		panic(undecidable{"no field " + k + "." + name})
	}
	st := nm.Underlying().(*types.Struct)
	var ft types.Type
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			ft = st.Field(i).Type()
		}
	}
	p, ok := n.v.(Ptr)
	if !ok {
		panic(undecidable{"a node that is not in own memory: " + briefVal(n.v)})
	}
	return &node{n.st, n.st.loadPtr(Ptr{p.O, p.P + path}), ft}
}

// list reads a slice field.
func (n *node) list(name string) (out []*node) {
	f := n.at(name)
	v := n.st.concretize(f.v)
	if isNilVal(v) {
		return nil
	}
	sl, ok := v.(Slice)
	if !ok {
		panic(undecidable{"the list " + name + ": " + briefVal(v)})
	}
	et := f.t.Underlying().(*types.Slice).Elem()
	ob := n.st.obj(sl.O)
	if ob.Shape != "list" && ob.Shape != "list!" {
		panic(undecidable{"the list " + name + " is " + ob.Shape})
	}
	for _, x := range ob.F {
		if _, ok := x.(Seg); ok {
			panic(undecidable{"the list " + name + " has unknown elements"})
		}
		out = append(out, &node{n.st, x, et})
	}
	return
}

func (n *node) intVal(name string) int64 {
	v, ok := n.st.concretize(n.at(name).v).(Int)
	if !ok {
		panic(undecidable{"the value of " + name + ": " + briefVal(v)})
	}
	return int64(v)
}

func sentenceRun(w *World, name string, thorough bool) *Result {
	r := newResult(name)
	lx := newLexemes(w, documentedWords()...)
	c := &sentCheck{w: w, lx: lx, r: r, tok: map[string]int64{}, binOps: map[int]string{}}
	h := &sentHooks{}
	h.w, h.lx = w, lx
	h.p = &parseHooks{w: w, lx: lx, tree: newTree(w)}
	c.h = h
	c.any = fullBits(lx.u.N)
	c.fnParse = w.pkg.Func("Parse")
	if c.fnParse == nil {
		panic(undecidable{"no function Parse"})
	}
	for i, cl := range lx.cls {
		alone, _ := cl.documented()
		if alone != "" && precedenceOf[alone] > 0 {
			c.binOps[i] = alone
		}
	}
	r.Stats["lexeme_classes"] = lx.u.N
	switch name {
	case "precedence":
		c.prop = "C09"
		c.precedence(thorough)
	case "sign":
		c.prop = "C07"
		c.signs()
	case "units":
		c.prop = "C11"
		c.units()
	case "names":
		c.prop = "C12"
		c.calendarNames()
	case "vars":
		c.prop = "C20"
		c.variables()
	case "any":
		c.prop = "C02"
		c.anything(thorough)
	case "calendar":
		c.prop = "C08"
		c.calendar(thorough)
	case "literals":
		c.prop = "C23"
		c.literals(thorough)
	case "shape":
		c.prop = "C05"
		c.shapes(thorough)
	}
	return r
}

// ------------------------------------------------------------ precedence

var precedenceOf = map[string]int{"OR": 1, "AND": 2, "LSS": 3, "LEQ": 3, "GTR": 3, "GEQ": 3, "EQL": 3, "LEQL": 3, "LNEQ": 3,
	"INTERSECTS": 3, "NOT_INTERSECTS": 3, "IN": 3, "NOT_IN": 3, "NEARBY": 3, "NOT_NEARBY": 3, "NOT_EQ": 3,
	"ADD": 4, "SUB": 4, "MUL": 5, "QUO": 5, "REM": 5}

// want is the tree a sentence must give.
type want struct {
	op          int // lexeme of the operator, -1 for an operand
	left, right *want
	paren       *want
	operand     int
}

// climb groups operands and operators by precedence, to the left.
func climb(operands []*want, ops []int, prec func(i int) int) *want {
	if len(ops) == 0 {
		return operands[0]
	}
	at := 0 // the last of the weakest operators
	for i := range ops {
		if prec(ops[i]) <= prec(ops[at]) {
			at = i
		}
	}
	return &want{op: ops[at], left: climb(operands[:at+1], ops[:at], prec), right: climb(operands[at+1:], ops[at+1:], prec)}
}

func (c *sentCheck) precedence(thorough bool) {
	pre := "trigger when "
	ts := []string{"NAME OP NAME", "NAME OP NAME OP NAME", "NAME OP NAME OP NAME OP NAME",
		"( NAME OP NAME ) OP NAME", "NAME OP ( NAME OP NAME )", "NAME OP ( NAME OP NAME ) OP NAME"}
	if thorough {
		ts = append(ts, "NAME OP NAME OP NAME OP NAME OP NAME", "( NAME OP NAME OP NAME ) OP NAME OP NAME",
			"NAME OP ( NAME OP NAME OP NAME ) OP NAME", "NAME OP ( NAME ) OP ( NAME OP NAME )")
	}
	for _, t := range ts {
		s := c.sentence(pre + t)
		s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
			if len(syms) < len(s.slots) || !ok {
				c.bad("expression", "the expression %s is rejected", s.describe(st, syms))
				return
			}
			var prec func(i int) int
			prec = func(i int) int {
				// decide the operator's level
				for l := 1; l <= 5; l++ {
					var set Bits
					for x, n := range c.binOps {
						if precedenceOf[n] == l {
							set = set.or(bit(x))
						}
					}
					if st.splitBy(syms[i], set) {
						return l
					}
				}
				return 0
			}
			fields := strings.Fields(s.text)
			pos := 2
			var expr func() *want
			expr = func() *want {
				var operands []*want
				var ops []int
				for pos < len(fields) {
					switch fields[pos] {
					case "NAME":
						operands = append(operands, &want{op: -1, operand: pos})
						pos++
					case "(":
						pos++
						operands = append(operands, &want{op: -1, paren: expr()})
						pos++
					case ")":
						return climb(operands, ops, prec)
					case "OP":
						ops = append(ops, pos)
						pos++
					}
				}
				return climb(operands, ops, prec)
			}
			root := &node{st, stmt, nil}
			if m := c.matches(st, syms, root.at("When"), expr()); m != "" {
				c.bad("grouping", "%s: %s", s.describe(st, syms), m)
			}
		})
	}
	c.levels()
}

// levels compares the documented precedence of every operator with the
// method.
func (c *sentCheck) levels() {
	tt, ok := c.w.pkg.Pkg.Scope().Lookup("Token").(*types.TypeName)
	if !ok {
		return
	}
	m := c.w.prog.LookupMethod(tt.Type(), c.w.pkg.Pkg, "Precedence")
	if m == nil {
		return
	}
	for _, n := range c.w.pkg.Pkg.Scope().Names() {
		k, ok := c.w.pkg.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok || !types.Identical(k.Type(), tt.Type()) {
			continue
		}
		v, _ := c.w.tokenValue(n)
		e := c.w.e.fork(c.h)
		st := newState(e)
		st.ghost = sentGhost{}
		outs, top := e.root(m, st, []Val{Int(v)})
		c.r.absorb(e, top)
		for _, o := range outs {
			if o.pan != nil {
				c.bad("panic", "Precedence can panic: %s", panicText(o.pan))
				continue
			}
			splitAll(o.st, func(st *State) {
				got, ok := st.concretize(o.val).(Int)
				if !ok {
					panic(undecidable{"the precedence of " + n})
				}
				c.r.Stats["precedences"]++
				if int(got) != precedenceOf[n] {
					c.r.add([]string{"C09"}, "precedence", c.w.fnPos(m), "%s has the precedence %d, not %d", n, int(got), precedenceOf[n])
				}
			})
		}
	}
}

func (c *sentCheck) matches(st *State, syms []SymID, n *node, w *want) string {
	switch {
	case w.paren != nil:
		if n.kind() != "ParenExpr" {
			return "the parentheses give a " + n.kind()
		}
		return c.matches(st, syms, n.at("Expr"), w.paren)
	case w.op < 0:
		if n.kind() != "Selector" {
			return "an operand gives a " + n.kind()
		}
		if m := c.textOf(st, n, "Ident", syms[w.operand]); m != "" {
			return m
		}
		return ""
	}
	if n.kind() != "BinaryExpr" {
		return "an operator gives a " + n.kind() + ": the operators are grouped the wrong way"
	}
	// the operator is that of its lexeme
	op := n.at("Op").v
	msg := ""
	st.syms[syms[w.op]].Dom.each(func(i int) {
		x := st.clone()
		x.restrict(syms[w.op], bit(i))
		splitAll(x, func(x *State) {
			got, ok := x.concretize(op).(Int)
			if !ok {
				panic(undecidable{"the operator of a node: " + briefVal(x.norm(op))})
			}
			if v, _ := c.w.tokenValue(c.binOps[i]); v != int64(got) {
				msg = "the operator " + c.lx.cls[i].name + " is lost or stands elsewhere"
			}
		})
	})
	if msg != "" {
		return msg
	}
	if m := c.matches(st, syms, n.at("Left"), w.left); m != "" {
		return m
	}
	return c.matches(st, syms, n.at("Right"), w.right)
}

// textOf compares a text field with the text of a lexeme, in lower case.
func (c *sentCheck) textOf(st *State, n *node, field string, sym SymID) string {
	found := false
	walkVal(st.norm(n.at(field).v), func(v Val) {
		if r, ok := v.(SymRef); ok && r.S == sym {
			found = true
		}
	})
	if !found {
		return "an operand stands in another place: its " + field + " is " + briefVal(st.norm(n.at(field).v))
	}
	return ""
}

// ------------------------------------------------------------ signs

// number is a number of a sentence: its lexeme, the lexeme of its sign (-1
// if there is none) and where it must be in the tree.
type number struct {
	lex, sign int
	path      string
}

// walkTo follows a path such as When.List.0.
func (n *node) walkTo(path string) *node {
	parts := strings.Split(path, ".")
	for i := 0; i < len(parts); i++ {
		if i+1 < len(parts) && parts[i+1] >= "0" && parts[i+1] <= "9" {
			if n.kind() == "" {
				return n
			}
			l := n.list(parts[i])
			k := int(parts[i+1][0] - '0')
			if k >= len(l) {
				return &node{n.st, Nil{}, n.t}
			}
			n = l[k]
			i++
			continue
		}
		n = n.at(parts[i])
	}
	return n
}

func (c *sentCheck) signs() {
	minus := c.lx.char("-")
	numeric := c.lx.class("int", "float")
	check := func(text string, ns ...number) {
		s := c.sentence("trigger when " + text)
		s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
			if !ok || len(syms) < len(s.slots) {
				c.bad("sign", "%s is rejected", s.describe(st, syms))
				return
			}
			for _, n := range ns {
				neg := n.sign >= 0 && st.splitBy(syms[n.sign+2], minus)
				root := &node{st, stmt, nil}
				x := root.walkTo(n.path)
				if !x.hasNumber(s, syms, n.lex+2, neg) {
					c.bad("sign", "%s: the number %d of the sentence must have the value of its lexeme, %s", s.describe(st, syms), n.lex+1, map[bool]string{true: "negated", false: "not negated"}[neg])
				}
			}
		})
	}
	check("INT", number{0, -1, "When"})
	check("FLOAT", number{0, -1, "When"})
	for _, f := range []string{"INT", "FLOAT"} {
		check("SIGN "+f, number{1, 0, "When"})
		check("SIGN "+f+" < "+f, number{1, 0, "When.Left"}, number{3, -1, "When.Right"})
		check(f+" < SIGN "+f, number{0, -1, "When.Left"}, number{3, 2, "When.Right"})
		check(f+" - "+f, number{0, -1, "When.Left"}, number{2, -1, "When.Right"})
		check(f+" - SIGN "+f, number{0, -1, "When.Left"}, number{3, 2, "When.Right"})
		check("SIGN "+f+" - SIGN "+f, number{1, 0, "When.Left"}, number{4, 3, "When.Right"})
		check("[ SIGN "+f+" , "+f+" ]", number{2, 1, "When.List.0"}, number{4, -1, "When.List.1"})
		check("[ "+f+" , SIGN "+f+" , "+f+" ]", number{1, -1, "When.List.0"}, number{4, 3, "When.List.1"}, number{6, -1, "When.List.2"})
		check("SIGN "+f+" . . "+f, number{1, 0, "When.Low"}, number{4, -1, "When.High"})
		check(f+" . . SIGN "+f, number{0, -1, "When.Low"}, number{4, 3, "When.High"})
		check("( SIGN "+f+" ) < "+f, number{2, 1, "When.Left.Expr"}, number{5, -1, "When.Right"})
		check("SIGN "+f+" < ( "+f+" )", number{1, 0, "When.Left"}, number{4, -1, "When.Right.Expr"})
		check("SIGN "+f+" in [ "+f+" ]", number{1, 0, "When.Left"}, number{4, -1, "When.Right.List.0"})
	}
	// what follows a sign
	s := c.sentence("trigger when SIGN ANY")
	s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
		if ok && (len(syms) < 4 || !st.splitBy(syms[3], numeric)) {
			c.bad("sign", "%s: a sign before something that is no number is accepted", s.describe(st, syms))
		}
	})
	s = c.sentence("trigger when NAME < SIGN SIGN INT")
	s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
		if ok {
			c.bad("sign", "%s: two signs are accepted", s.describe(st, syms))
		}
	})
	// values with units
	for _, u := range []string{"WORD", "%"} {
		for _, f := range []string{"INT", "FLOAT"} {
			for _, t := range []string{f + " " + u, "SIGN " + f + " " + u, "NAME < SIGN " + f + " " + u, "[ SIGN " + f + " " + u + " , " + f + " " + u + " ]",
				"SIGN " + f + " " + u + " . . " + f + " " + u} {
				c.signedUnits("trigger when "+t, minus)
			}
		}
	}
	c.points(minus)
}

// signedUnits checks the signs of values with units.
func (c *sentCheck) signedUnits(text string, minus Bits) {
	s := c.sentence(text)
	fields := strings.Fields(text)
	s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
		if !ok {
			return
		}
		root := (&node{st, stmt, nil}).at("When")
		var vals []*node
		switch root.kind() {
		case "BinaryExpr":
			vals = []*node{root.at("Right")}
		case "ArrayTyp":
			vals = root.list("List")
		case "Range":
			vals = []*node{root.at("Low"), root.at("High")}
		default:
			vals = []*node{root}
		}
		k := 0
		sign := -1
		for i, f := range fields {
			switch f {
			case "SIGN":
				sign = i
			case "INT", "FLOAT":
				if k >= len(vals) {
					return
				}
				v := vals[k]
				k++
				neg, pos := false, false
				if sign >= 0 {
					neg = st.splitBy(syms[sign], minus)
					pos = !neg
				}
				switch v.kind() {
				case "PercentTyp", "DistanceTyp", "SpeedTyp", "PressureTyp", "DurationTyp":
					if neg {
						c.bad("sign", "%s: a minus before a %s is accepted", s.describe(st, syms), v.kind())
					}
				case "TemperatureTyp":
					want := int64(0)
					if pos {
						want, _ = c.w.tokenValue("Plus")
					}
					if neg {
						want, _ = c.w.tokenValue("Minus")
					}
					if v.intVal("Vec") != want {
						c.bad("sign", "%s: the temperature %d does not have its own sign", s.describe(st, syms), k)
					}
				}
				sign = -1
			}
		}
	})
}

// points checks the signs of coordinates.
func (c *sentCheck) points(minus Bits) {
	for _, t := range []string{"FLOAT , FLOAT", "SIGN FLOAT , FLOAT", "FLOAT , SIGN FLOAT", "SIGN FLOAT , SIGN FLOAT", "SIGN INT , INT", "INT , SIGN INT", "SIGN INT , FLOAT", "SIGN FLOAT , INT"} {
		t = strings.ReplaceAll(t, "SIGN", "-")
		s := c.sentence("trigger when NAME in point [ " + t + " ]")
		fields := strings.Fields(s.text)
		s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
			if !ok || len(syms) < len(fields) {
				c.bad("sign", "%s is rejected", s.describe(st, syms))
				return
			}
			p := (&node{st, stmt, nil}).walkTo("When.Right")
			v, isAgg := st.norm(p.at("Val").v).(Agg)
			if !isAgg || len(v.F) != 2 {
				panic(undecidable{"the coordinates of a point"})
			}
			k, sign := 0, -1
			for i, f := range fields {
				switch f {
				case "-":
					sign = i
				case "INT", "FLOAT":
					neg := sign >= 0 && st.splitBy(syms[sign], minus)
					if !sameNumber(st, v.F[k], s, syms, i, neg) {
						c.bad("sign", "%s: coordinate %d must have the value of its lexeme, %s", s.describe(st, syms), k+1, map[bool]string{true: "negated", false: "not negated"}[neg])
					}
					k++
					sign = -1
				}
			}
		})
	}
}

func (n *node) hasNumber(s *sentence, syms []SymID, lex int, neg bool) bool {
	if k := n.kind(); k != "IntTyp" && k != "FloatTyp" {
		return false
	}
	return sameNumber(n.st, n.at("Val").v, s, syms, lex, neg)
}

// sameNumber compares a value with the number that a lexeme denotes.
func sameNumber(st *State, v Val, s *sentence, syms []SymID, lex int, neg bool) bool {
	v = st.norm(v)
	if s.c.concrete {
		switch v := v.(type) {
		case Int:
			return int64(v) == numberAt(lex, s.nums)*map[bool]int64{true: -1, false: 1}[neg]
		case Flt:
			w := floatAt(lex, s.nums, st.syms[syms[lex]].Dom.subset(s.c.lx.class("float")))
			if neg {
				w = -w
			}
			return float64(v) == w
		case Top:
			return false
		}
		panic(undecidable{"the value of a number: " + briefVal(v)})
	}
	lexeme := syms[lex]
	for _, float := range []bool{false, true} {
		p := numberOf(st, lexeme, float)
		n := p
		if float {
			n = st.fltNeg(p)
		} else {
			n = st.intNeg(p)
		}
		w, o := p, n
		if neg {
			w, o = n, p
		}
		if eqVal(v, w) {
			return true
		}
		if eqVal(v, o) {
			return false
		}
		for i, other := range syms {
			if i != lex && st.syms[other] != nil && eqVal(v, numberOf(st, other, float)) {
				return false
			}
		}
	}
	panic(retry{})
}

// numberAt is the number that stands for the lexeme at a place: one that
// neither 32 bits nor a float of 32 bits can hold, unless another is needed.
func numberAt(lex int, nums map[int]int64) int64 {
	if n, ok := nums[lex]; ok {
		return n
	}
	return int64(5000000003 + 7919*lex)
}

// floatAt is the same for lexemes that may have a fraction.
func floatAt(lex int, nums map[int]int64, fraction bool) float64 {
	f := float64(numberAt(lex, nums))
	if fraction {
		f += 0.25
	}
	return f
}

// ------------------------------------------------------------ units

// documentedUnits gives the node type and the unit of every spelling, in
// lower case.
var documentedUnits = map[string][2]string{
	"%": {"PercentTyp", "Percent"}, "pct": {"PercentTyp", "Percent"},
	"km": {"DistanceTyp", "Kilometer"}, "rkm": {"DistanceTyp", "Kilometer"},
	"m": {"DistanceTyp", "Meter"}, "rm": {"DistanceTyp", "Meter"}, "met": {"DistanceTyp", "Meter"},
	"kph": {"SpeedTyp", "Kph"}, "mph": {"SpeedTyp", "Mph"},
	"c": {"TemperatureTyp", "Celsius"}, "f": {"TemperatureTyp", "Fahrenheit"},
	"bar": {"PressureTyp", "Bar"}, "psi": {"PressureTyp", "Psi"}, "si": {"PressureTyp", "Psi"},
	"am": {"TimeTyp", "AM"}, "pm": {"TimeTyp", "PM"},
}

var measures = []string{"PercentTyp", "DistanceTyp", "SpeedTyp", "TemperatureTyp", "PressureTyp"}

// printedUnits interprets Unit.String for every unit.
func (c *sentCheck) printedUnits() map[string]string {
	out := map[string]string{}
	tt, ok := c.w.pkg.Pkg.Scope().Lookup("Unit").(*types.TypeName)
	if !ok {
		panic(undecidable{"no type Unit"})
	}
	m := c.w.prog.LookupMethod(tt.Type(), c.w.pkg.Pkg, "String")
	if m == nil {
		panic(undecidable{"no method Unit.String"})
	}
	for _, d := range documentedUnits {
		n := d[1]
		v, ok := c.w.tokenValue(n)
		if !ok {
			panic(undecidable{"no unit " + n})
		}
		if n == "Percent" {
			continue // a percentage has no unit to print
		}
		e := c.w.e.fork(c.h)
		st := newState(e)
		st.ghost = sentGhost{}
		outs, top := e.root(m, st, []Val{Int(v)})
		c.r.absorb(e, top)
		for _, o := range outs {
			if o.pan != nil {
				c.bad("panic", "Unit.String can panic: %s", panicText(o.pan))
				continue
			}
			splitAll(o.st, func(st *State) {
				s, ok := st.concretize(o.val).(Str)
				if !ok {
					panic(undecidable{"the spelling of " + n})
				}
				out[n] = string(s)
			})
		}
	}
	return out
}

func (c *sentCheck) units() {
	printed := c.printedUnits()
	accepted := map[string]bool{} // printed units that have been read back
	for _, t := range []string{"INT WORD", "FLOAT WORD", "INT %", "FLOAT %", "time [ INT : INT WORD ]", "time [ INT : INT : INT WORD ]"} {
		s := c.sentence("trigger when " + t)
		at := slices.IndexFunc(strings.Fields(s.text), func(f string) bool { return f == "WORD" || f == "%" })
		s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
			if !ok {
				return
			}
			v := (&node{st, stmt, nil}).at("When")
			k := v.kind()
			if k == "DurationTyp" || len(syms) <= at {
				return
			}
			if k == "IntTyp" || k == "FloatTyp" {
				clauses := c.lx.word("repeat", "reset")
				if st.splitBy(syms[at], clauses) {
					return // the next clause
				}
			}
			if k != "TimeTyp" && !slices.Contains(measures, k) {
				c.bad("unit", "%s gives a %s", s.describe(st, syms), k)
				return
			}
			st.syms[syms[at]].Dom.each(func(i int) {
				cl := c.lx.cls[i]
				w := cl.word
				if cl.r == '%' {
					w = "%"
				}
				c.r.Stats["spellings_accepted"]++
				d, known := documentedUnits[w]
				if !known {
					c.bad("unit", "%s: %s is no unit but gives a %s", s.describe(st, syms), cl.name, k)
					return
				}
				if d[0] != k {
					c.bad("unit", "%s: the unit %s gives a %s", s.describe(st, syms), cl.name, k)
					return
				}
				for n, p := range printed {
					if p == cl.name && n == d[1] {
						accepted[n] = true
					}
				}
				if k == "PercentTyp" {
					return
				}
				x := st.clone()
				x.restrict(syms[at], bit(i))
				splitAll(x, func(x *State) {
					n := &node{x, v.v, v.t}
					u, _ := c.w.tokenValue(d[1])
					if n.intVal("U") != u {
						c.bad("unit", "%s: the unit %s of a %s is not read as %s", s.describe(st, syms), cl.name, k, d[1])
					}
				})
			})
		})
	}
	for _, n := range sortedKeys(printed) {
		c.r.Stats["units_printed"]++
		if !accepted[n] {
			c.bad("unit", "%s is printed as %q, which is not read back", n, printed[n])
		}
	}
}

// ------------------------------------------------------------ names

// calendarNames checks the values that names of days and months stand for.
func (c *sentCheck) calendarNames() {
	for _, k := range []struct {
		word, typ string
		names     []string
		base      int64
	}{{"weekday", "WeekdayTyp", dayNames, 0}, {"month", "MonthTyp", monthNames, 1}} {
		value := func(i int) (int64, bool) {
			for n, name := range k.names {
				if c.lx.cls[i].word == name[:3] {
					return int64(n) + k.base, true
				}
			}
			return 0, false
		}
		var named Bits
		for i := range c.lx.cls {
			if _, ok := value(i); ok {
				named = named.or(bit(i))
			}
		}
		for _, p := range []struct{ text, paths string }{
			{"WORD ]", "When"}, {"WORD , WORD ]", "When.List.0 When.List.1"}, {"WORD , WORD , WORD ]", "When.List.0 When.List.1 When.List.2"}, {"WORD . . WORD ]", "When.Low When.High"},
		} {
			s := c.sentence("trigger when " + k.word + " [ " + p.text)
			var at []int
			for i, f := range strings.Fields(s.text) {
				if f == "WORD" {
					at = append(at, i)
				}
			}
			s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
				if !ok {
					for _, i := range at {
						if i < len(syms) && !st.splitBy(syms[i], named) {
							return
						}
					}
					c.bad("name", "%s is rejected", s.describe(st, syms))
					return
				}
				root := &node{st, stmt, nil}
				for j, path := range strings.Fields(p.paths) {
					n := root.walkTo(path)
					if n.kind() != k.typ {
						c.bad("name", "%s: a %s stands where a %s belongs", s.describe(st, syms), n.kind(), k.typ)
						return
					}
					st.syms[syms[at[j]]].Dom.each(func(i int) {
						want, known := value(i)
						if !known {
							c.bad("name", "%s: %s is no name of a %s but is accepted", s.describe(st, syms), c.lx.cls[i].name, k.word)
							return
						}
						x := st.clone()
						x.restrict(syms[at[j]], bit(i))
						splitAll(x, func(x *State) {
							if got := (&node{x, n.v, n.t}).intVal("Val"); got != want {
								c.bad("name", "%s: %s %d has the value %d, not %d", s.describe(st, syms), k.word, j+1, got, want)
							}
						})
					})
				}
			})
		}
	}
}

// ------------------------------------------------------------ variables

func (c *sentCheck) variables() {
	for n := 1; n <= 3; n++ {
		for _, sep := range []string{" ; ", " "} {
			text := "trigger set "
			for i := 0; i < n; i++ {
				text += "VAR = INT" + sep
			}
			s := c.sentence(text + "when NAME")
			step := 3 + len(strings.TrimSpace(sep))
			s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
				name := func(i int) string {
					for _, n := range []string{"alpha", "Alpha"} {
						if st.splitBy(syms[2+i*step], c.lx.class(n)) {
							return n
						}
					}
					return "beta"
				}
				same := ""
				for i := 0; i < n && 2+i*step < len(syms); i++ {
					for j := 0; j < i; j++ {
						if name(i) == name(j) {
							same = itoa(j+1) + " and " + itoa(i+1)
						}
					}
				}
				if !ok {
					if same == "" {
						c.bad("variable", "%s is rejected though all names differ", s.describe(st, syms))
					}
					return
				}
				if same != "" {
					c.bad("variable", "%s is accepted though the assignments %s have the same name", s.describe(st, syms), same)
					return
				}
				root := &node{st, stmt, nil}
				vars := root.list("Vars")
				if len(vars) != n {
					c.bad("variable", "%s gives %d assignments", s.describe(st, syms), len(vars))
					return
				}
				for i, v := range vars {
					if t := st.concretize(st.expand(st.norm(v.at("Left").at("Val").v))); t != Val(Str(name(i))) {
						c.bad("variable", "%s: assignment %d does not have its own name but %s", s.describe(st, syms), i+1, briefVal(t))
					}
					if !v.at("Right").hasNumber(s, syms, 2+i*step+2, false) {
						c.bad("variable", "%s: assignment %d does not have its own value", s.describe(st, syms), i+1)
					}
				}
			})
		}
	}
	for _, t := range []string{"@ VAR ;", "@ VAR", "[ @ VAR ] ;", "[ @ VAR , @ VAR ] ;"} {
		for _, more := range []string{"", "VAR = INT ; "} {
			s := c.sentence("trigger set " + more + "VAR = " + t + " when NAME")
			s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
				if ok {
					c.bad("variable", "%s: a variable is assigned variables", s.describe(st, syms))
				}
			})
		}
	}
	s := c.sentence("trigger when @ NAME")
	s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
		if !ok {
			c.bad("variable", "%s is rejected", s.describe(st, syms))
			return
		}
		n := (&node{st, stmt, nil}).at("When")
		if n.kind() != "Ref" {
			c.bad("variable", "%s gives a %s", s.describe(st, syms), n.kind())
			return
		}
		id := st.norm(n.at("ID").v)
		if !eqVal(st.expand(id), term("raw", SymRef{syms[3]}, Str("id"))) && !eqVal(id, term("lextext", SymRef{syms[3]})) {
			c.bad("variable", "%s: the name of the variable is changed to %s", s.describe(st, syms), briefVal(id))
		}
	})
}

// ------------------------------------------------------------ any input

// wellFormed lists sentences of all constructs. The lexemes marked with ~
// are values, not delimiters; | separates alternatives, $ is the end.
var wellFormed = []string{
	"trigger when ~NAME",
	"trigger set ~NAME = ~INT ~; when ~NAME",
	"trigger set ~NAME = ~INT ~; ~NAME = ~STRING when ~NAME",
	"trigger set ~NAME = [ ~INT ] ; when @ ~NAME",
	"trigger when ~INT repeat|reset|$|OP|range ~INT",
	"trigger when ~NAME repeat|$ ~INT every|$ ~INT ~s",
	"trigger when ~NAME repeat|$ ~INT every|$ ~INT ~s reset|$ after ~INT ~s",
	"trigger when ~NAME reset|$ after ~INT ~s",
	"trigger when ( ~NAME )",
	"trigger when ( ( ~NAME ) )",
	"trigger when ( ~NAME ~< ~NAME )",
	"trigger when [ ~INT ,|:|]|range ~INT ]",
	"trigger when [ ~STRING ,|:|range ~STRING ]",
	"trigger when [ ~INT . . ~INT ]",
	"trigger when ~INT .|$ . ~INT",
	"trigger when [ @ ~NAME ,|:|range @ ~NAME ]",
	"trigger when @ ~NAME",
	"trigger when ~NAME {|$ ~STRING }",
	"trigger when ~NAME {|$ ~* }",
	"trigger when ~NAME {|$ ~STRING ~, ~STRING }",
	"trigger when ~NAME ~: ~NAME",
	"trigger when ~NAME ~: ~NAME ~, ~NAME",
	"trigger when ~NAME {|$ ~STRING } ~: ~NAME",
	"trigger when weekday [ ~mon ]",
	"trigger when weekday [ ~mon ,|.|range ~tue ]",
	"trigger when weekday [ ~mon . . ~tue ]",
	"trigger when month [ ~jan ]",
	"trigger when month [ ~jan ,|.|range ~feb ]",
	"trigger when month [ ~jan . . ~feb ]",
	"trigger when time [ ~INT : ~INT ]",
	"trigger when time [ ~INT : ~INT : ~INT ]",
	"trigger when time [ ~INT : ~INT ~am ]",
	"trigger when time [ ~INT : ~INT ,|.|range ~INT : ~INT ]",
	"trigger when time [ ~INT : ~INT ~. . ~INT : ~INT ]",
	"trigger when date [ ~INT - ~INT - ~INT ]",
	"trigger when date [ ~INT - ~INT - ~INT ,|.|range ~INT - ~INT - ~INT ]",
	"trigger when date [ ~INT - ~INT - ~INT . . ~INT - ~INT - ~INT ]",
	"trigger when point [ ~FLOAT , ~FLOAT ]",
	"trigger when point [ ~FLOAT , ~FLOAT ] :|$|OP|range ~INT ~km",
	"trigger when line [ [ ~FLOAT , ~FLOAT ] , [ ~FLOAT , ~FLOAT ] ]",
	"trigger when line [ [ ~FLOAT , ~FLOAT ] , [ ~FLOAT , ~FLOAT ] ] :|$|OP|range ~INT ~km",
	"trigger when polygon [ [ [ ~FLOAT , ~FLOAT ] , [ ~FLOAT , ~FLOAT ] , [ ~FLOAT , ~FLOAT ] ] ]",
	"trigger when ~multipoint [ ~point [ ~FLOAT , ~FLOAT ] , ~point [ ~FLOAT , ~FLOAT ] ]",
	"trigger when ~collection [ ~point [ ~FLOAT , ~FLOAT ] , ~point [ ~FLOAT , ~FLOAT ] ]",
	"trigger when ~INT ~km",
	"trigger when ~INT ~%",
}

// form reads a sentence of the list.
func (c *sentCheck) form(text string) (s *sentence, allowed []Bits, values []bool) {
	s = &sentence{c: c, text: strings.ReplaceAll(text, "~", ""), failing: true}
	for _, f := range strings.Fields(text) {
		v := strings.HasPrefix(f, "~")
		f = strings.TrimPrefix(f, "~")
		var set Bits
		for _, a := range strings.Split(f, "|") {
			if a == "$" {
				set = set.or(bit(c.lx.eof))
			} else {
				set = set.or(c.set(a))
			}
		}
		values = append(values, v)
		allowed = append(allowed, set)
		s.slots = append(s.slots, c.set(strings.Split(f, "|")[0]))
	}
	return
}

func (c *sentCheck) anything(thorough bool) {
	ts := []string{"ANY ANY ANY", "trigger when ANY ANY", "trigger set ANY ANY ANY"}
	if thorough {
		ts = append(ts, "ANY ANY ANY ANY", "trigger when ANY ANY ANY", "trigger set ANY ANY ANY ANY")
	}
	for _, t := range ts {
		s := c.sentence(t)
		s.failing = true
		s.each(func(st *State, syms []SymID, stmt Val, ok bool) { c.sound(s, st, syms) })
	}
	for _, t := range wellFormed {
		s, _, _ := c.form(t)
		s.faults = true
		s.each(func(st *State, syms []SymID, stmt Val, ok bool) { c.sound(s, st, syms) })
	}
}

// shapes puts any lexeme in the place of every lexeme of the sentences: a
// delimiter can only be replaced by its alternatives.
func (c *sentCheck) shapes(thorough bool) {
	for _, t := range wellFormed {
		s, allowed, values := c.form(t)
		accepted := false
		for i := range s.slots {
			x := &sentence{c: c, text: s.text, slots: append([]Bits(nil), s.slots...), failing: true}
			x.slots[i] = c.any
			x.each(func(st *State, syms []SymID, stmt Val, ok bool) {
				c.sound(x, st, syms)
				if !ok {
					return
				}
				accepted = true
				if len(syms) <= i {
					return // the sentence ends before it
				}
				if !values[i] && !st.splitBy(syms[i], allowed[i]) {
					c.bad("delimiter", "%s is accepted with %s in place %d", s.text, c.lx.cls[st.syms[syms[i]].Dom.first()].name, i+1)
				}
			})
		}
		if !accepted {
			c.bad("sentence", "%s is rejected", s.text)
		}
	}
}

// sound checks what holds of every outcome.
func (c *sentCheck) sound(s *sentence, st *State, syms []SymID) {
	failed, some := !isNilVal(s.err), !isNilVal(s.stmt)
	pos := c.w.fnPos(c.fnParse)
	switch {
	case failed && some:
		c.r.add([]string{"C01"}, "result", pos, "%s: a statement is returned along with an error", s.describe(st, syms))
	case !failed && !some:
		c.r.add([]string{"C01"}, "result", pos, "%s: neither a statement nor an error is returned", s.describe(st, syms))
	}
	for _, v := range []Val{s.stmt, s.err} {
		if i, ok := v.(Iface); ok && isNilVal(st.concretize(i.V)) {
			r := "statement"
			if eqVal(v, s.err) {
				r = "error"
			}
			c.r.add([]string{"C01"}, "result", pos, "%s: the %s wraps a nil pointer", s.describe(st, syms), r)
		}
	}
	if !failed && !s.ends {
		c.r.add([]string{"C04"}, "rest", pos, "%s…: accepted without reading the input to its end", s.describe(st, syms))
	}
	if !failed && s.erred {
		c.r.add([]string{"C24"}, "lexical-error", pos, "%s: accepted although the scanner has reported an error", s.describe(st, syms))
	}
}

// -------------------------------------------------------------- calendar

var calendarRanges = map[string][2]int64{
	"DateTyp.Year": {2022, 2200}, "DateTyp.Month": {1, 12}, "DateTyp.Day": {1, 31},
	"TimeTyp.Hours": {0, 24}, "TimeTyp.Minutes": {0, 59}, "TimeTyp.Seconds": {0, 59},
	"WeekdayTyp.Val": {0, 6}, "MonthTyp.Val": {1, 12},
}

// calendar puts any lexeme in every place of the bodies of calendar values.
// The numbers are unknown: what an accepted tree holds is known only from
// the comparisons that the parser has made on the way.
func (c *sentCheck) calendar(thorough bool) {
	forms := []string{
		"date [ INT - INT - INT ]",
		"date [ INT - INT - INT , INT - INT - INT ]",
		"date [ INT - INT - INT . . INT - INT - INT ]",
		"time [ INT : INT ]",
		"time [ INT : INT : INT ]",
		"time [ INT : INT am ]",
		"time [ INT : INT : INT am ]",
		"time [ INT : INT , INT : INT ]",
		"time [ INT : INT : INT , INT : INT : INT ]",
		"time [ INT : INT . . INT : INT ]",
		"time [ INT : INT : INT . . INT : INT : INT ]",
		"time [ INT : INT am . . INT : INT am ]",
		"weekday [ mon ]",
		"weekday [ mon , mon ]",
		"weekday [ mon . . mon ]",
		"month [ jan ]",
		"month [ jan , jan ]",
		"month [ jan . . jan ]",
	}
	if thorough {
		forms = append(forms, "date [ INT - INT - INT , INT - INT - INT , INT - INT - INT ]", "time [ INT : INT , INT : INT : INT , INT : INT am ]",
			"weekday [ mon , mon , mon ]", "month [ jan , jan , jan ]")
	}
	for _, f := range forms {
		s := c.sentence("trigger when " + f)
		for i := 3; i < len(s.slots); i++ {
			x := &sentence{c: c, text: s.text, slots: append([]Bits(nil), s.slots...), failing: true}
			x.slots[i] = c.any
			x.each(func(st *State, syms []SymID, stmt Val, ok bool) {
				if ok {
					c.inRange(x, st, syms, &node{st, stmt, nil})
				}
			})
		}
	}
}

func (c *sentCheck) inRange(s *sentence, st *State, syms []SymID, n *node) {
	k := n.kind()
	switch k {
	case "":
		return
	case "Trigger":
		c.inRange(s, st, syms, n.at("When"))
		return
	case "ArrayTyp":
		for _, e := range n.list("List") {
			c.inRange(s, st, syms, e)
		}
		return
	case "Range":
		c.inRange(s, st, syms, n.at("Low"))
		c.inRange(s, st, syms, n.at("High"))
		return
	case "BinaryExpr":
		c.inRange(s, st, syms, n.at("Left"))
		c.inRange(s, st, syms, n.at("Right"))
		return
	}
	for _, f := range []string{"Year", "Month", "Day", "Hours", "Minutes", "Seconds", "Val"} {
		r, ok := calendarRanges[k+"."+f]
		if !ok {
			continue
		}
		c.r.Stats["calendar_fields"]++
		lo, hi := st.bounds(st.concretize(n.at(f).v))
		if lo < r[0] || hi > r[1] {
			from, to := strconv.FormatInt(lo, 10), strconv.FormatInt(hi, 10)
			if lo <= negInf {
				from = "any number"
			}
			if hi >= 1<<40 {
				to = "any number"
			}
			c.bad("calendar", "%s: %s.%s is accepted with values from %s to %s, not only from %d to %d", s.describe(st, syms), k, f, from, to, r[0], r[1])
		}
	}
}

// -------------------------------------------------------------- literals

type literal struct {
	path string // to the value
	lex  int    // the lexeme, counted from the condition
	kind string
}

// step goes to a field or to an element.
func (n *node) step(part string) *node {
	i, err := strconv.Atoi(part)
	if err != nil {
		return n.at(part)
	}
	switch v := n.st.concretize(n.v).(type) {
	case Agg:
		if a, ok := n.t.Underlying().(*types.Array); ok && i < len(v.F) {
			return &node{n.st, v.F[i], a.Elem()}
		}
	case Slice:
		if ob := n.st.obj(v.O); (ob.Shape == "list" || ob.Shape == "list!") && i < len(ob.F) {
			if _, seg := ob.F[i].(Seg); !seg {
				return &node{n.st, ob.F[i], n.t.Underlying().(*types.Slice).Elem()}
			}
		}
	}
	panic(undecidable{"no element " + part + " in " + briefVal(n.v)})
}

// literals follows the value of every lexeme into the field it belongs to.
func (c *sentCheck) literals(thorough bool) {
	num := func(lex int, path string) literal { return literal{path, lex, "number"} }
	str := func(lex int, path string) literal { return literal{path, lex, "string"} }
	name := func(lex int, path string) literal { return literal{path, lex, "name"} }
	check := func(text string, ls ...literal) {
		s := c.sentence("trigger when " + text)
		s.failing = true
		s.nums = map[int]int64{}
		for _, l := range ls {
			for field, n := range map[string]int{"Year": 2030 + l.lex, "Month": 1 + l.lex%12, "Day": 10 + l.lex, "Hours": 1 + l.lex, "Minutes": 20 + l.lex, "Seconds": 21 + l.lex} {
				if strings.HasSuffix(l.path, field) {
					s.nums[l.lex+2] = int64(n)
				}
			}
		}
		accepted, concrete := false, false
		s.each(func(st *State, syms []SymID, stmt Val, ok bool) {
			if c.concrete && !concrete {
				accepted, concrete = false, true
			}
			if !ok || len(syms) < len(s.slots) {
				return
			}
			accepted = true
			if s.unread {
				c.bad("conversion", "%s: accepted although a number could not be converted", s.describe(st, syms))
				return
			}
			for _, l := range ls {
				n := &node{st, stmt, nil}
				for _, part := range strings.Fields("When " + l.path) {
					n = n.step(part)
				}
				sym := syms[l.lex+2]
				v := st.norm(n.v)
				same := false
				switch l.kind {
				case "number":
					same = sameNumber(st, v, s, syms, l.lex+2, false)
				case "string":
					same = eqVal(st.expand(v), term("unq", term("raw", SymRef{sym}, Str("string"))))
				case "name":
					raw := term("raw", SymRef{sym}, Str("id"))
					x := st.expand(v)
					same = eqVal(v, term("lextext", SymRef{sym})) || eqVal(v, term("lexlow", SymRef{sym})) || eqVal(x, raw) || eqVal(x, strLower(raw))
				case "true", "false":
					same = eqVal(st.concretize(v), Bool(l.kind == "true"))
				}
				c.r.Stats["literals"]++
				if !same {
					c.bad("literal", "%s: %s does not hold the %s of lexeme %d but %s", s.describe(st, syms), l.path, l.kind, l.lex+1, briefVal(v))
				}
			}
		})
		if !accepted {
			if concrete {
				panic(undecidable{"no number fits " + s.text})
			}
			c.bad("literal", "%s is rejected", s.text)
		}
	}
	for _, f := range []string{"INT", "FLOAT"} {
		check(f, num(0, "Val"))
		check("NAME < "+f, num(2, "Right Val"))
		check(f+" < "+f, num(0, "Left Val"), num(2, "Right Val"))
		check("( "+f+" )", num(1, "Expr Val"))
		check("[ "+f+" , "+f+" , "+f+" ]", num(1, "List 0 Val"), num(3, "List 1 Val"), num(5, "List 2 Val"))
		check(f+" . . "+f, num(0, "Low Val"), num(3, "High Val"))
		for _, u := range []string{"%", "km", "kph", "c", "f", "bar", "psi"} {
			t := f + " " + u
			check("NAME < "+t, num(2, "Right Val"))
			if thorough || u == "%" || u == "km" {
				check("["+" "+t+" , "+t+" ]", num(1, "List 0 Val"), num(4, "List 1 Val"))
				check(t+" . . "+t, num(0, "Low Val"), num(4, "High Val"))
			}
		}
	}
	check("STRING", str(0, "Val"))
	check("NAME in [ STRING , STRING ]", str(3, "Right List 0 Val"), str(5, "Right List 1 Val"))
	check("NAME = = STRING and STRING = = NAME", str(3, "Left Right Val"), str(5, "Right Left Val"))
	for w, b := range map[string]string{"true": "true", "up": "true", "false": "false", "down": "false"} {
		check(w, literal{"Val", 0, b})
	}
	check("NAME", name(0, "Ident"))
	check("NAME < NAME", name(0, "Left Ident"), name(2, "Right Ident"))
	check("@ NAME", name(1, "ID"))
	check("[ @ NAME , @ NAME ]", name(2, "List 0 ID"), name(5, "List 1 ID"))
	check("date [ INT - INT - INT ]", num(2, "Year"), num(4, "Month"), num(6, "Day"))
	check("date [ INT - INT - INT , INT - INT - INT ]", num(2, "List 0 Year"), num(4, "List 0 Month"), num(6, "List 0 Day"), num(8, "List 1 Year"), num(10, "List 1 Month"), num(12, "List 1 Day"))
	check("date [ INT - INT - INT . . INT - INT - INT ]", num(2, "Low Year"), num(4, "Low Month"), num(6, "Low Day"), num(9, "High Year"), num(11, "High Month"), num(13, "High Day"))
	check("time [ INT : INT ]", num(2, "Hours"), num(4, "Minutes"))
	check("time [ INT : INT : INT ]", num(2, "Hours"), num(4, "Minutes"), num(6, "Seconds"))
	check("time [ INT : INT : INT am ]", num(2, "Hours"), num(4, "Minutes"), num(6, "Seconds"))
	check("time [ INT : INT , INT : INT : INT ]", num(2, "List 0 Hours"), num(4, "List 0 Minutes"), num(6, "List 1 Hours"), num(8, "List 1 Minutes"), num(10, "List 1 Seconds"))
	check("time [ INT : INT . . INT : INT ]", num(2, "Low Hours"), num(4, "Low Minutes"), num(7, "High Hours"), num(9, "High Minutes"))
	for _, f := range []string{"INT", "FLOAT"} {
		check("point [ "+f+" , "+f+" ]", num(2, "Val 0"), num(4, "Val 1"))
		check("point [ "+f+" , "+f+" ] : "+f+" km", num(2, "Val 0"), num(4, "Val 1"), num(7, "Radius Val"))
		check("line [ [ "+f+" , "+f+" ] , [ "+f+" , "+f+" ] ]", num(3, "Val 0 0"), num(5, "Val 0 1"), num(9, "Val 1 0"), num(11, "Val 1 1"))
		check("polygon [ [ [ "+f+" , "+f+" ] , [ "+f+" , "+f+" ] , [ "+f+" , "+f+" ] ] ]", num(4, "Val 0 0 0"), num(6, "Val 0 0 1"), num(10, "Val 0 1 0"), num(12, "Val 0 1 1"), num(16, "Val 0 2 0"), num(18, "Val 0 2 1"))
	}
}
