package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The token analysis interprets NewTokenizer, Scan, Reset and Unwind on a
// source of unknown lexemes and compares the tokens, lexeme by lexeme, with
// the documented ones. Which lexemes a token is made of is decided by the
// table below; whatever the tokenizer has read beyond them must come back
// with the next Scan.

func init() {
	runs["token"] = tokenRun
	plan["C10"] = []string{"token"}
}

// tokGhost is the list of lexemes that have been read but are not part of
// a token yet, and the tokenizer.
type tokGhost struct {
	eof, begun bool
	tk, last   Val
	queue      []Val
}

func (g tokGhost) Shape() string {
	s := "tokens " + itoa(len(g.queue))
	if g.eof {
		s += " end"
	}
	if g.begun {
		s += " begun"
	}
	return s
}
func (g tokGhost) Roots() []Val { return append([]Val{g.tk, g.last}, g.queue...) }
func (g tokGhost) With(r []Val) Ghost {
	g.tk, g.last = r[0], r[1]
	g.queue = append([]Val(nil), r[2:]...)
	return g
}

type tokenHooks struct {
	baseHooks
	p  *parseHooks
	w  *World
	lx *Lexemes
}

func (h *tokenHooks) Text(st *State, s SymID, low bool) Val { return h.p.Text(st, s, low) }

func (h *tokenHooks) LexemeIs(st *State, l Term, class, c string) Val {
	return h.p.LexemeIs(st, l, class, c)
}

func (h *tokenHooks) Call(fr *Frame, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	switch {
	case isScanner(fn, h.w, "Init"):
		h.p.position(st, args[0], fn)
		return []Outcome{{st: st, val: args[0]}}, true
	case isScanner(fn, h.w, "Scan"):
		g := st.ghost.(tokGhost)
		dom := fullBits(h.lx.u.N)
		if g.eof {
			dom = bit(h.lx.eof)
		}
		var outs []Outcome
		next := func(s *State, dom Bits, end bool) {
			g := g
			sym := s.newChoice(h.lx.u, dom, nil)
			g.eof, g.begun, g.last = end, true, SymRef{sym}
			g.queue = append(append([]Val(nil), g.queue...), SymRef{sym})
			s.ghost = g
			h.p.position(s, st.norm(args[0]), fn)
			outs = append(outs, Outcome{st: s, val: h.lx.tab(sym, dom, func(c lexClass) Val { return Int(c.r) })})
		}
		if !g.eof {
			next(st.clone(), dom.minus(bit(h.lx.eof)), false)
		}
		next(st, bit(h.lx.eof), true)
		return outs, true
	case isScanner(fn, h.w, "TokenText"):
		g := st.ghost.(tokGhost)
		if !g.begun {
			return []Outcome{{st: st, val: Str("")}}, true
		}
		return []Outcome{{st: st, val: term("lextext", g.last)}}, true
	}
	return h.p.Call(fr, st, fn, args, site)
}

var singleTokens = map[string]string{
	"@": "IDENT", ";": "SEMICOLON", ",": "COMMA", "(": "LPAREN", ")": "RPAREN", "[": "LBRACK", "]": "RBRACK",
	"{": "LBRACE", "}": "RBRACE", "/": "QUO", "+": "ADD", "-": "SUB", "*": "MUL", ":": "COLON",
	".": "PERIOD", "=": "ASSIGN", "!": "ILLEGAL", "<": "LSS", ">": "GTR",
}

var doubleTokens = map[string]string{"..": "RANGE", "==": "LEQL", "!=": "LNEQ", "<=": "LEQ", ">=": "GEQ"}

var wordTokens = map[string]string{
	"trigger": "TRIGGER", "set": "SET", "when": "WHEN", "repeat": "REPEAT", "reset": "RESET",
	"mod": "REM", "rem": "REM", "or": "OR", "and": "AND", "eq": "EQL", "in": "IN", "range": "RANGE",
	"nearby": "NEARBY", "intersects": "INTERSECTS",
	"time": "TIME", "date": "DATE", "weekday": "WEEKDAY", "month": "MONTH",
	"true": "BOOLEAN", "false": "BOOLEAN", "up": "BOOLEAN", "down": "BOOLEAN",
	"point": "GEOMETRY_POINT", "multipoint": "GEOMETRY_MULTIPOINT", "line": "GEOMETRY_LINE",
	"multiline": "GEOMETRY_MULTILINE", "polygon": "GEOMETRY_POLYGON", "multipolygon": "GEOMETRY_MULTIPOLYGON",
	"collection": "GEOMETRY_COLLECTION", "not": "ILLEGAL",
}

var notTokens = map[string]string{"eq": "NOT_EQ", "in": "NOT_IN", "nearby": "NOT_NEARBY", "intersects": "NOT_INTERSECTS"}

// printedOps are the tokens that Format spells out.
var printedOps = []string{"OR", "AND", "EQL", "LEQL", "NOT_EQ", "LNEQ", "LSS", "LEQ", "GTR", "GEQ", "IN", "NOT_IN",
	"NEARBY", "NOT_NEARBY", "INTERSECTS", "NOT_INTERSECTS", "ADD", "SUB", "MUL", "QUO", "REM"}

// documented returns the token that starts with a lexeme: alone, and
// together with the next one.
func (c lexClass) documented() (alone string, with func(d lexClass) string) {
	switch {
	case c.r == runeEOF:
		return "EOF", nil
	case c.r == runeInt:
		return "INT", nil
	case c.r == runeFloat:
		return "FLOAT", nil
	case c.r == runeString:
		return "STRING", nil
	case c.r == runeIdent:
		if c.word == "not" {
			return "ILLEGAL", func(d lexClass) string {
				if d.r != runeIdent {
					return ""
				}
				return notTokens[d.word]
			}
		}
		if t, ok := wordTokens[c.word]; ok && c.word != "" {
			return t, nil
		}
		return "SELECTOR", nil
	}
	s := string(rune(c.r))
	t, ok := singleTokens[s]
	if !ok {
		return "ILLEGAL", nil
	}
	for d := range doubleTokens {
		if strings.HasPrefix(d, s) {
			return t, func(x lexClass) string {
				if x.r <= 0 {
					return ""
				}
				return doubleTokens[s+string(rune(x.r))]
			}
		}
	}
	return t, nil
}

func (w *World) tokenValue(name string) (int64, bool) {
	c, ok := w.pkg.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

type tokenCheck struct {
	h       *tokenHooks
	e       *Engine
	r       *Result
	w       *World
	names   map[int64]string
	scan    *ssa.Function
	reset   *ssa.Function
	unwind  *ssa.Function
	checked map[string]bool
}

func tokenRun(w *World, prop string, thorough bool) *Result {
	r := newResult("token")
	lx := newLexemes(w, documentedWords()...)
	r.Stats["lexeme_classes"] = lx.u.N
	h := &tokenHooks{}
	h.w, h.lx = w, lx
	h.p = &parseHooks{w: w, lx: lx, tree: newTree(w)}
	c := &tokenCheck{h: h, r: r, w: w, names: map[int64]string{}, checked: map[string]bool{}}
	for _, m := range []map[string]string{singleTokens, doubleTokens, wordTokens, notTokens, {"": "EOF", "1": "INT", "2": "FLOAT", "3": "STRING", "4": "SELECTOR"}} {
		for _, n := range m {
			v, ok := w.tokenValue(n)
			if !ok {
				panic(undecidable{"no token " + n})
			}
			c.names[v] = n
		}
	}
	mk := w.pkg.Func("NewTokenizer")
	if mk == nil {
		panic(undecidable{"no function NewTokenizer"})
	}
	tt := mk.Signature.Results().At(0).Type()
	c.scan = w.prog.LookupMethod(tt, w.pkg.Pkg, "Scan")
	c.reset = w.prog.LookupMethod(tt, w.pkg.Pkg, "Reset")
	c.unwind = w.prog.LookupMethod(tt, w.pkg.Pkg, "Unwind")
	if c.scan == nil || c.reset == nil || c.unwind == nil {
		panic(undecidable{"no method Scan, Reset or Unwind"})
	}
	e := w.e.fork(h)
	c.e = e
	st := newState(e)
	st.ghost = tokGhost{tk: Nil{}, last: Nil{}}
	for _, o := range c.run(mk, st, []Val{Iface{opaqueT, term("reader")}}) {
		g := o.st.ghost.(tokGhost)
		g.tk = o.st.norm(o.val)
		o.st.ghost = g
		depth := 3
		if thorough {
			depth = 4
		}
		c.scans(o.st, depth, "")
	}
	c.spellings()
	return r
}

func (c *tokenCheck) run(fn *ssa.Function, st *State, args []Val) (good []Outcome) {
	outs, top := c.e.root(fn, st, args)
	c.r.absorb(c.e, top)
	for _, o := range outs {
		if o.pan != nil {
			c.bad("panic", fn, "%s can panic: %s", fn.Name(), panicText(o.pan))
			continue
		}
		good = append(good, o)
	}
	return
}

func (c *tokenCheck) bad(kind string, fn *ssa.Function, f string, a ...any) {
	c.r.add([]string{"C10"}, kind, c.w.fnPos(fn), f, a...)
}

// scans checks one Scan and goes on with the states it leaves.
func (c *tokenCheck) scans(st *State, depth int, after string) {
	if depth == 0 {
		return
	}
	g := st.ghost.(tokGhost)
	for _, o := range c.run(c.scan, st.clone(), []Val{g.tk}) {
		c.token(o, depth, after)
	}
}

func (c *tokenCheck) token(o Outcome, depth int, after string) {
	g := o.st.ghost.(tokGhost)
	if len(g.queue) == 0 {
		c.bad("token", c.scan, "%sScan returns a token without reading anything", after)
		return
	}
	cls := c.h.lx.cls
	first := g.queue[0].(SymRef).S
	var plain Bits // one lexeme, nothing special
	o.st.syms[first].Dom.each(func(i int) {
		s := o.st.clone()
		s.restrict(first, bit(i))
		if s.syms[first] == nil || s.syms[first].Dom.empty() {
			return
		}
		alone, with := cls[i].documented()
		if with == nil {
			if c.same(s, o.val, alone, cls[i].name, after) {
				plain = plain.or(bit(i))
			}
			return
		}
		if len(g.queue) < 2 {
			c.bad("token", c.scan, "%sScan decides about %s without looking at what follows", after, cls[i].name)
			return
		}
		second := g.queue[1].(SymRef).S
		var one, two Bits
		s.syms[second].Dom.each(func(j int) {
			x := s.clone()
			x.restrict(second, bit(j))
			want := with(cls[j])
			if want == "" {
				if c.same(x, o.val, alone, cls[i].name+" before "+cls[j].name, after) {
					one = one.or(bit(j))
				}
			} else if c.same(x, o.val, want, cls[i].name+" "+cls[j].name, after) {
				two = two.or(bit(j))
			}
		})
		if alone != "ILLEGAL" || cls[i].r > 0 {
			c.goOn(s, second, one, 1, depth, after+"after "+cls[i].name+", ")
		}
		c.goOn(s, second, two, 2, depth, after+"after a token of two lexemes, ")
	})
	if after == "" && !plain.empty() {
		c.again(o, first, plain)
	}
	c.goOn(o.st, first, plain, 1, depth, after)
}

// goOn scans on from the states in which a lexeme is one of a set.
func (c *tokenCheck) goOn(st *State, sym SymID, set Bits, taken, depth int, after string) {
	if set.empty() {
		return
	}
	s := st.clone()
	s.restrict(sym, set)
	g := s.ghost.(tokGhost)
	g.queue = append([]Val(nil), g.queue[taken:]...)
	s.ghost = g
	c.scans(s, depth-1, after)
}

// same compares the token of an outcome with the documented one.
func (c *tokenCheck) same(s *State, val Val, want, what, after string) (ok bool) {
	ok = true
	key := want + "|" + what
	splitAll(s, func(s *State) {
		a, isAgg := s.norm(val).(Agg)
		if !isAgg || len(a.F) == 0 {
			panic(undecidable{"the results of Scan"})
		}
		v, isInt := s.concretize(a.F[0]).(Int)
		if !isInt {
			panic(undecidable{"the token that Scan returns for " + what + ": " + briefVal(a.F[0])})
		}
		c.r.Stats["tokens_compared"]++
		if n, _ := c.w.tokenValue(want); n != int64(v) {
			ok = false
			got := c.names[int64(v)]
			if got == "" {
				got = "token " + itoa(int(v))
			}
			c.bad("token", c.scan, "%s%s is read as %s, not %s", after, what, got, want)
		}
	})
	if !c.checked[key] {
		c.checked[key] = true
		c.r.Stats["lexeme_combinations"]++
	}
	return
}

// again checks that Reset brings the last lexeme back, and that Unwind
// without Reset changes nothing.
func (c *tokenCheck) again(o Outcome, first SymID, set Bits) {
	for _, fn := range []*ssa.Function{c.reset, c.unwind} {
		s := o.st.clone()
		s.restrict(first, set)
		g := s.ghost.(tokGhost)
		if len(g.queue) != 1 {
			return
		}
		old := g.queue
		g.queue = old
		if fn == c.unwind {
			g.queue = nil
		}
		s.ghost = g
		for _, x := range c.run(fn, s, []Val{g.tk}) {
			c.scans(x.st, 1, "after "+fn.Name()+", ")
		}
	}
}

// spellings checks that the printed spelling of an operator is read back.
func (c *tokenCheck) spellings() {
	fn := c.w.pkg.Func("KeywordString")
	if fn == nil {
		panic(undecidable{"no function KeywordString"})
	}
	for _, n := range printedOps {
		v, ok := c.w.tokenValue(n)
		if !ok {
			panic(undecidable{"no token " + n})
		}
		st := newState(c.e)
		st.ghost = tokGhost{tk: Nil{}, last: Nil{}}
		for _, o := range c.run(fn, st, []Val{Int(v)}) {
			splitAll(o.st, func(s *State) {
				got, isStr := s.concretize(o.val).(Str)
				if !isStr {
					panic(undecidable{"the spelling of " + n})
				}
				c.r.Stats["spellings"]++
				if spelled(string(got)) != n {
					c.bad("spelling", fn, "%s is printed as %q, which is read as %s", n, string(got), spelled(string(got)))
				}
			})
		}
	}
}

// spelled is the token that a text denotes.
func spelled(s string) string {
	f := strings.Fields(strings.ToLower(s))
	switch {
	case len(f) == 2 && f[0] == "not" && notTokens[f[1]] != "":
		return notTokens[f[1]]
	case len(f) != 1:
		return "no single token"
	case doubleTokens[f[0]] != "":
		return doubleTokens[f[0]]
	case singleTokens[f[0]] != "":
		return singleTokens[f[0]]
	case wordTokens[f[0]] != "":
		return wordTokens[f[0]]
	}
	return "SELECTOR"
}

// documentedWords are the words of the notation, whatever the program
// compares lexemes with.
func documentedWords() []string {
	set := map[string]bool{"every": true, "after": true, "alpha": true, "Alpha": true, "beta": true}
	for _, m := range []map[string]string{wordTokens, notTokens} {
		for k := range m {
			set[k] = true
		}
	}
	for k := range documentedUnits {
		if k != "%" {
			set[k] = true
		}
	}
	for _, n := range append(append([]string(nil), dayNames...), monthNames...) {
		set[n[:3]] = true
	}
	return sortedKeys(set)
}
