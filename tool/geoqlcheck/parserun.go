package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The parse analysis interprets Parse for every sequence of lexemes. The
// scanner is replaced by its contract: each call of Scan yields a lexeme of
// any class, and after the end of the input only the end again.

func init() {
	runs["parse"] = parseRun
}

// ------------------------------------------------------------ lexemes

type lexClass struct {
	name string
	r    int64
	text func(l Val) Val
	word string // lower case, for words
}

// Lexemes is the universe of lexemes: the classes that the program can
// tell apart.
type Lexemes struct {
	u   *Universe
	cls []lexClass
	eof int
}

var identLike = regexp.MustCompile(`^[A-Za-z_][A-Za-z_0-9]*$`)

// stringsOf lists the string constants of the package that have the form
// of a word.
func (w *World) wordsOf() []string {
	seen := map[string]bool{}
	add := func(s string) {
		for _, f := range strings.Fields(s) {
			if identLike.MatchString(f) && len(f) <= 20 {
				seen[f] = true
			}
		}
	}
	for _, fn := range w.e.allFuncs(w.pkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.BinOp:
					if in.Op != token.EQL && in.Op != token.NEQ {
						continue
					}
				case *ssa.Lookup, *ssa.MapUpdate, *ssa.Store:
				case *ssa.Call:
					if f := in.Call.StaticCallee(); f == nil || !strings.HasPrefix(f.String(), "strings.") && !strings.HasPrefix(f.String(), "slices.") {
						continue
					}
				default:
					continue
				}
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						add(constant.StringVal(c.Value))
					}
				}
			}
		}
	}
	// the package variables as initialised
	for _, m := range w.pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			w.eachString(g, add)
		}
	}
	return sortedKeys(seen)
}

func (w *World) eachString(g *ssa.Global, f func(string)) {
	o, ok := w.e.globals[g]
	if !ok {
		return
	}
	done := map[ObjID]bool{}
	var visit func(v Val)
	obj := func(o ObjID) {
		if ob, ok := w.e.base[o]; ok && !done[o] {
			done[o] = true
			for _, x := range ob.F {
				visit(x)
			}
		}
	}
	visit = func(v Val) {
		walkVal(v, func(x Val) {
			switch x := x.(type) {
			case Str:
				f(string(x))
			case Ptr:
				obj(x.O)
			case Slice:
				obj(x.O)
			case MapV:
				obj(x.O)
			}
		})
	}
	obj(o)
}

const (
	runeEOF    = -1
	runeIdent  = -2
	runeInt    = -3
	runeFloat  = -4
	runeString = -6
)

func newLexemes(w *World, extra ...string) *Lexemes {
	lx := &Lexemes{}
	raw := func(class string) func(l Val) Val {
		return func(l Val) Val { return term("raw", l, Str(class)) }
	}
	add := func(c lexClass) { lx.cls = append(lx.cls, c) }
	lx.eof = 0
	add(lexClass{name: "end of input", r: runeEOF, text: func(Val) Val { return Str("") }})
	add(lexClass{name: "int", r: runeInt, text: raw("int")})
	add(lexClass{name: "float", r: runeFloat, text: raw("float")})
	add(lexClass{name: "string", r: runeString, text: raw("string")})
	for c := int64('!'); c <= '~'; c++ {
		if c == '_' || c == '"' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			continue
		}
		s := Str(string(rune(c)))
		add(lexClass{name: "'" + string(s) + "'", r: c, text: func(Val) Val { return s }})
	}
	add(lexClass{name: "other character", r: 0x2603, text: raw("char")})
	lower := map[string]bool{}
	words := w.wordsOf()
	for _, x := range extra {
		if !slices.Contains(words, x) {
			words = append(words, x)
		}
	}
	for _, s := range words {
		s := s
		add(lexClass{name: s, r: runeIdent, word: strings.ToLower(s), text: func(Val) Val { return Str(s) }})
		lower[strings.ToLower(s)] = true
	}
	for _, s := range sortedKeys(lower) {
		add(lexClass{name: s + " in another case", r: runeIdent, word: s, text: raw("w:" + s)})
	}
	for _, c := range "hmsHMS" {
		add(lexClass{name: "word " + string(c) + "…", r: runeIdent, text: raw("id:" + string(c))})
	}
	add(lexClass{name: "word", r: runeIdent, text: raw("id")})
	if len(lx.cls) > bitWords*64 {
		panic(undecidable{"too many words"})
	}
	lx.u = &Universe{Name: "lexeme", N: len(lx.cls), Label: func(i int) string { return lx.cls[i].name }}
	return lx
}

func (lx *Lexemes) where(f func(c lexClass) bool) (b Bits) {
	for i, c := range lx.cls {
		if f(c) {
			b = b.or(bit(i))
		}
	}
	return
}

func (lx *Lexemes) tab(s SymID, dom Bits, f func(c lexClass) Val) Val {
	var g []Grp
	dom.each(func(i int) { g = append(g, Grp{bit(i), f(lx.cls[i])}) })
	return mkTab(s, g)
}

// ------------------------------------------------------------ the source

// lexGhost is the state of the source of lexemes.
type lexGhost struct {
	begun bool
	eof   bool  // the end has been read
	erred bool  // a lexical error has been reported
	gone  bool  // a function has reported an error
	cur   []Val // the symbol of the last lexeme
}

func (g lexGhost) Shape() string {
	s := "lex"
	if g.eof {
		s += " end"
	}
	if g.erred {
		s += " err"
	}
	if g.gone {
		s += " gone"
	}
	return s
}
func (g lexGhost) Roots() []Val       { return g.cur }
func (g lexGhost) With(r []Val) Ghost { g.cur = append([]Val(nil), r...); return g }

type parseHooks struct {
	baseHooks
	w      *World
	lx     *Lexemes
	faults bool // lexical errors happen
	tree   *Tree

	live  *liveness
	flags map[string]bool

	ints bool // numbers have values

	manyValues int // the number of values of a counter from which it is only bounded
}

func isScanner(fn *ssa.Function, w *World, name string) bool {
	return fn.Pkg == w.scn && fn.Name() == name && fn.Signature.Recv() != nil
}

// fieldPath finds a field of the scanner, also in embedded structs.
func fieldPath(t types.Type, name string) (string, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return "." + itoa(i), true
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Embedded() {
			if p, ok := fieldPath(f.Type(), name); ok {
				return "." + itoa(i) + p, true
			}
		}
	}
	return "", false
}

func (h *parseHooks) field(recv Val, fn *ssa.Function, name string) (Ptr, bool) {
	p, ok := recv.(Ptr)
	if !ok {
		return Ptr{}, false
	}
	t := fn.Signature.Recv().Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	f, ok := fieldPath(t, name)
	return Ptr{O: p.O, P: p.P + f}, ok
}

func (h *parseHooks) Call(fr *Frame, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	switch {
	case isScanner(fn, h.w, "Init"):
		h.position(st, args[0], fn)
		return []Outcome{{st: st, val: args[0]}}, true
	case isScanner(fn, h.w, "Scan"):
		return h.scan(fr, st, fn, st.norm(args[0]), site), true
	case isScanner(fn, h.w, "TokenText"):
		g := st.ghost.(lexGhost)
		if !g.begun {
			return []Outcome{{st: st, val: Str("")}}, true
		}
		s := g.cur[0].(SymRef).S
		return []Outcome{{st: st, val: term("lextext", SymRef{s})}}, true
	case fn.Pkg == h.w.scn && fn.Signature.Recv() != nil:
		panic(undecidable{"use of the scanner's " + fn.Name() + " at " + fr.e.posOf(site)})
	}
	switch fn.String() {
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "time.ParseDuration":
		return h.number(st, fn, args[0]), true
	case "fmt.Errorf", "errors.New":
		return []Outcome{{st: st, val: someErr}}, true
	}
	return nil, false
}

var someErr = libErr(term("some error"))

// Text writes out the text of a lexeme.
func (h *parseHooks) Text(st *State, s SymID, low bool) Val {
	return h.lx.tab(s, st.syms[s].Dom, func(c lexClass) Val {
		v := c.text(SymRef{s})
		if low {
			v = strLower(v)
		}
		return v
	})
}

// MapPut forgets the content of a map that is filled.
func (h *parseHooks) MapPut(fr *Frame, st *State, o ObjID, k, v Val) bool {
	if o < 0 {
		return false
	}
	ob := st.obj(o)
	st.setObj(o, &Obj{"folded map", ob.T, []Val{Lin{st.newInt(0, posInf, nil), 0}}})
	return true
}

// number converts the text of a lexeme.
func (h *parseHooks) number(st *State, fn *ssa.Function, text Val) []Outcome {
	may := func(v Val) bool {
		if s, ok := v.(Str); ok {
			if fn.Name() == "ParseFloat" {
				_, err := strconv.ParseFloat(string(s), 64)
				return err == nil
			}
			_, err := strconv.Atoi(string(s))
			return err == nil
		}
		if class, _, ok := rawOf(v); ok {
			return class == "int" || class == "float" && fn.Name() != "Atoi" && fn.Name() != "ParseInt"
		}
		return true
	}
	text = st.expand(text)
	can := true
	if t, ok := text.(Tab); ok {
		var set Bits
		for _, g := range t.G {
			yes := true
			if _, nested := g.V.(Tab); !nested {
				yes = may(g.V)
			}
			if yes {
				set = set.or(g.Set)
			}
		}
		can = st.splitBy(t.S, set)
	} else {
		can = may(text)
	}
	zero := Val(Int(0))
	res := fn.Signature.Results().At(0).Type()
	if b, ok := res.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		zero = Top{}
	}
	bad := st.clone()
	outs := []Outcome{{st: bad, val: Agg{[]Val{zero, someErr}}}}
	if can {
		v := zero
		if !h.ints {
			v = Top{}
		}
		if v == Val(Int(0)) {
			lo := int64(negInf)
			if class, _, ok := rawOf(text); ok && class == "int" || fn.Name() == "ParseUint" {
				lo = 0
			}
			v = Lin{st.newInt(lo, posInf, nil), 0}
		}
		outs = append(outs, Outcome{st: st, val: Agg{[]Val{v, Nil{}}}})
	}
	return outs
}

func (h *parseHooks) Input(st *State, prov Term, t types.Type) Val { return h.tree.load(st, prov, t) }

// LoopHead forgets what lists consist of.
func (h *parseHooks) LoopHead(fr *Frame, st *State, b *ssa.BasicBlock) []*State {
	for r, i := range fr.fi.num {
		if t, ok := r.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsFloat != 0 && i < len(st.regs) && st.regs[i] != nil {
			st.regs[i] = Top{}
		}
	}
	h.Joined(fr, st, b)
	h.sealRegs(fr, st)
	for _, o := range sortedObjs(st) {
		ob := st.obj(o)
		if ob.Shape != "list" || len(ob.F) == 0 {
			continue
		}
		sl, ok := ob.T.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() != types.Float64 {
			continue
		}
		n := int64(0)
		for _, v := range ob.F {
			if s, ok := v.(Seg); ok {
				lo, _ := st.bounds(s.A[0])
				n += lo
			} else {
				n++
			}
		}
		if n > 1 {
			n = 1
		}
		st.setObj(o, &Obj{ob.Shape, ob.T, []Val{Seg{"opaque", []Val{Lin{st.newInt(n, posInf, nil), 0}}}}})
	}
	var out []*State
	splitAll(st, func(s *State) {
		for _, o := range sortedObjs(s) {
			ob := s.obj(o)
			if !strings.HasPrefix(ob.Shape, "cell") || len(ob.F) != 1 {
				continue
			}
			if t, ok := s.norm(ob.F[0]).(Tab); ok && h.sealable(t) {
				s.setObj(o, &Obj{ob.Shape, ob.T, []Val{s.concretize(t)}})
			}
		}
		for i, v := range s.regs {
			if v == nil {
				continue
			}
			if t, ok := s.norm(v).(Tab); ok && h.sealable(t) {
				s.regs[i] = s.concretize(t)
			}
		}
		out = append(out, s)
	})
	return out
}

// coarse reports whether the kind of node that a function returns is
// forgotten: the callers are the parser's own recursive functions, which
// must do with any.
func (h *parseHooks) coarse(fr *Frame) bool {
	g := fr.e.graph
	fn := fr.fi.fn
	if g.rec[fn] {
		return true
	}
	n := 0
	for f, out := range g.out {
		if out[fn] {
			if !g.rec[f] {
				return false
			}
			n++
		}
	}
	return n > 0
}

func (h *parseHooks) anyNode(s *State, x Iface) Val {
	dom := fullBits(len(h.tree.nodes)).minus(h.tree.types("Assign", "Trigger"))
	n := namedOf(x.T)
	if n == nil {
		return x
	}
	if k, ok := h.tree.index[n.Obj().Name()]; !ok || dom.minus(bit(k)) == dom {
		return x
	}
	c := s.newChoice(h.tree.typeU, dom, nil)
	var g []Grp
	dom.each(func(i int) {
		t := h.tree.nodes[i]
		g = append(g, Grp{bit(i), Iface{types.NewPointer(t), In{term("obj:"+t.Obj().Name(), term("node", SymRef{c}))}}})
	})
	return mkTab(c, g)
}

// sealRegs forgets what the finished nodes consist of that a loop carries.
func (h *parseHooks) sealRegs(fr *Frame, st *State) {
	open := map[ObjID]bool{}
	for i, v := range st.regs {
		if v == nil {
			continue
		}
		switch v := st.norm(v).(type) {
		case Ptr:
			open[v.O] = true
		case Iface:
		case Tab:
			if h.sealable(v) {
				st.regs[i] = st.concretize(v)
			}
		}
	}
	done := map[ObjID]Val{}
	for o := range open {
		done[o] = nil
	}
	for _, o := range st.reach(fr.ctx.args).objs {
		done[o] = nil
	}
	for r, i := range fr.fi.num {
		if i >= len(st.regs) || st.regs[i] == nil {
			continue
		}
		if v, ok := st.norm(st.regs[i]).(Iface); ok && !isErrorType(r.Type()) {
			st.regs[i] = h.seal(st, v, r.Type(), done)
		}
	}
}

// Joined bounds the counters of a loop.
func (h *parseHooks) Joined(fr *Frame, st *State, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		i := fr.fi.num[phi]
		if t, ok := phi.Type().(*types.Basic); !ok || t.Kind() != types.Int || st.regs[i] == nil {
			continue
		}
		v := st.norm(st.regs[i])
		if lo, hi, ok := st.hull(Tab{G: []Grp{{V: v}}}); ok {
			vals := map[[2]int64]bool{}
			for _, s := range fr.seen[b.Index] {
				if l, h, ok := s.st.hull(Tab{G: []Grp{{V: s.st.norm(s.st.regs[i])}}}); ok {
					vals[[2]int64{l, h}] = true
				}
			}
			if len(vals) >= h.manyValues {
				st.regs[i] = Lin{st.newInt(fr.e.threshold(lo, false), fr.e.threshold(hi, true), nil), 0}
			}
		}
	}
}

// hull bounds a choice between numbers.
func (st *State) hull(t Tab) (lo, hi int64, ok bool) {
	lo, hi = posInf, negInf
	for _, g := range t.G {
		var a, b int64
		switch v := g.V.(type) {
		case Int:
			a, b = int64(v), int64(v)
		case Lin:
			a, b = st.bounds(v)
		case Tab:
			var ok bool
			if a, b, ok = st.hull(v); !ok {
				return 0, 0, false
			}
		default:
			return 0, 0, false
		}
		lo, hi = min(lo, a), max(hi, b)
	}
	return lo, hi, true
}

func sortedObjs(st *State) (out []ObjID) {
	for o := range st.objs {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

// Return forgets what new nodes and errors consist of.
func (h *parseHooks) Return(fr *Frame, st *State, vals []Val) (out []item) {
	splitAll(st, func(s *State) {
		vs := make([]Val, len(vals))
		copy(vs, vals)
		done := map[ObjID]Val{}
		for _, o := range s.reach(fr.ctx.args).objs {
			done[o] = nil
		}
		for i, v := range vs {
			w := s.norm(v)
			if t, ok := w.(Tab); ok && h.sealable(t) {
				w = s.concretize(t)
			}
			vs[i] = w
		}
		for i, v := range vs {
			if _, ok := v.(Iface); ok && isErrorType(fr.fi.fn.Signature.Results().At(i).Type()) {
				h.failed(fr, s)
			}
			vs[i] = h.seal(s, v, fr.fi.fn.Signature.Results().At(i).Type(), done)
			if x, ok := vs[i].(Iface); ok && h.coarse(fr) && types.Identical(fr.fi.fn.Signature.Results().At(i).Type(), h.tree.expr) {
				if _, ok := x.V.(In); ok {
					vs[i] = h.anyNode(s, x)
				}
			}
		}
		if debugCtx == "top" {
			for _, o := range s.reach(fr.ctx.args).objs {
				if n := namedOf(s.obj(o).T); n != nil && n.Obj().Name() == "parser" {
					a := s.obj(o).F[0].(Agg)
					if _, ok := s.norm(a.F[8]).(Top); ok && (len(vs) == 0 || !strings.Contains(keyOf(vs[len(vs)-1]), "Error")) {
						println("TOP", fr.fi.fn.Name(), len(vs))
					}
				}
			}
		}
		out = append(out, item{s, vs})
	})
	return
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// failed forgets the state of a parser that has given up: nobody looks at
// it again, and where somebody does, anything may be there.
func (h *parseHooks) failed(fr *Frame, st *State) {
	for _, o := range st.reach(fr.ctx.args).objs {
		ob := st.obj(o)
		if !strings.HasPrefix(ob.Shape, "cell") {
			continue
		}
		f := make([]Val, len(ob.F))
		for i, v := range ob.F {
			f[i] = blur(st.norm(v), ob.T)
		}
		st.setObj(o, &Obj{ob.Shape, ob.T, f})
	}
	g := st.ghost.(lexGhost)
	g.gone = true
	st.ghost = g
	if g.begun {
		dom := fullBits(h.lx.u.N)
		if g.eof {
			dom = bit(h.lx.eof)
		}
		g.cur = []Val{SymRef{st.newChoice(h.lx.u, dom, nil)}}
		st.ghost = g
	}
}

func blur(v Val, t types.Type) Val {
	switch v := v.(type) {
	case Term:
		if v.Op == someCount {
			return v
		}
		return Top{}
	case Int, Str, Bool, Lin, Tab:
		return Top{}
	case Agg:
		f := make([]Val, len(v.F))
		for i, x := range v.F {
			var ft types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Array:
				ft = u.Elem()
			default:
				return Top{}
			}
			f[i] = blur(x, ft)
		}
		return Agg{f}
	case Nil, Iface:
		if isErrorType(t) {
			return Top{}
		}
	}
	return v
}

// sealable reports whether an alternative is a new node.
func (h *parseHooks) sealable(t Tab) bool {
	for _, g := range t.G {
		switch v := g.V.(type) {
		case Tab:
			if h.sealable(v) {
				return true
			}
		case Iface:
			if _, ok := v.V.(Ptr); ok {
				return true
			}
		case Ptr:
			return true
		}
	}
	return false
}

func (h *parseHooks) seal(s *State, v Val, t types.Type, done map[ObjID]Val) Val {
	if i, ok := v.(Iface); ok {
		if isErrorType(t) {
			if n := namedOf(i.T); n != nil {
				if p, ok := i.V.(Ptr); ok && p.P == "" {
					return Iface{i.T, In{term("obj:"+n.Obj().Name(), term("failed"))}}
				}
			}
			return v
		}
		if p, ok := i.V.(Ptr); ok {
			return Iface{i.T, h.seal(s, p, i.T, done)}
		}
		return v
	}
	p, ok := v.(Ptr)
	if !ok || p.P != "" {
		return v
	}
	if x, ok := done[p.O]; ok {
		if x == nil {
			return v
		}
		return x
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() != h.w.pkg.Pkg {
		return v
	}
	k, ok := h.tree.index[n.Obj().Name()]
	if !ok || p.O <= s.anchO {
		return v
	}
	c := s.newChoice(h.tree.typeU, bit(k), nil)
	x := In{term("obj:"+n.Obj().Name(), term("node", SymRef{c}))}
	done[p.O] = x
	return x
}

// position forgets where the scanner is.
func (h *parseHooks) position(st *State, recv Val, fn *ssa.Function) {
	for _, n := range []string{"Offset", "Line", "Column"} {
		if p, ok := h.field(st.norm(recv), fn, n); ok {
			st.storePtr(p, term(someCount))
		}
	}
}

func (h *parseHooks) scan(fr *Frame, st *State, fn *ssa.Function, recv Val, site ssa.Instruction) (outs []Outcome) {
	g := st.ghost.(lexGhost)
	next := func(s *State, dom Bits, end bool) {
		g := g
		g.begun = true
		g.eof = end
		sym := s.newChoice(h.lx.u, dom, nil)
		g.cur = []Val{SymRef{sym}}
		s.ghost = g
		if !end {
			s.prog = ^uint64(0)
		}
		h.position(s, recv, fn)
		outs = append(outs, Outcome{st: s, val: h.lx.tab(sym, dom, func(c lexClass) Val { return Int(c.r) })})
	}
	sources := []*State{st}
	if h.faults && !g.eof {
		bad := st.clone()
		bg := g
		bg.erred = true
		bad.ghost = bg
		p, ok := h.field(recv, fn, "Error")
		if !ok {
			panic(undecidable{"the scanner has no Error hook"})
		}
		f := bad.norm(bad.loadPtr(p))
		if c, ok := f.(Clo); ok {
			for _, o := range fr.callFn(bad, c, []Val{recv, term("lexical error")}, site, false) {
				if o.pan != nil {
					outs = append(outs, o)
					continue
				}
				sources = append(sources, o.st)
			}
		} else {
			sources = append(sources, bad)
		}
	}
	for _, s := range sources {
		g = s.ghost.(lexGhost)
		if !g.eof {
			next(s.clone(), fullBits(h.lx.u.N).minus(bit(h.lx.eof)), false)
		}
		next(s, bit(h.lx.eof), true)
	}
	return outs
}

// ------------------------------------------------------------ the run

func parseRun(w *World, prop string, thorough bool) *Result {
	r := newResult("parse")
	topAbsorbs = true
	defer func() { topAbsorbs = false }()
	lx := newLexemes(w)
	r.Stats["lexeme_classes"] = lx.u.N
	fn := w.pkg.Func("Parse")
	if fn == nil {
		panic(undecidable{"no function Parse"})
	}
	for _, faults := range []bool{false, true} {
		h := &parseHooks{w: w, lx: lx, faults: faults, tree: newTree(w), manyValues: 10}
		h.tree.wellFormed()
		h.live = &liveness{h: h, memo: map[string]*liveSummary{}}
		h.flags = h.flagFields()
		e := w.e.fork(h)
		e.graph = e.buildGraph(func(f *ssa.Function) bool { return f.Pkg == w.scn }, w.pkg)
		e.recLim, e.loopLim = 1, 3
		e.thr = h.w.limits()
		st := newState(e)
		st.ghost = lexGhost{}
		outs, top := e.root(fn, st, []Val{term("input text")})
		r.absorb(e, top)
		h.judge(r, outs, fn)
		if !faults {
			_ = sort.Strings
		}
	}
	return r
}

// limits lists the bounds that the package compares counters with.
func (w *World) limits() (out []int64) {
	set := map[int64]bool{-1: true, 0: true, 1: true}
	for _, fn := range w.e.allFuncs(w.pkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				op, ok := in.(*ssa.BinOp)
				if !ok || op.Op != token.LSS && op.Op != token.LEQ && op.Op != token.GTR && op.Op != token.GEQ {
					continue
				}
				for _, x := range []ssa.Value{op.X, op.Y} {
					if c, ok := x.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
						if v, ok := constant.Int64Val(c.Value); ok && v >= 64 && v < 1<<40 {
							set[v-1], set[v], set[v+1] = true, true, true
						}
					}
				}
			}
		}
	}
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

func (h *parseHooks) judge(r *Result, outs []Outcome, fn *ssa.Function) {
	pos := h.w.fnPos(fn)
	for _, o := range outs {
		r.Stats["outcomes"]++
		if o.pan != nil {
			if !h.faults {
				r.add([]string{"C02"}, "panic", panicPos(o.pan, pos), "Parse can panic: %s", panicText(o.pan))
			}
			continue
		}
		splitAll(o.st, func(s *State) {
			a, ok := s.norm(o.val).(Agg)
			if !ok || len(a.F) != 2 {
				panic(undecidable{"the results of Parse"})
			}
			stmt, err := s.concretize(a.F[0]), s.concretize(a.F[1])
			failed := !isNilVal(err)
			some := !isNilVal(stmt)
			g := s.ghost.(lexGhost)
			if !h.faults {
				switch {
				case failed && some:
					r.add([]string{"C01"}, "result", pos, "a statement is returned along with an error")
				case !failed && !some:
					r.add([]string{"C01"}, "result", pos, "neither a statement nor an error is returned")
				}
				if i, ok := stmt.(Iface); ok && some && isNilVal(s.concretize(i.V)) {
					r.add([]string{"C01"}, "result", pos, "the statement wraps a nil pointer")
				}
				if i, ok := err.(Iface); ok && failed && isNilVal(s.concretize(i.V)) {
					r.add([]string{"C01"}, "result", pos, "the error wraps a nil pointer")
				}
				if !failed && !g.eof {
					r.add([]string{"C04"}, "rest", pos, "a parse succeeds without reading the input to its end")
				}
			} else if !failed && g.erred {
				r.add([]string{"C24"}, "lexical-error", pos, "a parse succeeds although the scanner has reported an error")
			}
		})
	}
}

// LexemeIs compares the text of a lexeme with a constant of the program.
func (h *parseHooks) LexemeIs(st *State, l Term, class, c string) Val {
	may := false
	switch class {
	case "int", "float":
		may = c != "" && (c[0] >= '0' && c[0] <= '9' || c[0] == '.')
	case "string":
		may = strings.HasPrefix(c, `"`)
	case "char":
		may = len([]rune(c)) == 1 && c[0] >= 0x80
	}
	if may {
		return st.opaqueEq(l, Str(c))
	}
	return Bool(false)
}
