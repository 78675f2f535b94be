package main

import (
	"go/types"
	"slices"

	"golang.org/x/tools/go/ssa"
)

// The walk analysis interprets Walk on a symbolic node and compares the
// visitor calls and the recursive calls with the parts of the node type.

type specHooks struct {
	baseHooks
	t     *Tree
	spec  *Spec
	props []string
	kind  string
}

func (h *specHooks) KeepNamed() bool { return true }

func (h *specHooks) Input(st *State, prov Term, t types.Type) Val { return h.t.load(st, prov, t) }

// emitEvent feeds an event to the specification and returns the states
// that go on.
func (h *specHooks) emitEvent(fr *Frame, st *State, site ssa.Instruction, ev Event) []*State {
	g := st.ghost.(specGhost)
	var out []*State
	for _, o := range h.spec.feed(st, g, ev) {
		if o.msg != "" {
			fr.report(h.classify(o.st, ev), h.kind, site, "%s", h.explain(o.st, o.msg))
			continue
		}
		o.st.ghost = o.g
		out = append(out, o.st)
	}
	return out
}

func (h *specHooks) classify(st *State, ev Event) []string { return h.props }

// explain adds the choices that lead to a violation.
func (h *specHooks) explain(st *State, msg string) string {
	for _, id := range sortedSyms(st) {
		si := st.syms[id]
		if si.U == h.t.typeU && si.Def != nil && si.Dom.count() <= 2 {
			msg += " [" + placeName(h.t, si.Def) + " is " + si.U.describe(si.Dom) + "]"
		}
	}
	return msg
}

func sortedSyms(st *State) []SymID {
	out := make([]SymID, 0, len(st.syms))
	for id := range st.syms {
		out = append(out, id)
	}
	slices.Sort(out)
	return out
}

func placeName(t *Tree, v Val) string {
	x, ok := v.(Term)
	if !ok {
		return keyOf(v)
	}
	if x.Op == "dyn" || x.Op == "int" || x.Op == "isnil" {
		return placeName(t, x.A[0])
	}
	if k := t.placeKey(x); k != "" {
		return k
	}
	return keyOf(v)
}

func init() { runs["walk"] = walkRun; plan["C17"] = []string{"walk"} }

type walkHooks struct {
	specHooks
	walk *ssa.Function
	node Term
	v0   Val
}

func (h *walkHooks) Invoke(fr *Frame, st *State, recv Val, m *types.Func, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	recv = st.concretize(recv)
	r, ok := recv.(Iface)
	if !ok || r.T != opaqueT || m.Name() != "Visit" {
		return nil, false
	}
	arg := st.norm(args[0])
	if !isNilVal(arg) && hasNil(arg) {
		arg = st.concretize(arg)
	}
	var outs []Outcome
	for _, s := range h.emitEvent(fr, st, site, Event{kind: "visit", v: []Val{r.V, s0(arg)}}) {
		if isNilVal(arg) {
			outs = append(outs, Outcome{st: s, val: Iface{opaqueT, term("closing")}})
			continue
		}
		p, _ := placeOf(arg)
		no := s.clone()
		c1 := no.choiceFor(nilU, fullBits(2), term("pruned", p))
		no.restrict(c1, bit(0))
		outs = append(outs, Outcome{st: no, val: Nil{}})
		c2 := s.choiceFor(nilU, fullBits(2), term("pruned", p))
		s.restrict(c2, bit(1))
		outs = append(outs, Outcome{st: s, val: Iface{opaqueT, term("visitor", p)}})
	}
	return outs, true
}

func s0(v Val) Val { return v }

func isNilVal(v Val) bool { _, ok := v.(Nil); return ok }

func (h *walkHooks) Call(fr *Frame, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	if fn != h.walk || site == nil {
		return nil, false
	}
	v := st.concretize(args[0])
	arg := st.norm(args[1])
	if !isNilVal(arg) && hasNil(arg) {
		arg = st.concretize(arg)
	}
	var vv Val = v
	if i, ok := v.(Iface); ok && i.T == opaqueT {
		vv = i.V
	}
	var outs []Outcome
	for _, s := range h.emitEvent(fr, st, site, Event{kind: "walk", v: []Val{vv, arg}}) {
		outs = append(outs, Outcome{st: s, val: Agg{}})
	}
	return outs, true
}

func (h *walkHooks) CallValue(fr *Frame, st *State, f Term, args []Val, in ssa.Instruction) ([]Outcome, bool) {
	var outs []Outcome
	for _, s := range h.emitEvent(fr, st, in, Event{kind: "call", v: append([]Val{f}, args...)}) {
		outs = append(outs, Outcome{st: s, val: s.opaqueBool(term("answer", f))})
	}
	return outs, true
}

func (h *walkHooks) Return(fr *Frame, st *State, vals []Val) []item { return []item{{st, vals}} }

func walkRun(w *World, prop string, thorough bool) *Result {
	r := newResult("walk")
	r.Rules = append(r.Rules, "Walk(v, n) = v.Visit(n); nothing more if that returns nil; otherwise Walk(returned visitor, part) for every present part of n in field order, then Visit(nil) on the returned visitor; the parts are all fields of node type of the struct type")
	t := newTree(w)
	t.nilable = map[string]bool{}
	for _, n := range t.nodes {
		if s, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				t.nilable[n.Obj().Name()+"."+s.Field(i).Name()] = false
			}
		}
	}
	t.wellFormed()
	walk := w.fn("Walk")
	for _, n := range t.nodes {
		name := n.Obj().Name()
		node := term("root")
		h := &walkHooks{walk: walk, node: node}
		h.t, h.props, h.kind = t, []string{"C17"}, "walk"
		v0 := term("v0")
		v1 := term("visitor", node)
		sp := &Spec{}
		sp.ev("Visit("+name+")", func(st *State, _ []Val, ev Event) bool {
			p, ok := placeOf(ev.v[1])
			return ev.kind == "visit" && eqVal(ev.v[0], v0) && ok && eqVal(p, node)
		})
		sp.iff(func(st *State, _ []Val) bool {
			return st.splitBy(st.choiceFor(nilU, fullBits(2), term("pruned", node)), bit(1))
		}, func() {
			for _, c := range t.children(n) {
				c := c
				place := func(idx []Val) Term {
					p := term("fld", term("obj:"+name, node), Int(c.field))
					if c.list {
						return term("elem", p, idx[len(idx)-1])
					}
					return p
				}
				one := func() {
					sp.iff(func(st *State, idx []Val) bool { return t.present(st, place(idx), c.typ) }, func() {
						sp.ev("Walk of "+name+"."+c.name, func(st *State, idx []Val, ev Event) bool {
							if ev.kind == "visit" || len(ev.v) < 2 {
								return false
							}
							p, ok := placeOf(ev.v[1])
							return ok && eqVal(p, place(idx)) && eqVal(ev.v[0], v1)
						})
					}, nil)
				}
				if c.list {
					sp.loop(func(st *State, _ []Val) Val {
						return st.intFor(0, posInf, term("len", term("fld", term("obj:"+name, node), Int(c.field))))
					}, one, nil)
				} else {
					one()
				}
			}
			sp.ev("Visit(nil) after the parts of "+name, func(st *State, _ []Val, ev Event) bool {
				return ev.kind == "visit" && eqVal(ev.v[0], v1) && isNilVal(ev.v[1])
			})
		}, nil)
		sp.end()
		h.spec = sp
		e := w.e.fork(h)
		st := newState(e)
		st.ghost = specGhost{}
		ptr := types.NewPointer(n)
		outs, top := e.root(walk, st, []Val{Iface{opaqueT, v0}, Iface{ptr, In{term("obj:"+name, node)}}})
		r.absorb(e, top)
		r.Stats["node_types"]++
		r.Stats["parts"] += len(t.children(n))
		h.check(r, outs, w, walk, "Walk of "+name)
	}
	visitRun(w, t, r)
	r.Samples = append(r.Samples, "Walk(v0, *Trigger): Visit, Walk(Vars[i])…, Walk(When), Walk(RepeatCount if present) …, Visit(nil)")
	return r
}

// check looks at how a root call ended.
func (h *specHooks) check(r *Result, outs []Outcome, w *World, fn *ssa.Function, what string) {
	pos := w.fnPos(fn)
	for _, o := range outs {
		r.Stats["outcomes"]++
		if o.pan != nil {
			r.add(append([]string{"C02"}, h.props...), h.kind+"-panic", panicPos(o.pan, pos), "%s", h.explain(o.st, what+" panics: "+panicText(o.pan)))
			continue
		}
		func() {
			for _, st := range splitAll(o.st, func(s *State) {
				for _, b := range h.spec.finish(s.clone(), s.ghost.(specGhost)) {
					r.add(h.props, h.kind, pos, "%s", h.explain(b.st, what+": "+b.msg))
				}
			}) {
				_ = st
			}
		}()
	}
	if len(outs) == 0 && !r.partial() {
		r.add(h.props, h.kind, pos, "%s never returns", what)
	}
}

// splitAll runs f on the state, splitting it as f requires.
func splitAll(st *State, f func(s *State)) []*State {
	sp := func() (sp *splitReq) {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(splitReq); ok {
					sp = &s
					return
				}
				panic(r)
			}
		}()
		f(st)
		return nil
	}()
	if sp == nil {
		return []*State{st}
	}
	var out []*State
	sp.S = st.splitSym(sp)
	for _, set := range sp.Sets {
		s := st.clone()
		if s.restrict(sp.S, set) {
			out = append(out, splitAll(s, f)...)
		}
	}
	return out
}

func panicText(v Val) string {
	if i, ok := v.(Iface); ok {
		if t, ok := i.V.(Term); ok && t.Op == "rterr" {
			return string(t.A[1].(Str))
		}
	}
	return keyOf(v)
}

func panicPos(v Val, def string) string {
	if i, ok := v.(Iface); ok {
		if t, ok := i.V.(Term); ok && t.Op == "rterr" {
			return string(t.A[0].(Str))
		}
	}
	return def
}

func (w *World) fnPos(fn *ssa.Function) string {
	p := w.prog.Fset.Position(fn.Pos())
	name := p.Filename
	if len(name) > 6 && name[:6] == "/repo/" {
		name = name[6:]
	}
	return name + ":" + itoa(p.Line) + " " + fn.Name()
}

func itoa(i int) string { return keyOf(Int(i)) }

// present decides whether a part is there.
func (t *Tree) present(st *State, p Term, ty types.Type) bool {
	v := t.load(st, p, ty)
	if tb, ok := v.(Tab); ok {
		nils := Bits{}
		for _, g := range tb.G {
			if isNilVal(g.V) {
				nils = nils.or(g.Set)
			}
		}
		return !st.splitBy(tb.S, nils)
	}
	return !isNilVal(v)
}

// visitRun checks the convenience function Visit and its visitor.
func visitRun(w *World, t *Tree, r *Result) {
	visit := w.pkg.Func("Visit")
	if visit == nil {
		return
	}
	walk := w.fn("Walk")
	var vis Val
	node := term("root")
	f := term("f")
	h := &walkHooks{walk: walk, node: node}
	h.t, h.props, h.kind = t, []string{"C17"}, "walk"
	sp := &Spec{}
	sp.ev("Walk of the expression", func(st *State, _ []Val, ev Event) bool {
		if ev.kind != "walk" {
			return false
		}
		vis = ev.v[0]
		p, ok := placeOf(ev.v[1])
		return ok && eqVal(p, node)
	})
	sp.end()
	h.spec = sp
	e := w.e.fork(h)
	st := newState(e)
	st.ghost = specGhost{}
	outs, top := e.root(visit, st, []Val{t.exprAt(st, node), f})
	r.absorb(e, top)
	h.check(r, outs, w, visit, "Visit")
	vi, ok := vis.(Iface)
	if !ok {
		r.add([]string{"C17"}, "walk", w.fnPos(visit), "Visit does not walk with a visitor made of its function")
		return
	}
	m := w.prog.LookupMethod(vi.T, w.pkg.Pkg, "Visit")
	if m == nil {
		return
	}
	for _, arg := range []string{"node", "nil"} {
		sp2 := &Spec{}
		sp2.ev("call of the function with the node", func(st *State, _ []Val, ev Event) bool {
			if ev.kind != "call" || len(ev.v) != 2 || !eqVal(ev.v[0], f) {
				return false
			}
			if arg == "nil" {
				return isNilVal(ev.v[1])
			}
			p, ok := placeOf(ev.v[1])
			return ok && eqVal(p, node)
		})
		sp2.end()
		h2 := &walkHooks{walk: walk, node: node}
		h2.t, h2.props, h2.kind, h2.spec = t, []string{"C17"}, "walk", sp2
		e2 := w.e.fork(h2)
		st2 := newState(e2)
		st2.ghost = specGhost{}
		var av Val = Nil{}
		if arg == "node" {
			av = t.exprAt(st2, node)
		}
		outs, top := e2.root(m, st2, []Val{vi.V, av})
		r.absorb(e2, top)
		h2.check(r, outs, w, m, "the visitor of Visit")
		for _, o := range outs {
			if o.pan != nil || arg == "nil" {
				continue
			}
			splitAll(o.st, func(s *State) {
				ans := s.choiceFor(boolU, fullBits(2), term("answer", f))
				yes := s.splitBy(ans, bit(1))
				got := s.concretize(o.val)
				if yes && !eqVal(got, vi) || !yes && !isNilVal(got) {
					r.add([]string{"C17"}, "walk", w.fnPos(m), "the visitor of Visit must go on with itself exactly when the function returns true")
				}
			})
		}
	}
}
