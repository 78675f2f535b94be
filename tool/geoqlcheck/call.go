package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee resolves the function value of a call and its arguments.
func (fr *Frame) callee(st *State, in *ssa.Defer) (Val, []Val) {
	c := &in.Call
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = fr.val(st, a)
	}
	if c.IsInvoke() {
		recv := st.concretize(fr.val(st, c.Value))
		if i, ok := recv.(Iface); ok && !isStandIn(i.T) {
			if f := fr.e.prog.LookupMethod(i.T, c.Method.Pkg(), c.Method.Name()); f != nil {
				return Clo{F: f}, append([]Val{i.V}, args...)
			}
		}
		key := fr.e.posOf(in) + c.Method.Name()
		fr.e.deferred[key] = in
		return Ext{"invoke." + key}, append([]Val{recv}, args...)
	}
	return st.concretize(fr.val(st, c.Value)), args
}

func (fr *Frame) callDeferred(st *State, d Agg) []Outcome {
	switch f := d.F[0].(type) {
	case Clo:
		return fr.callFn(st, f, d.F[1:], nil, true)
	case Ext:
		if key, ok := strings.CutPrefix(f.Name, "invoke."); ok {
			in := fr.e.deferred[key]
			if isNilVal(d.F[1]) {
				return []Outcome{{st: st, pan: rtPanic(fr.e.posOf(in), "method call on a nil interface")}}
			}
			if outs, ok := fr.e.h.Invoke(fr, st, d.F[1], in.Call.Method, d.F[2:], in); ok {
				return outs
			}
			panic(undecidable{"deferred call of a method of an unknown value"})
		}
		return fr.builtin(st, f.Name, d.F[1:], nil, nil)
	}
	panic(undecidable{"deferred call of an unknown function"})
}

func (fr *Frame) call(st *State, c *ssa.CallCommon, in *ssa.Call) []Outcome {
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = fr.val(st, a)
	}
	if c.IsInvoke() {
		recv := st.norm(fr.val(st, c.Value))
		if outs, ok := fr.e.h.Invoke(fr, st, recv, c.Method, args, in); ok {
			return outs
		}
		recv = st.concretize(recv)
		switch r := recv.(type) {
		case Nil:
			return []Outcome{{st: st, pan: rtPanic(fr.e.posOf(in), "method call on a nil interface")}}
		case Iface:
			if r.T == libErrT || r.T == rtErrT {
				return []Outcome{{st: st, val: term("errtext", r.V)}}
			}
			if r.T == opaqueT {
				return []Outcome{{st: st, val: opaqueResult(st, c.Signature(), term("invoke:"+c.Method.Name(), append([]Val{r.V}, args...)...))}}
			}
			f := fr.e.prog.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name())
			if f == nil {
				panic(undecidable{"no method " + c.Method.Name()})
			}
			return fr.callFn(st, Clo{F: f}, append([]Val{r.V}, args...), in, false)
		}
		fr.e.note("call of a method of an unknown value at " + fr.e.posOf(in))
		return []Outcome{{st: st, val: opaqueResult(st, c.Signature(), term("invoke:"+c.Method.Name(), args...))}}
	}
	fv := st.norm(fr.val(st, c.Value))
	fv = st.concretize(fv)
	switch f := fv.(type) {
	case Ext:
		if strings.HasPrefix(f.Name, "builtin.") {
			return fr.builtin(st, f.Name, args, c, in)
		}
	case Clo:
		return fr.callFn(st, f, args, in, false)
	case Nil:
		return []Outcome{{st: st, pan: rtPanic(fr.e.posOf(in), "call of a nil function")}}
	case Term:
		if hk, ok := fr.e.h.(interface {
			CallValue(fr *Frame, st *State, f Term, args []Val, in ssa.Instruction) ([]Outcome, bool)
		}); ok {
			if outs, ok := hk.CallValue(fr, st, f, args, in); ok {
				return outs
			}
		}
		return []Outcome{{st: st, val: opaqueResult(st, c.Signature(), term("call", append([]Val{f}, args...)...))}}
	}
	panic(undecidable{"call of an unknown function at " + fr.e.posOf(in)})
}

// opaqueResult makes unknown but fixed results of a signature.
func opaqueResult(st *State, sig *types.Signature, t Term) Val {
	mk := func(tt types.Type, t Term) Val {
		switch u := tt.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsBoolean != 0:
				return st.opaqueBool(t)
			case u.Info()&types.IsInteger != 0:
				return st.intFor(intRange(tt, false), intRange(tt, true), t)
			}
			return t
		case *types.Interface:
			if tt.String() == "error" {
				s := st.choiceFor(nilU, fullBits(2), term("errnil", t))
				return st.norm(Tab{s, []Grp{{bit(0), Nil{}}, {bit(1), libErr(t)}}})
			}
			return Iface{opaqueT, t}
		}
		return t
	}
	n := sig.Results().Len()
	switch n {
	case 0:
		return Agg{}
	case 1:
		return mk(sig.Results().At(0).Type(), t)
	}
	f := make([]Val, n)
	for i := range f {
		f[i] = mk(sig.Results().At(i).Type(), term("res", t, Int(i)))
	}
	return Agg{f}
}

// binding relates the names of a context to those of its caller.
type binding struct {
	sym map[SymID]Val
	obj map[ObjID]ObjID
}

func (bd *binding) symVal(s SymID) (Val, bool) { v, ok := bd.sym[s]; return v, ok }

// subst rebuilds a value of a context in the names of the caller.
type subst struct {
	sym func(SymID) Val
	obj func(ObjID) ObjID
}

func (r *subst) val(v Val) Val {
	switch v := v.(type) {
	case Lin:
		switch t := r.sym(v.S).(type) {
		case Int:
			return t + Int(v.O)
		case Lin:
			return Lin{t.S, t.O + v.O}
		}
		panic("subst lin")
	case SymRef:
		switch t := r.sym(v.S).(type) {
		case SymRef:
			return t
		case Lin:
			if t.O == 0 {
				return SymRef{t.S}
			}
			return t
		default:
			return t
		}
	case Tab:
		g := make([]Grp, len(v.G))
		for i := range v.G {
			g[i] = Grp{v.G[i].Set, r.val(v.G[i].V)}
		}
		return Tab{r.sym(v.S).(SymRef).S, g}
	case Term:
		return Term{v.Op, r.list(v.A)}
	case Ptr:
		return Ptr{r.obj(v.O), v.P}
	case In:
		return In{r.val(v.T).(Term)}
	case InSlice:
		return InSlice{r.val(v.T).(Term)}
	case InMap:
		return InMap{r.val(v.T).(Term)}
	case Iface:
		return Iface{v.T, r.val(v.V)}
	case Slice:
		s := Slice{O: r.obj(v.O)}
		if v.Shared != 0 {
			s.Shared = r.obj(v.Shared)
		}
		return s
	case MapV:
		return MapV{r.obj(v.O)}
	case Agg:
		return Agg{r.list(v.F)}
	case Clo:
		return Clo{v.F, r.list(v.B)}
	case Seg:
		return Seg{v.Kind, r.list(v.A)}
	}
	return v
}

func (r *subst) list(vs []Val) []Val {
	if vs == nil {
		return nil
	}
	out := make([]Val, len(vs))
	for i, a := range vs {
		out[i] = r.val(a)
	}
	return out
}

// localise builds the entry state of a call: what args, ghost and the
// running panic can reach, renamed.
func (st *State) localise(args []Val, g Ghost, pan Val) (*State, []Val, *binding, string) {
	args = st.normList(args)
	groots := st.normList(g.Roots())
	var proots []Val
	if pan != nil {
		pan = st.deepNorm(pan)
		proots = []Val{pan}
	}
	r := st.reach(args, groots, proots)
	// objects reached must be in normal form
	for _, o := range r.objs {
		ob := st.obj(o)
		for i, v := range ob.F {
			if w := st.deepNorm(v); !eqVal(v, w) {
				f := append([]Val(nil), ob.F...)
				f[i] = w
				for j := i + 1; j < len(f); j++ {
					f[j] = st.deepNorm(f[j])
				}
				st.objs[o] = &Obj{ob.Shape, ob.T, f}
				break
			}
		}
	}
	r = st.reach(args, groots, proots)
	n := newState(st.e)
	bd := &binding{map[SymID]Val{}, map[ObjID]ObjID{}}
	rm := &remap{
		sym: func(s SymID) SymID {
			if s == 0 {
				return 0
			}
			return SymID(r.sIdx[s] + 1)
		},
		obj: func(o ObjID) ObjID {
			if o <= 0 {
				return o
			}
			return ObjID(r.oIdx[o] + 1)
		},
	}
	for i, s := range r.syms {
		si := *st.syms[s]
		if si.Def != nil {
			si.Def = rm.val(si.Def)
		}
		id := SymID(i + 1)
		n.syms[id] = &si
		if si.U != nil {
			bd.sym[id] = SymRef{s}
		} else {
			bd.sym[id] = Lin{s, 0}
		}
	}
	for i, o := range r.objs {
		ob := st.obj(o)
		id := ObjID(i + 1)
		n.objs[id] = &Obj{ob.Shape, ob.T, rm.list(ob.F)}
		bd.obj[id] = o
	}
	for k, c := range st.rel {
		_, ok0 := r.sIdx[k[0]]
		_, ok1 := r.sIdx[k[1]]
		if ok0 && ok1 {
			n.rel[[2]SymID{rm.sym(k[0]), rm.sym(k[1])}] = c
		}
	}
	n.nextO, n.nextS = ObjID(len(r.objs)), SymID(len(r.syms))
	n.anchO, n.anchS = n.nextO, n.nextS
	n.ghost = g.With(rm.list(groots))
	if pan != nil {
		n.pan = rm.val(pan)
	}
	nargs := rm.list(args)
	key := n.canonKey(n.reach(nargs, n.ghost.Roots(), proots2(n.pan)), nargs, n.ghost.Roots(), proots2(n.pan))
	return n, nargs, bd, key
}

func proots2(p Val) []Val {
	if p == nil {
		return nil
	}
	return []Val{p}
}

func (fr *Frame) callFn(st *State, f Clo, args []Val, site ssa.Instruction, deferred bool) []Outcome {
	e := fr.e
	fn := f.F
	if outs, ok := e.h.Call(fr, st, fn, args, site); ok {
		return outs
	}
	if len(fn.Blocks) == 0 {
		if outs, ok := fr.model(st, fn, args, site); ok {
			return outs
		}
		e.assumed[fn.String()] = true
		return []Outcome{{st: st, val: opaqueResult(st, fn.Signature, term("ext:"+fn.String(), args...))}}
	}
	if len(e.stack) > 400 {
		panic(hopeless{"calls nest too deeply"})
	}
	all := append(append([]Val(nil), args...), f.B...)
	g, hidden := e.h.Enter(st, fn)
	var pan Val
	if deferred {
		pan = st.pan
	}
	from := st
	if b, ok := e.h.(interface {
		Blur(fr *Frame, st *State, fn *ssa.Function, args []Val, g Ghost) (*State, Ghost)
	}); ok && !deferred {
		from, g = b.Blur(fr, st, fn, all, g)
	}
	entry, eargs, bd, key := from.localise(all, g, pan)
	ctx, cb := fr.context(fn, entry, eargs, key)
	fr.ctx.subs[ctx] = true
	fr.ctx.calls++
	rec := e.graph != nil && e.graph.rec[fn]
	if rec || ctx.dependsRec {
		fr.ctx.dependsRec = true
	}
	if rec && e.graph.rec[fr.ctx.fn] {
		fr.noteEdge(st, ctx, bd, cb)
	}
	if !ctx.active && (!ctx.done || (rec || ctx.dependsRec) && ctx.lastRound != e.round) {
		e.analyze(ctx)
		ctx.done = true
		if ctx.dependsRec {
			fr.ctx.dependsRec = true
		}
	}
	// names of the context -> names of the caller
	full := &binding{map[SymID]Val{}, map[ObjID]ObjID{}}
	if cb == nil {
		full = bd
	} else {
		sb := &subst{sym: func(s SymID) Val { return bd.sym[s] }, obj: func(o ObjID) ObjID { return bd.obj[o] }}
		for s, v := range cb.sym {
			if _, ok := v.(chosenV); ok {
				full.sym[s] = v
				continue
			}
			full.sym[s] = sb.val(v)
		}
		for o, p := range cb.obj {
			full.obj[o] = bd.obj[p]
		}
	}
	var outs []Outcome
	nres := fn.Signature.Results().Len()
	for _, ex := range ctx.exits {
		s, vals, ok := st.applyExit(ctx, ex, full, hidden, deferred, e)
		if !ok {
			continue
		}
		var v Val
		switch nres {
		case 1:
			v = vals[0]
		default:
			v = Agg{vals}
		}
		outs = append(outs, Outcome{st: s, val: v})
	}
	for _, ex := range ctx.pexits {
		s, vals, ok := st.applyExit(ctx, ex, full, hidden, deferred, e)
		if ok {
			outs = append(outs, Outcome{st: s, pan: vals[0]})
		}
	}
	return outs
}

func (st *State) applyExit(ctx *Ctx, ex item, bd *binding, hidden any, deferred bool, e *Engine) (*State, []Val, bool) {
	s := st.clone()
	x := ex.st
	newSym := map[SymID]Val{}
	var rb *subst
	rb = &subst{
		sym: func(id SymID) Val {
			if id == 0 {
				return Int(0)
			}
			if v, ok := newSym[id]; ok {
				return v
			}
			si, ok := x.syms[id]
			if !ok {
				panic(fmt.Sprintf("exit of %s mentions symbol %d", ctx.fn, id))
			}
			if v, ok := bd.sym[id]; ok && id <= ctx.entry.anchS {
				if c, ok := v.(chosenV); ok {
					v = SymRef{s.newChoice(c.u, c.d, nil)}
				}
				newSym[id] = v
				return v
			}
			n := *si
			if n.Def != nil {
				n.Def = rb.val(n.Def)
				if t, ok := s.findSym(n.Def); ok {
					var v Val = SymRef{t}
					if n.U == nil {
						v = Lin{t, 0}
					}
					newSym[id] = v
					return v
				}
			}
			s.nextS++
			nid := s.nextS
			s.syms[nid] = &n
			var v Val = SymRef{nid}
			if n.U == nil {
				v = Lin{nid, 0}
			}
			newSym[id] = v
			return v
		},
		obj: nil,
	}
	newObj := map[ObjID]ObjID{}
	rb.obj = func(o ObjID) ObjID {
		if o <= 0 {
			return o
		}
		if p, ok := newObj[o]; ok {
			return p
		}
		if p, ok := bd.obj[o]; ok && o <= ctx.entry.anchO {
			newObj[o] = p
			return p
		}
		s.nextO++
		newObj[o] = s.nextO
		return s.nextO
	}
	ids := make([]ObjID, 0, len(x.objs))
	for o := range x.objs {
		ids = append(ids, o)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, o := range ids {
		ob := x.objs[o]
		if eo, ok := ctx.entry.objs[o]; ok && o <= ctx.entry.anchO && eo == ob {
			continue
		}
		if o <= ctx.entry.anchO {
			if _, ok := bd.obj[o]; !ok {
				continue
			}
		}
		id := rb.obj(o)
		s.objs[id] = &Obj{ob.Shape, ob.T, rb.list(ob.F)}
	}
	vals := rb.list(ex.vals)
	gr := x.ghost.With(rb.list(x.ghost.Roots()))
	pan := Val(nil)
	if x.pan != nil {
		pan = rb.val(x.pan)
	}
	if e.keepNamed {
		for _, id := range sortedSyms(x) {
			if id > ctx.entry.anchS && x.syms[id].Def != nil {
				rb.sym(id)
			}
		}
	}
	// narrow the caller's symbols to what holds at this exit
	sids := make([]SymID, 0, len(x.syms))
	for id := range x.syms {
		sids = append(sids, id)
	}
	sort.Slice(sids, func(i, j int) bool { return sids[i] < sids[j] })
	for _, id := range sids {
		si := x.syms[id]
		v, ok := newSym[id]
		if !ok {
			if v, ok = bd.sym[id]; !ok || id > ctx.entry.anchS {
				continue
			}
		}
		if c, ok := v.(chosenV); ok {
			if !c.d.overlaps(si.Dom) {
				return nil, nil, false
			}
			continue
		}
		if si.U != nil {
			id, ok := SymID(0), false
			switch v := v.(type) {
			case SymRef:
				id, ok = v.S, true
			case Lin:
				id, ok = v.S, true
			}
			if ok && !s.restrict(id, si.Dom) {
				return nil, nil, false
			}
			continue
		}
		if si.Lo > negInf && !s.assumeLE(Int(si.Lo), 0, v) || si.Hi < posInf && !s.assumeLE(v, 0, Int(si.Hi)) {
			return nil, nil, false
		}
	}
	for k, c := range x.rel {
		a, ok1 := newSym[k[0]]
		b, ok2 := newSym[k[1]]
		if !ok1 && k[0] <= ctx.entry.anchS {
			a, ok1 = bd.sym[k[0]]
		}
		if !ok2 && k[1] <= ctx.entry.anchS {
			b, ok2 = bd.sym[k[1]]
		}
		if ok1 && ok2 && !s.assumeLE(a, -c, b) {
			return nil, nil, false
		}
	}
	s.ghost = e.h.Leave(s, hidden, gr)
	if deferred {
		s.pan = pan
	}
	if x.prog>>63 != 0 {
		s.prog = ^uint64(0)
	}
	return s, vals, true
}

// context finds or makes the context for an entry state. The binding maps
// names of the context to names of entry; nil means they are the same.
func (fr *Frame) context(fn *ssa.Function, entry *State, args []Val, key string) (*Ctx, *binding) {
	e := fr.e
	k := fn.String() + "#" + key
	if c, ok := e.ctxs[k]; ok {
		return c, nil
	}
	rec := e.graph != nil && e.graph.rec[fn]
	if rec {
		for _, c := range e.rec[fn] {
			if bd, ok := c.covers(entry, args); ok {
				return c, bd
			}
		}
		grow := func(c *Ctx, m item) (*Ctx, *binding) {
			n := &Ctx{id: len(e.allCtx), fn: fn, entry: m.st, args: m.vals, grown: c.grown + 1}
			n.entry.anchO, n.entry.anchS = n.entry.nextO, n.entry.nextS
			e.allCtx = append(e.allCtx, n)
			for i, x := range e.rec[fn] {
				if x == c {
					e.rec[fn][i] = n
				}
			}
			delete(e.ctxs, c.key)
			e.changed = true
			bd, ok := n.covers(entry, args)
			if !ok {
				panic(undecidable{"a merged context does not cover the call of " + fn.Name()})
			}
			return n, bd
		}
		for _, c := range e.rec[fn] {
			if m, ok := merge(c.entryItem(), item{unanch(entry), args}, mergeExact); ok {
				return grow(c, m)
			}
		}
		lim := e.recLim
		if len(e.rec[fn]) >= lim {
			for _, c := range e.rec[fn] {
				mode := mergeHull
				if c.grown > 0 {
					mode = mergeWiden
				}
				if c.grown > 4 {
					mode = mergeLast
				}
				if m, ok := merge(c.entryItem(), item{unanch(entry), args}, mode); ok {
					return grow(c, m)
				}
			}
		}
		if len(e.rec[fn]) > 600 {
			panic(hopeless{"too many contexts of " + fn.Name()})
		}
	}
	c := &Ctx{id: len(e.allCtx), fn: fn, entry: entry, args: args, key: k}
	if debugCtx == "*" {
		fmt.Fprintln(os.Stderr, "CONTEXT", fn.Name(), c.id)
	}
	if debugCtx == fn.Name() {
		fmt.Fprintln(os.Stderr, "CONTEXT", c.id, entry.canonKey(entry.reach(args, entry.allRoots()), args, entry.allRoots()))
	}
	e.allCtx = append(e.allCtx, c)
	e.ctxs[k] = c
	if rec {
		e.rec[fn] = append(e.rec[fn], c)
		e.changed = true
	}
	return c, nil
}

func (c *Ctx) entryItem() item { return item{unanch(c.entry), c.args} }

func unanch(s *State) *State {
	n := *s
	n.anchO, n.anchS = 0, 0
	n.regs = nil
	return &n
}

// covers reports whether the context describes the entry state.
func (c *Ctx) covers(entry *State, args []Val) (*binding, bool) {
	a, b := unanch(c.entry), unanch(entry)
	u, ok := subsume(item{b, args}, item{a, c.args})
	if !ok {
		return nil, false
	}
	bd := &binding{map[SymID]Val{}, map[ObjID]ObjID{}}
	for s, t := range u.symAB {
		if a.syms[s].U != nil {
			bd.sym[s] = SymRef{t}
		} else {
			bd.sym[s] = Lin{t, 0}
		}
	}
	for s, v := range u.inst {
		bd.sym[s] = v
	}
	for s, d := range u.chosen {
		if _, ok := bd.sym[s]; !ok {
			bd.sym[s] = chosenV{a.syms[s].U, d}
		}
	}
	for o, p := range u.objAB {
		bd.obj[o] = p
	}
	return bd, true
}

// chosenV stands for a choice of a context that the caller has decided.
type chosenV struct {
	u *Universe
	d Bits
}

// addExit records one way in which the function ends.
func (fr *Frame) addExit(it item, pan bool) {
	c := fr.ctx
	st := it.st
	st.regs = nil
	st.prev = 0
	st.defers = nil
	st.prog &= 1 << 63
	if !pan {
		// the panic that a deferred call runs under is part of the exit
	}
	for i := range it.vals {
		it.vals[i] = st.deepNorm(it.vals[i])
	}
	st.ghost = st.ghost.With(st.normList(st.ghost.Roots()))
	st.normObjs()
	st.gc(it.vals)
	if pan && debugCtx == "pan" {
		println("PANIC", fr.fi.fn.Name(), keyOf(it.vals[0]))
	}
	list := &c.exits
	if pan {
		list = &c.pexits
	}
	for _, x := range *list {
		if subsumedBy(it, x) {
			return
		}
	}
	fr.e.exitsAdded++
	c.exitGrew = true
	if fr.e.graph != nil && fr.e.graph.rec[c.fn] {
		fr.e.changed = true
	}
	cur := it
	for again := true; again; {
		again = false
		for i, x := range *list {
			if m, ok := merge(x, cur, mergeExact); ok {
				*list = append(append([]item(nil), (*list)[:i]...), (*list)[i+1:]...)
				cur = m
				again = true
				break
			}
		}
	}
	if len(*list) > 60 {
		for i, x := range *list {
			if m, ok := merge(x, cur, mergeWiden); ok {
				*list = append(append([]item(nil), (*list)[:i]...), (*list)[i+1:]...)
				cur = m
				break
			}
		}
	}
	if len(*list) > 4000 {
		panic(hopeless{"too many exits of " + c.fn.String()})
	}
	kept := (*list)[:0]
	for _, x := range *list {
		if !subsumedBy(x, cur) {
			kept = append(kept, x)
		}
	}
	*list = append(kept, cur)
}

// ------------------------------------------------------------ rounds

// root analyses fn from the given state until nothing changes and returns
// the outcomes in the names of st.
func (e *Engine) root(fn *ssa.Function, st *State, args []Val) (outs []Outcome, top *Ctx) {
	for e.round = 1; ; e.round++ {
		e.changed = false
		s := st.clone()
		top = &Ctx{id: -1, fn: fn, viols: map[string]Violation{}, subs: map[*Ctx]bool{}, edges: map[*Ctx]*callEdge{}}
		fr := &Frame{e: e, ctx: top, fi: e.info(fn), pending: map[int][]*State{}, seen: map[int][]*headState{},
			noprog: map[int]map[int]bool{}, undec: map[int]bool{}, from: map[*State]map[int]int{}}
		outs = fr.callFn(s, Clo{F: fn}, args, nil, false)
		if !e.changed {
			break
		}
		if e.round > 60 {
			panic(hopeless{"no fixpoint after 60 rounds"})
		}
	}
	return
}

// reached lists the contexts used by top.
func reached(top *Ctx) []*Ctx {
	seen := map[*Ctx]bool{top: true}
	list := []*Ctx{top}
	for i := 0; i < len(list); i++ {
		var subs []*Ctx
		for s := range list[i].subs {
			subs = append(subs, s)
		}
		sort.Slice(subs, func(a, b int) bool { return subs[a].id < subs[b].id })
		for _, s := range subs {
			if !seen[s] {
				seen[s] = true
				list = append(list, s)
			}
		}
	}
	return list
}

func violations(top *Ctx) (out []Violation) {
	m := map[string]Violation{}
	for _, c := range reached(top) {
		for k, v := range c.viols {
			m[k] = v
		}
	}
	for _, k := range sortedKeys(m) {
		out = append(out, m[k])
	}
	return
}

// ------------------------------------------------------------ call graph

type callGraph struct {
	rec map[*ssa.Function]bool
	out map[*ssa.Function]map[*ssa.Function]bool
}

// buildGraph finds the functions that can call themselves. Interface
// calls reach every method of that name declared in the packages.
func (e *Engine) buildGraph(cut func(*ssa.Function) bool, pkgs ...*ssa.Package) *callGraph {
	g := &callGraph{map[*ssa.Function]bool{}, map[*ssa.Function]map[*ssa.Function]bool{}}
	fns := e.allFuncs(pkgs...)
	byName := map[string][]*ssa.Function{}
	for _, f := range fns {
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	for i := 0; i < len(fns); i++ {
		f := fns[i]
		g.out[f] = map[*ssa.Function]bool{}
		if cut != nil && cut(f) {
			continue
		}
		add := func(t *ssa.Function) {
			if cut != nil && cut(t) {
				return
			}
			if _, ok := g.out[t]; !ok && len(t.Blocks) > 0 {
				known := false
				for _, x := range fns {
					if x == t {
						known = true
					}
				}
				if !known {
					fns = append(fns, t)
				}
			}
			g.out[f][t] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						for _, t := range byName[cc.Method.Name()] {
							add(t)
						}
					} else if t := cc.StaticCallee(); t != nil {
						add(t)
					}
				}
				// function values may be called by whoever gets them
				for _, op := range in.Operands(nil) {
					if t, ok := (*op).(*ssa.Function); ok && len(t.Blocks) > 0 {
						add(t)
					}
				}
			}
		}
	}
	// strongly connected components
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for t := range g.out[f] {
			if idx[t] == 0 {
				visit(t)
				if low[t] < low[f] {
					low[f] = low[t]
				}
			} else if on[t] && idx[t] < low[f] {
				low[f] = idx[t]
			}
		}
		if low[f] == idx[f] {
			var comp []*ssa.Function
			for {
				t := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[t] = false
				comp = append(comp, t)
				if t == f {
					break
				}
			}
			if len(comp) > 1 || g.out[f][f] {
				for _, t := range comp {
					g.rec[t] = true
				}
			}
		}
	}
	for _, f := range fns {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return g
}

// ------------------------------------------------------------ recursion

// callEdge describes how recursive contexts call each other.
type callEdge struct {
	noprog bool             // possible without reading a token
	delta  map[string]int64 // integer places of shared objects: least increase
}

func (fr *Frame) noteEdge(st *State, to *Ctx, bd, cb *binding) {
	ed := fr.ctx.edges[to]
	if ed == nil {
		ed = &callEdge{}
		fr.ctx.edges[to] = ed
	}
	if st.prog>>63 == 0 {
		ed.noprog = true
	}
	now := intPlaces(st, nil)
	was := intPlaces(fr.ctx.entry, nil)
	d := map[string]int64{}
	for k, v := range now {
		w, ok := was[k]
		if !ok {
			continue
		}
		// least value of v-w
		if u, ok := st.upper(w, v); ok && u < posInf {
			d[k] = -u
		}
	}
	if ed.delta == nil {
		ed.delta = d
		return
	}
	for k, v := range ed.delta {
		w, ok := d[k]
		if !ok {
			delete(ed.delta, k)
		} else if w < v {
			ed.delta[k] = w
		}
	}
}

// intPlaces lists the integers in the caller's objects of named struct
// types, by type and path.
func intPlaces(st *State, _ any) map[string]Val {
	out := map[string]Val{}
	for o := ObjID(1); o <= st.anchO; o++ {
		ob, ok := st.objs[o]
		if !ok || ob.Shape != "cell" || ob.T == nil {
			continue
		}
		n, ok := ob.T.(*types.Named)
		if !ok {
			continue
		}
		a, ok := ob.F[0].(Agg)
		if !ok {
			continue
		}
		for i, v := range a.F {
			switch v := st.norm(v).(type) {
			case Int, Lin:
				out[fmt.Sprintf("%s#%d.%d", n.Obj().Name(), o, i)] = v
			}
		}
	}
	return out
}
