package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Obj is a heap object; immutable once stored in a state.
type Obj struct {
	Shape string
	T     types.Type
	F     []Val
}

// Ghost is the specification state that travels with the program state.
type Ghost interface {
	Shape() string
	Roots() []Val
	With(roots []Val) Ghost
}

type noGhost struct{}

func (noGhost) Shape() string    { return "" }
func (noGhost) Roots() []Val     { return nil }
func (noGhost) With([]Val) Ghost { return noGhost{} }

// State is one abstract state: it stands for every concrete state that
// agrees with its values for some choice of its symbols.
type State struct {
	e      *Engine
	objs   map[ObjID]*Obj
	syms   map[SymID]*SymInfo
	rel    map[[2]SymID]int64 // [a,b]=c: a-b <= c
	nextO  ObjID
	nextS  SymID
	regs   []Val
	defers []Val
	pan    Val // value of the running panic, for deferred calls
	ghost  Ghost
	prog   uint64 // loops of this function that have made progress
	prev   int    // predecessor block, for phis
	anchO  ObjID  // objects and symbols up to these belong to the caller
	anchS  SymID
}

func newState(e *Engine) *State {
	return &State{e: e, objs: map[ObjID]*Obj{}, syms: map[SymID]*SymInfo{}, rel: map[[2]SymID]int64{}, ghost: noGhost{}}
}

func (st *State) clone() *State {
	n := *st
	n.objs = make(map[ObjID]*Obj, len(st.objs)+2)
	for k, v := range st.objs {
		n.objs[k] = v
	}
	n.syms = make(map[SymID]*SymInfo, len(st.syms)+2)
	for k, v := range st.syms {
		n.syms[k] = v
	}
	n.rel = make(map[[2]SymID]int64, len(st.rel))
	for k, v := range st.rel {
		n.rel[k] = v
	}
	n.regs = append([]Val(nil), st.regs...)
	n.defers = append([]Val(nil), st.defers...)
	return &n
}

func (st *State) newObj(shape string, t types.Type, f []Val) ObjID {
	if st.e.initing && !strings.HasPrefix(shape, "iter") {
		st.e.nextB--
		st.e.base[st.e.nextB] = &Obj{shape, t, f}
		return st.e.nextB
	}
	st.nextO++
	st.objs[st.nextO] = &Obj{shape, t, f}
	return st.nextO
}

func (st *State) obj(o ObjID) *Obj {
	if ob, ok := st.objs[o]; ok {
		return ob
	}
	if ob, ok := st.e.base[o]; ok {
		return ob
	}
	panic(fmt.Sprintf("no object %d", o))
}

func (st *State) setObj(o ObjID, ob *Obj) {
	if o < 0 && st.e.initing {
		st.e.base[o] = ob
		return
	}
	st.objs[o] = ob
}

func (st *State) newChoice(u *Universe, dom Bits, def Val) SymID {
	st.nextS++
	st.syms[st.nextS] = &SymInfo{U: u, Dom: dom, Def: def, Dom0: dom}
	return st.nextS
}

func (st *State) newInt(lo, hi int64, def Val) SymID {
	st.nextS++
	st.syms[st.nextS] = &SymInfo{Lo: lo, Hi: hi, Def: def, Lo0: lo, Hi0: hi}
	return st.nextS
}

// symFor returns the symbol standing for def, creating it if needed.
func (st *State) findSym(def Val) (SymID, bool) {
	for id := SymID(1); id <= st.nextS; id++ {
		if si, ok := st.syms[id]; ok && si.Def != nil && eqVal(si.Def, def) {
			return id, true
		}
	}
	return 0, false
}

func (st *State) choiceFor(u *Universe, dom Bits, def Val) SymID {
	if s, ok := st.findSym(def); ok {
		return s
	}
	return st.newChoice(u, dom, def)
}

func (st *State) intFor(lo, hi int64, def Val) Lin {
	if s, ok := st.findSym(def); ok {
		return Lin{s, 0}
	}
	return Lin{st.newInt(lo, hi, def), 0}
}

// restrict narrows a choice symbol; false means nothing is left.
func (st *State) restrict(s SymID, set Bits) bool {
	si := st.syms[s]
	d := si.Dom.and(set)
	if d == si.Dom {
		return !d.empty()
	}
	n := *si
	n.Dom = d
	st.syms[s] = &n
	return !d.empty()
}

// ------------------------------------------------------------ tables

func mkTab(s SymID, g []Grp) Val {
	if topAbsorbs {
		for _, x := range g {
			if _, ok := x.V.(Top); ok {
				return Top{}
			}
		}
	}
	// merge groups of equal value, order by first alternative
	var out []Grp
next:
	for _, x := range g {
		if x.Set.empty() {
			continue
		}
		for i := range out {
			if eqVal(out[i].V, x.V) {
				out[i].Set = out[i].Set.or(x.Set)
				continue next
			}
		}
		out = append(out, x)
	}
	if len(out) == 1 {
		return out[0].V
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Set.first() < out[j].Set.first() })
	return Tab{s, out}
}

// norm drops the alternatives of v that its symbol no longer has.
// topAbsorbs makes a choice with an unknown alternative unknown.
var topAbsorbs bool

func (st *State) norm(v Val) Val {
	for {
		t, ok := v.(Tab)
		if !ok {
			return v
		}
		si, ok := st.syms[t.S]
		if !ok {
			panic("dangling choice symbol")
		}
		all := Bits{}
		change := false
		for _, g := range t.G {
			x := g.Set.and(si.Dom)
			if x != g.Set {
				change = true
			}
			all = all.or(x)
		}
		if !change {
			if len(t.G) == 1 {
				v = t.G[0].V
				continue
			}
			return t
		}
		var g []Grp
		for _, x := range t.G {
			if s := x.Set.and(si.Dom); !s.empty() {
				g = append(g, Grp{s, x.V})
			}
		}
		if len(g) == 1 {
			v = g[0].V
			continue
		}
		if len(g) == 0 {
			return Top{}
		}
		return mkTab(t.S, g)
	}
}

// deepNorm normalises v and everything in it.
func (st *State) deepNorm(v Val) Val {
	v = st.norm(v)
	switch v := v.(type) {
	case Tab:
		g := make([]Grp, len(v.G))
		for i, x := range v.G {
			g[i] = Grp{x.Set, st.deepNormIn(x.V, v.S, x.Set)}
		}
		return mkTab(v.S, g)
	case Term:
		return Term{v.Op, st.deepList(v.A)}
	case Iface:
		return Iface{v.T, st.deepNorm(v.V)}
	case Agg:
		return Agg{st.deepList(v.F)}
	case Clo:
		return Clo{v.F, st.deepList(v.B)}
	case Seg:
		return Seg{v.Kind, st.deepList(v.A)}
	}
	return v
}

func (st *State) deepNormIn(v Val, s SymID, set Bits) Val {
	if t, ok := v.(Tab); ok && t.S == s {
		var g []Grp
		for _, x := range t.G {
			if y := x.Set.and(set); !y.empty() {
				g = append(g, Grp{y, x.V})
			}
		}
		return st.deepNorm(mkTab(s, g))
	}
	return st.deepNorm(v)
}

func (st *State) deepList(vs []Val) []Val {
	for i, a := range vs {
		b := st.deepNorm(a)
		if !sameVal(a, b) {
			out := make([]Val, len(vs))
			copy(out, vs[:i])
			for ; i < len(vs); i++ {
				out[i] = st.deepNorm(vs[i])
			}
			return out
		}
	}
	return vs
}

func sameVal(a, b Val) bool { return eqVal(a, b) }

// splitReq asks the engine to split the state on a symbol.
type splitReq struct {
	S    SymID
	Sets []Bits
	Info *SymInfo
	cond *Term // an integer condition instead of a symbol
}

// splitSym finds the symbol of a request; the request may come from a
// copy of the state in which the symbol was new.
func (st *State) splitSym(r *splitReq) SymID {
	if si, ok := st.syms[r.S]; ok && (r.Info == nil || si.U == r.Info.U && (si.Def == nil) == (r.Info.Def == nil) && (si.Def == nil || eqVal(si.Def, r.Info.Def))) {
		return r.S
	}
	if r.Info == nil || r.Info.Def == nil {
		panic(undecidable{"split on a symbol of another state"})
	}
	return st.choiceFor(r.Info.U, r.Info.Dom, r.Info.Def)
}

// concretize returns v without choice at the top, splitting the state
// if necessary.
func (st *State) concretize(v Val) Val {
	v = st.expand(v)
	if t, ok := v.(Tab); ok {
		sets := make([]Bits, len(t.G))
		for i, g := range t.G {
			sets[i] = g.Set
		}
		panic(splitReq{t.S, sets, st.syms[t.S], nil})
	}
	return v
}

// splitBy splits unless the domain of s lies inside or outside of set;
// it returns which.
func (st *State) splitBy(s SymID, set Bits) bool {
	d := st.syms[s].Dom
	if d.subset(set) {
		return true
	}
	if !d.overlaps(set) {
		return false
	}
	panic(splitReq{s, []Bits{d.and(set), d.minus(set)}, st.syms[s], nil})
}

// expand writes out the text of a lexeme by the alternatives of the lexeme.
func (st *State) expand(v Val) Val {
	v = st.norm(v)
	if t, ok := v.(Term); ok && (t.Op == "lextext" || t.Op == "lexlow") {
		if hk, ok := st.e.h.(interface {
			Text(st *State, s SymID, low bool) Val
		}); ok {
			return hk.Text(st, t.A[0].(SymRef).S, t.Op == "lexlow")
		}
	}
	return v
}

// mapTab applies a pure function to every alternative of v.
func (st *State) mapTab(v Val, f func(Val) Val) Val {
	v = st.expand(v)
	if t, ok := v.(Tab); ok {
		g := make([]Grp, len(t.G))
		for i, x := range t.G {
			g[i] = Grp{x.Set, st.mapTab(x.V, f)}
		}
		return mkTab(t.S, g)
	}
	return f(v)
}

// mapTab2 applies a pure function to two values; different symbols nest.
func (st *State) mapTab2(a, b Val, f func(a, b Val) Val) Val {
	a, b = st.expand(a), st.expand(b)
	if t, ok := a.(Tab); ok {
		var g []Grp
		u, isTab := b.(Tab)
		for _, x := range t.G {
			if isTab && u.S == t.S {
				for _, y := range u.G {
					if s := x.Set.and(y.Set); !s.empty() {
						g = append(g, Grp{s, st.mapTab2(x.V, y.V, f)})
					}
				}
				continue
			}
			g = append(g, Grp{x.Set, st.mapTab2(x.V, b, f)})
		}
		return mkTab(t.S, g)
	}
	if u, ok := b.(Tab); ok {
		g := make([]Grp, len(u.G))
		for i, y := range u.G {
			g[i] = Grp{y.Set, st.mapTab2(a, y.V, f)}
		}
		return mkTab(u.S, g)
	}
	return f(a, b)
}

func eqVal(a, b Val) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case Int:
		c, ok := b.(Int)
		return ok && a == c
	case Str:
		c, ok := b.(Str)
		return ok && a == c
	case Bool:
		c, ok := b.(Bool)
		return ok && a == c
	case Flt:
		c, ok := b.(Flt)
		return ok && a == c
	case Nil:
		_, ok := b.(Nil)
		return ok
	case Top:
		_, ok := b.(Top)
		return ok
	case Lin:
		c, ok := b.(Lin)
		return ok && a == c
	case SymRef:
		c, ok := b.(SymRef)
		return ok && a == c
	case Tab:
		c, ok := b.(Tab)
		if !ok || a.S != c.S || len(a.G) != len(c.G) {
			return false
		}
		for i := range a.G {
			if a.G[i].Set != c.G[i].Set || !eqVal(a.G[i].V, c.G[i].V) {
				return false
			}
		}
		return true
	case Term:
		c, ok := b.(Term)
		return ok && a.Op == c.Op && eqList(a.A, c.A)
	case Ptr:
		c, ok := b.(Ptr)
		return ok && a == c
	case In:
		c, ok := b.(In)
		return ok && eqVal(a.T, c.T)
	case InSlice:
		c, ok := b.(InSlice)
		return ok && eqVal(a.T, c.T)
	case InMap:
		c, ok := b.(InMap)
		return ok && eqVal(a.T, c.T)
	case Iface:
		c, ok := b.(Iface)
		return ok && types.Identical(a.T, c.T) && eqVal(a.V, c.V)
	case Slice:
		c, ok := b.(Slice)
		return ok && a == c
	case MapV:
		c, ok := b.(MapV)
		return ok && a == c
	case Agg:
		c, ok := b.(Agg)
		return ok && eqList(a.F, c.F)
	case Clo:
		c, ok := b.(Clo)
		return ok && a.F == c.F && eqList(a.B, c.B)
	case Ext:
		c, ok := b.(Ext)
		return ok && a == c
	case Seg:
		c, ok := b.(Seg)
		return ok && a.Kind == c.Kind && eqList(a.A, c.A)
	}
	panic(fmt.Sprintf("eqVal %T", a))
}

func eqList(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------ integers

// maxDiff returns an upper bound of a-b, posInf if there is none.
// Symbol 0 stands for zero.
func (st *State) maxDiff(a, b SymID) int64 {
	if a == b {
		return 0
	}
	hi := func(s SymID) int64 {
		if s == 0 {
			return 0
		}
		return st.syms[s].Hi
	}
	lo := func(s SymID) int64 {
		if s == 0 {
			return 0
		}
		return st.syms[s].Lo
	}
	best := int64(posInf)
	if h, l := hi(a), lo(b); h < posInf && l > negInf {
		best = h - l
	}
	if len(st.rel) == 0 {
		return best
	}
	// Bellman-Ford from a over edges x->y with x-y <= w
	dist := map[SymID]int64{a: 0}
	for iter := 0; iter < 6; iter++ {
		changed := false
		relax := func(x, y SymID, w int64) {
			if w >= posInf {
				return
			}
			if d, ok := dist[x]; ok {
				if e, ok := dist[y]; !ok || d+w < e {
					dist[y] = d + w
					changed = true
				}
			}
		}
		for k, w := range st.rel {
			relax(k[0], k[1], w)
			for _, s := range k {
				if s != 0 {
					relax(s, 0, st.syms[s].Hi)
					if st.syms[s].Lo > negInf {
						relax(0, s, -st.syms[s].Lo)
					}
				}
			}
		}
		relax(a, 0, hi(a))
		if lo(b) > negInf {
			relax(0, b, -lo(b))
		}
		if !changed {
			break
		}
	}
	if d, ok := dist[b]; ok && d < best {
		best = d
	}
	return best
}

func linParts(v Val) (SymID, int64, bool) {
	switch v := v.(type) {
	case Int:
		return 0, int64(v), true
	case Lin:
		return v.S, v.O, true
	}
	return 0, 0, false
}

// upper returns an upper bound of x-y.
func (st *State) upper(x, y Val) (int64, bool) {
	a, ao, ok1 := linParts(x)
	b, bo, ok2 := linParts(y)
	if !ok1 || !ok2 {
		return 0, false
	}
	d := st.maxDiff(a, b)
	if d >= posInf {
		return posInf, true
	}
	return d + ao - bo, true
}

// assumeLE assumes x+c <= y; false if impossible.
func (st *State) assumeLE(x Val, c int64, y Val) bool {
	a, ao, ok1 := linParts(x)
	b, bo, ok2 := linParts(y)
	if !ok1 || !ok2 {
		return true
	}
	w := bo - ao - c // a-b <= w
	if a == b {
		return w >= 0
	}
	if d := st.maxDiff(b, a); d < posInf && d+w < 0 {
		return false
	}
	switch {
	case b == 0:
		si := *st.syms[a]
		if w < si.Hi {
			si.Hi = w
			st.syms[a] = &si
		}
	case a == 0:
		si := *st.syms[b]
		if -w > si.Lo {
			si.Lo = -w
			st.syms[b] = &si
		}
	default:
		k := [2]SymID{a, b}
		if o, ok := st.rel[k]; !ok || w < o {
			st.rel[k] = w
		}
	}
	return true
}

// ------------------------------------------------------------ reachability

type reachSet struct {
	objs []ObjID
	syms []SymID
	oIdx map[ObjID]int
	sIdx map[SymID]int
}

func (st *State) reach(roots ...[]Val) *reachSet { return st.reachFrom(st.e.keepNamed, roots...) }

func (st *State) reachVals(roots ...[]Val) *reachSet { return st.reachFrom(false, roots...) }

func (st *State) reachFrom(named bool, roots ...[]Val) *reachSet {
	r := &reachSet{oIdx: map[ObjID]int{}, sIdx: map[SymID]int{}}
	var visit func(v Val)
	addSym := func(s SymID) {
		if _, ok := r.sIdx[s]; ok || s == 0 {
			return
		}
		si, ok := st.syms[s]
		if !ok {
			panic(fmt.Sprintf("dangling symbol %d", s))
		}
		r.sIdx[s] = len(r.syms)
		r.syms = append(r.syms, s)
		if si.Def != nil {
			walkVal(si.Def, visit)
		}
	}
	addObj := func(o ObjID) {
		if o <= 0 {
			return
		}
		if _, ok := r.oIdx[o]; !ok {
			r.oIdx[o] = len(r.objs)
			r.objs = append(r.objs, o)
		}
	}
	visit = func(v Val) {
		if v == nil {
			return
		}
		switch v := v.(type) {
		case Lin:
			addSym(v.S)
		case SymRef:
			addSym(v.S)
		case Tab:
			addSym(v.S)
		case Ptr:
			addObj(v.O)
		case Slice:
			addObj(v.O)
			addObj(v.Shared)
		case MapV:
			addObj(v.O)
		}
	}
	for _, rs := range roots {
		for _, v := range rs {
			walkVal(v, visit)
		}
	}
	for i := 0; i < len(r.objs); i++ {
		for _, v := range st.obj(r.objs[i]).F {
			walkVal(v, visit)
		}
	}
	if named {
		var nameable func(id SymID) bool
		nameable = func(id SymID) bool {
			if st.syms[id].Def == nil {
				return false
			}
			ok := true
			has := func(s SymID) {
				if _, in := r.sIdx[s]; !in && ok {
					ok = nameable(s)
				}
			}
			walkVal(st.syms[id].Def, func(v Val) {
				switch v := v.(type) {
				case Lin:
					has(v.S)
				case SymRef:
					has(v.S)
				case Tab:
					has(v.S)
				case Ptr, Slice, MapV:
					ok = false
				}
			})
			return ok
		}
		for again := true; again; {
			again = false
			for _, id := range sortedSyms(st) {
				if _, ok := r.sIdx[id]; ok || !st.narrowed(id) {
					continue
				}
				if nameable(id) {
					addSym(id)
					again = true
				}
			}
		}
	}
	return r
}

// narrowed reports whether something is known about a named symbol that
// its name does not tell.
func (st *State) narrowed(id SymID) bool {
	si := st.syms[id]
	if si.Def == nil {
		return false
	}
	if si.U != nil {
		return si.Dom != si.Dom0
	}
	if si.Lo != si.Lo0 || si.Hi != si.Hi0 {
		return true
	}
	for k := range st.rel {
		if k[0] == id || k[1] == id {
			return true
		}
	}
	return false
}

func closedVal(v Val) bool {
	ok := true
	walkVal(v, func(v Val) {
		switch v.(type) {
		case Lin, SymRef, Tab, Ptr, Slice, MapV:
			ok = false
		}
	})
	return ok
}

type mapNamer struct{ r *reachSet }

func (n mapNamer) sym(s SymID) string {
	i, ok := n.r.sIdx[s]
	if !ok {
		return "s?" + strconv.Itoa(int(s))
	}
	return "s" + strconv.Itoa(i+1)
}
func (n mapNamer) obj(o ObjID) string {
	if o < 0 {
		return "g" + strconv.Itoa(-int(o))
	}
	i, ok := n.r.oIdx[o]
	if !ok {
		return "o?" + strconv.Itoa(int(o))
	}
	return "o" + strconv.Itoa(i+1)
}

func (st *State) normList(vs []Val) []Val {
	out := make([]Val, len(vs))
	for i, v := range vs {
		out[i] = st.deepNorm(v)
	}
	return out
}

// normAll normalises every value of the state reachable from its roots.
func (st *State) normObjs() {
	for id, ob := range st.objs {
		for i, v := range ob.F {
			w := st.deepNorm(v)
			if !eqVal(v, w) {
				f := append([]Val(nil), ob.F...)
				f[i] = w
				for j := i + 1; j < len(f); j++ {
					f[j] = st.deepNorm(f[j])
				}
				st.objs[id] = &Obj{ob.Shape, ob.T, f}
				break
			}
		}
	}
}

// canonKey writes the part of the state reachable from roots with
// canonical names.
func (st *State) canonKey(r *reachSet, roots ...[]Val) string {
	var sb strings.Builder
	n := mapNamer{r}
	for _, rs := range roots {
		writeList(&sb, rs, n)
	}
	sb.WriteString(st.ghost.Shape())
	for i, o := range r.objs {
		ob := st.obj(o)
		fmt.Fprintf(&sb, "|o%d=%s<%s>", i+1, ob.Shape, typeKey(ob.T))
		writeList(&sb, ob.F, n)
	}
	for i, s := range r.syms {
		si := st.syms[s]
		if si.U != nil {
			fmt.Fprintf(&sb, "|s%d:%s %s", i+1, si.U.Name, si.Dom.hex())
		} else {
			fmt.Fprintf(&sb, "|s%d:%d,%d", i+1, si.Lo, si.Hi)
		}
		if si.Def != nil {
			sb.WriteByte('=')
			writeKey(&sb, si.Def, n)
		}
	}
	var facts []string
	for k, c := range st.rel {
		_, ok0 := r.sIdx[k[0]]
		_, ok1 := r.sIdx[k[1]]
		if ok0 && ok1 {
			facts = append(facts, fmt.Sprintf("%s-%s<=%d", n.sym(k[0]), n.sym(k[1]), c))
		}
	}
	sort.Strings(facts)
	for _, f := range facts {
		sb.WriteByte('|')
		sb.WriteString(f)
	}
	return sb.String()
}

// gc drops everything not reachable from roots and keep.
func (st *State) gc(roots ...[]Val) {
	r := st.reach(append(roots, st.allRoots())...)
	st.keepOnly(r)
}

func (st *State) allRoots() []Val {
	out := append([]Val(nil), st.ghost.Roots()...)
	for _, v := range st.regs {
		if v != nil {
			out = append(out, v)
		}
	}
	out = append(out, st.defers...)
	if st.pan != nil {
		out = append(out, st.pan)
	}
	for o := ObjID(1); o <= st.anchO; o++ {
		if _, ok := st.objs[o]; ok {
			out = append(out, Ptr{O: o})
		}
	}
	for s := SymID(1); s <= st.anchS; s++ {
		if _, ok := st.syms[s]; ok {
			out = append(out, SymRef{s})
		}
	}
	return out
}

func (st *State) keepOnly(r *reachSet) {
	for o := range st.objs {
		if _, ok := r.oIdx[o]; !ok && o > 0 {
			delete(st.objs, o)
		}
	}
	for s := SymID(1); s <= st.nextS && len(st.rel) > 0; s++ {
		if st.syms[s] == nil {
			continue
		}
		if _, ok := r.sIdx[s]; !ok {
			st.eliminate(s)
		}
	}
	for s := range st.syms {
		if _, ok := r.sIdx[s]; !ok {
			delete(st.syms, s)
		}
	}
	for k := range st.rel {
		if st.syms[k[0]] == nil || st.syms[k[1]] == nil {
			delete(st.rel, k)
		}
	}
}

// eliminate keeps the close relations that hold by way of s.
func (st *State) eliminate(s SymID) {
	var in, out [][2]SymID
	for k := range st.rel {
		if k[1] == s {
			in = append(in, k)
		}
		if k[0] == s {
			out = append(out, k)
		}
	}
	close := func(c int64) bool { return c <= 2 && c >= -8 }
	bound := func(x SymID, lo, hi int64) {
		if si := st.syms[x]; si.Lo < lo || si.Hi > hi {
			n := *si
			n.Lo, n.Hi = max(n.Lo, lo), min(n.Hi, hi)
			st.syms[x] = &n
		}
	}
	si := st.syms[s]
	for _, k := range in {
		if c := st.rel[k]; close(c) && k[0] != 0 && si.Hi < posInf {
			bound(k[0], negInf, si.Hi+c) // k[0] - s <= c
		}
	}
	for _, k := range out {
		if c := st.rel[k]; close(c) && k[1] != 0 && si.Lo > negInf {
			bound(k[1], si.Lo-c, posInf) // s - k[1] <= c
		}
	}
	for _, i := range in {
		for _, o := range out {
			if i[0] == o[1] {
				continue
			}
			k := [2]SymID{i[0], o[1]}
			c := st.rel[i] + st.rel[o]
			if !close(c) {
				continue
			}
			if old, ok := st.rel[k]; !ok || c < old {
				st.rel[k] = c
			}
		}
	}
	for _, k := range append(in, out...) {
		delete(st.rel, k)
	}
}
