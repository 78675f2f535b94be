package main

import (
	"go/types"
	"sort"
	"strings"
)

// diffV stands for the i-th difference while two states are merged.
type diffV int

type diff struct{ a, b Val }

// unify compares two states in lockstep from their roots, pairing symbols
// and objects, and collects the places where they differ.
type unify struct {
	segDiff      bool          // integers inside a segment or a name differ
	defs         map[SymID]Val // names of paired symbols, merged
	a, b         *State
	symAB, symBA map[SymID]SymID
	objAB, objBA map[ObjID]ObjID
	queue        []ObjID // of a
	done         map[ObjID]*Obj
	diffs        []diff
	pairs        [][2]SymID
	roots        []Val
	valsA, valsB []Val
	imported     map[ObjID]ObjID
	importedS    map[SymID]SymID
	maxDiffs     int

	// when asking whether a covers b, free integers of a may stand for
	// any integer of b, and choices of a may be decided by values of b
	sub    bool
	inst   map[SymID]Val
	chosen map[SymID]Bits
}

func newUnify(a, b *State) *unify {
	return &unify{a: a, b: b, symAB: map[SymID]SymID{}, symBA: map[SymID]SymID{},
		objAB: map[ObjID]ObjID{}, objBA: map[ObjID]ObjID{}, done: map[ObjID]*Obj{}, maxDiffs: 1 << 30, defs: map[SymID]Val{}, inst: map[SymID]Val{}, chosen: map[SymID]Bits{}}
}

func (u *unify) pairSym(sa, sb SymID, j *journal) bool {
	if sa == 0 || sb == 0 {
		return sa == sb
	}
	if x, ok := u.symAB[sa]; ok {
		return x == sb
	}
	if _, ok := u.symBA[sb]; ok {
		return false
	}
	if _, ok := u.chosen[sa]; ok {
		return false
	}
	if (sa <= u.a.anchS || sb <= u.b.anchS) && sa != sb {
		return false
	}
	ia, ib := u.a.syms[sa], u.b.syms[sb]
	if ia.U != ib.U || (ia.Def == nil) != (ib.Def == nil) {
		return false
	}
	u.symAB[sa], u.symBA[sb] = sb, sa
	j.syms = append(j.syms, [2]SymID{sa, sb})
	if ia.Def != nil && !u.strict(ia.Def, ib.Def, j) {
		return false
	}
	return true
}

func (u *unify) pairObj(oa, ob ObjID, j *journal) bool {
	if oa <= 0 || ob <= 0 {
		return oa == ob
	}
	if x, ok := u.objAB[oa]; ok {
		return x == ob
	}
	if _, ok := u.objBA[ob]; ok {
		return false
	}
	if (oa <= u.a.anchO || ob <= u.b.anchO) && oa != ob {
		return false
	}
	x, y := u.a.obj(oa), u.b.obj(ob)
	if x.Shape != y.Shape || len(x.F) != len(y.F) || (x.T == nil) != (y.T == nil) || x.T != nil && !types.Identical(x.T, y.T) {
		return false
	}
	u.objAB[oa], u.objBA[ob] = ob, oa
	j.objs = append(j.objs, [2]ObjID{oa, ob})
	return true
}

type journal struct {
	syms   [][2]SymID
	objs   [][2]ObjID
	insts  []SymID
	chosen []SymID
}

// instantiate lets a free integer of a stand for a value of b.
func (u *unify) instantiate(x Lin, vb Val, j *journal) bool {
	var v Val
	switch y := vb.(type) {
	case Int:
		v = y - Int(x.O)
	case Lin:
		v = Lin{y.S, y.O - x.O}
	default:
		return false
	}
	if w, ok := u.inst[x.S]; ok {
		return eqVal(v, w)
	}
	u.inst[x.S] = v
	j.insts = append(j.insts, x.S)
	return true
}

func (u *unify) free(s SymID) bool {
	if !u.sub || s == 0 || s <= u.a.anchS {
		return false
	}
	si := u.a.syms[s]
	return si.U == nil && si.Def == nil
}

func (u *unify) rollback(j *journal) {
	for _, p := range j.syms {
		delete(u.symAB, p[0])
		delete(u.symBA, p[1])
	}
	for _, p := range j.objs {
		delete(u.objAB, p[0])
		delete(u.objBA, p[1])
	}
	for _, s := range j.insts {
		delete(u.inst, s)
	}
	for _, s := range j.chosen {
		delete(u.chosen, s)
	}
}

func (u *unify) commit(j *journal) {
	u.pairs = append(u.pairs, j.syms...)
	for _, p := range j.objs {
		u.queue = append(u.queue, p[0])
	}
}

// strict reports whether va and vb are equal under the pairing.
func (u *unify) strict(va, vb Val, j *journal) bool {
	va, vb = u.a.norm(va), u.b.norm(vb)
	switch x := va.(type) {
	case Lin:
		if u.free(x.S) {
			return u.instantiate(x, vb, j)
		}
		y, ok := vb.(Lin)
		return ok && x.O == y.O && u.pairSym(x.S, y.S, j)
	case SymRef:
		y, ok := vb.(SymRef)
		if ok && u.free(x.S) {
			return u.instantiate(Lin{x.S, 0}, Lin{y.S, 0}, j)
		}
		return ok && u.pairSym(x.S, y.S, j)
	case Tab:
		y, ok := vb.(Tab)
		if !ok && u.sub {
			return u.decide(x, vb, j)
		}
		if !ok || len(x.G) != len(y.G) || !u.pairSym(x.S, y.S, j) {
			return false
		}
		for i := range x.G {
			if x.G[i].Set != y.G[i].Set || !u.strict(x.G[i].V, y.G[i].V, j) {
				return false
			}
		}
		return true
	case Term:
		y, ok := vb.(Term)
		return ok && x.Op == y.Op && u.strictList(x.A, y.A, j)
	case Ptr:
		y, ok := vb.(Ptr)
		return ok && x.P == y.P && u.pairObj(x.O, y.O, j)
	case In:
		y, ok := vb.(In)
		return ok && u.strict(x.T, y.T, j)
	case InSlice:
		y, ok := vb.(InSlice)
		return ok && u.strict(x.T, y.T, j)
	case InMap:
		y, ok := vb.(InMap)
		return ok && u.strict(x.T, y.T, j)
	case Iface:
		y, ok := vb.(Iface)
		return ok && types.Identical(x.T, y.T) && u.strict(x.V, y.V, j)
	case Slice:
		y, ok := vb.(Slice)
		return ok && u.pairObj(x.O, y.O, j) && u.pairObj(x.Shared, y.Shared, j)
	case MapV:
		y, ok := vb.(MapV)
		return ok && u.pairObj(x.O, y.O, j)
	case Agg:
		y, ok := vb.(Agg)
		return ok && u.strictList(x.F, y.F, j)
	case Clo:
		y, ok := vb.(Clo)
		return ok && x.F == y.F && u.strictList(x.B, y.B, j)
	case Seg:
		y, ok := vb.(Seg)
		return ok && x.Kind == y.Kind && u.strictList(x.A, y.A, j)
	}
	return eqVal(va, vb)
}

// decide matches a table of a with a plain value of b by choosing the
// alternatives of the table that give it.
func (u *unify) decide(x Tab, vb Val, j *journal) bool {
	sb, paired := u.symAB[x.S]
	if !paired && u.a.syms[x.S].Def != nil {
		// a named choice stands for the choice of that name
		for _, s := range sortedSyms(u.b) {
			if _, used := u.symBA[s]; used || u.b.syms[s].Def == nil || u.b.syms[s].U != u.a.syms[x.S].U {
				continue
			}
			k := &journal{}
			if u.pairSym(x.S, s, k) {
				j.syms = append(j.syms, k.syms...)
				j.objs = append(j.objs, k.objs...)
				j.insts = append(j.insts, k.insts...)
				j.chosen = append(j.chosen, k.chosen...)
				sb, paired = s, true
				break
			}
			u.rollback(k)
		}
		if !paired {
			return false
		}
	}
	if paired {
		dom := u.b.syms[sb].Dom
		for _, g := range x.G {
			if g.Set.overlaps(dom) && !u.strict(g.V, vb, j) {
				return false
			}
		}
		return true
	}
	if x.S <= u.a.anchS {
		return false
	}
	dom := u.a.syms[x.S].Dom
	if c, ok := u.chosen[x.S]; ok {
		dom = c
	}
	for _, g := range x.G {
		d := g.Set.and(dom)
		if d.empty() {
			continue
		}
		k := &journal{}
		old, had := u.chosen[x.S]
		u.chosen[x.S] = d
		if u.strict(g.V, vb, k) {
			if !had {
				k.chosen = append(k.chosen, x.S)
			}
			j.syms = append(j.syms, k.syms...)
			j.objs = append(j.objs, k.objs...)
			j.insts = append(j.insts, k.insts...)
			j.chosen = append(j.chosen, k.chosen...)
			return true
		}
		u.rollback(k)
		if had {
			u.chosen[x.S] = old
		} else {
			delete(u.chosen, x.S)
		}
	}
	return false
}

func (u *unify) strictList(a, b []Val, j *journal) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !u.strict(a[i], b[i], j) {
			return false
		}
	}
	return true
}

func (u *unify) diff(a, b Val) Val {
	u.diffs = append(u.diffs, diff{a, b})
	return diffV(len(u.diffs) - 1)
}

// val merges two values; differences become placeholders.
func (u *unify) val(va, vb Val) Val {
	if va == nil || vb == nil {
		return nil
	}
	va, vb = u.a.norm(va), u.b.norm(vb)
	switch x := va.(type) {
	case Tab:
		y, isTab := vb.(Tab)
		if isTab {
			j := &journal{}
			if u.pairSym(x.S, y.S, j) {
				u.commit(j)
			} else {
				u.rollback(j)
				if !u.pairLoose(x.S, y.S) {
					return u.diff(va, vb)
				}
			}
			var g []Grp
			restB := Bits{}
			for _, gb := range y.G {
				restB = restB.or(gb.Set)
			}
			at := make([]int16, bitWords*64)
			for i, gb := range y.G {
				gb.Set.each(func(k int) { at[k] = int16(i) + 1 })
			}
			for _, ga := range x.G {
				rest := ga.Set
				var met []int16
				ga.Set.each(func(k int) {
					i := at[k]
					if i == 0 {
						return
					}
					for _, m := range met {
						if m == i {
							return
						}
					}
					met = append(met, i)
				})
				sort.Slice(met, func(i, j int) bool { return met[i] < met[j] })
				for _, i := range met {
					gb := y.G[i-1]
					s := ga.Set.and(gb.Set)
					g = append(g, Grp{s, u.val(ga.V, gb.V)})
					rest = rest.minus(s)
					restB = restB.minus(s)
				}
				if !rest.empty() {
					g = append(g, Grp{rest, ga.V})
				}
			}
			for _, gb := range y.G {
				if s := gb.Set.and(restB); !s.empty() {
					g = append(g, Grp{s, u.imp(gb.V)})
				}
			}
			return tabOf(x.S, g)
		}
		u.pairSealed(va, vb)
		if sb, ok := u.symAB[x.S]; ok {
			db := u.b.syms[sb].Dom
			var g []Grp
			rest := db
			for _, ga := range x.G {
				if s := ga.Set.and(db); !s.empty() {
					g = append(g, Grp{s, u.val(ga.V, vb)})
					rest = rest.minus(s)
				}
				if s := ga.Set.minus(db); !s.empty() {
					g = append(g, Grp{s, ga.V})
				}
			}
			if !rest.empty() {
				g = append(g, Grp{rest, u.imp(vb)})
			}
			return tabOf(x.S, g)
		}
		if u.sub {
			j := &journal{}
			if u.decide(x, vb, j) {
				u.commit(j)
				return va
			}
			u.rollback(j)
		}
		return u.diff(va, vb)
	case Agg:
		if y, ok := vb.(Agg); ok && len(x.F) == len(y.F) {
			f := make([]Val, len(x.F))
			for i := range f {
				f[i] = u.val(x.F[i], y.F[i])
			}
			return Agg{f}
		}
	case Iface:
		if y, ok := vb.(Iface); ok && types.Identical(x.T, y.T) {
			return Iface{x.T, u.val(x.V, y.V)}
		}
	case Clo:
		if y, ok := vb.(Clo); ok && x.F == y.F && len(x.B) == len(y.B) {
			f := make([]Val, len(x.B))
			for i := range f {
				f[i] = u.val(x.B[i], y.B[i])
			}
			return Clo{x.F, f}
		}
	case Seg:
		if y, ok := vb.(Seg); ok && x.Kind == y.Kind && len(x.A) == len(y.A) {
			f := make([]Val, len(x.A))
			for i := range f {
				j := &journal{}
				if u.strict(x.A[i], y.A[i], j) {
					u.commit(j)
					f[i] = x.A[i]
					continue
				}
				u.rollback(j)
				_, _, ok1 := linParts(x.A[i])
				_, _, ok2 := linParts(y.A[i])
				if !ok1 || !ok2 {
					return u.diff(va, vb)
				}
				u.segDiff = true
				f[i] = u.diff(x.A[i], y.A[i])
			}
			return Seg{x.Kind, f}
		}
	}
	if y, ok := vb.(Tab); ok {
		u.pairSealed(va, vb)
		if sa, ok := u.symBA[y.S]; ok {
			da := u.a.syms[sa].Dom
			var g []Grp
			rest := da
			for _, gb := range y.G {
				if s := gb.Set.and(da); !s.empty() {
					g = append(g, Grp{s, u.val(va, gb.V)})
					rest = rest.minus(s)
				}
				if s := gb.Set.minus(da); !s.empty() {
					g = append(g, Grp{s, u.imp(gb.V)})
				}
			}
			if !rest.empty() {
				g = append(g, Grp{rest, va})
			}
			return tabOf(sa, g)
		}
		return u.diff(va, vb)
	}
	j := &journal{}
	if u.strict(va, vb, j) {
		u.commit(j)
		return va
	}
	u.rollback(j)
	u.pairSealed(va, vb)
	switch va.(type) {
	case In, InSlice, InMap, Term, Lin, SymRef:
		if v, ok := u.loose(va, vb); ok {
			return v
		}
	}
	return u.diff(va, vb)
}

// pairSealed pairs the choices of what two nodes are.
func (u *unify) pairSealed(va, vb Val) {
	sa, ok1 := sealedSym(va)
	sb, ok2 := sealedSym(vb)
	if !ok1 || !ok2 {
		return
	}
	j := &journal{}
	if u.pairSym(sa, sb, j) {
		u.commit(j)
	} else {
		u.rollback(j)
	}
}

func sealedSym(v Val) (SymID, bool) {
	switch v := v.(type) {
	case Iface:
		return sealedSym(v.V)
	case In:
		if len(v.T.A) == 1 {
			if t, ok := v.T.A[0].(Term); ok && t.Op == "node" {
				return t.A[0].(SymRef).S, true
			}
		}
	case Tab:
		for _, g := range v.G {
			if s, ok := sealedSym(g.V); ok {
				return s, s == v.S
			}
		}
	}
	return 0, false
}

// loose merges values that differ in integers inside their names, such as
// the index of an element.
func (u *unify) loose(va, vb Val) (Val, bool) {
	if u.sub {
		return nil, false
	}
	va, vb = u.a.norm(va), u.b.norm(vb)
	j := &journal{}
	if u.strict(va, vb, j) {
		u.commit(j)
		return va, true
	}
	u.rollback(j)
	np, nd := len(u.pairs), len(u.diffs)
	undo := func() (Val, bool) {
		for _, p := range u.pairs[np:] {
			delete(u.symAB, p[0])
			delete(u.symBA, p[1])
			delete(u.defs, p[0])
		}
		u.pairs, u.diffs = u.pairs[:np], u.diffs[:nd]
		return nil, false
	}
	switch x := va.(type) {
	case Lin:
		if y, ok := vb.(Lin); ok && x.O == y.O && u.pairLoose(x.S, y.S) {
			return va, true
		}
	case SymRef:
		if y, ok := vb.(SymRef); ok && u.pairLoose(x.S, y.S) {
			return va, true
		}
		return nil, false
	case Term:
		y, ok := vb.(Term)
		if !ok || x.Op != y.Op || len(x.A) != len(y.A) {
			return nil, false
		}
		f := make([]Val, len(x.A))
		for i := range f {
			if f[i], ok = u.loose(x.A[i], y.A[i]); !ok {
				return undo()
			}
		}
		return Term{x.Op, f}, true
	case In:
		if y, ok := vb.(In); ok {
			if t, ok := u.loose(x.T, y.T); ok {
				return In{t.(Term)}, true
			}
		}
		return nil, false
	case InSlice:
		if y, ok := vb.(InSlice); ok {
			if t, ok := u.loose(x.T, y.T); ok {
				return InSlice{t.(Term)}, true
			}
		}
		return nil, false
	case InMap:
		if y, ok := vb.(InMap); ok {
			if t, ok := u.loose(x.T, y.T); ok {
				return InMap{t.(Term)}, true
			}
		}
		return nil, false
	}
	_, _, ok1 := linParts(va)
	_, _, ok2 := linParts(vb)
	if !ok1 || !ok2 {
		return nil, false
	}
	u.segDiff = true
	return u.diff(va, vb), true
}

// pairLoose pairs two symbols whose names differ in integers.
func (u *unify) pairLoose(sa, sb SymID) bool {
	if u.sub || sa <= u.a.anchS || sb <= u.b.anchS {
		return false
	}
	if _, ok := u.symAB[sa]; ok {
		return false
	}
	if _, ok := u.symBA[sb]; ok {
		return false
	}
	ia, ib := u.a.syms[sa], u.b.syms[sb]
	if ia.U != ib.U || ia.Def == nil || ib.Def == nil {
		return false
	}
	u.symAB[sa], u.symBA[sb] = sb, sa
	np := len(u.pairs)
	u.pairs = append(u.pairs, [2]SymID{sa, sb})
	d, ok := u.loose(ia.Def, ib.Def)
	if !ok {
		delete(u.symAB, sa)
		delete(u.symBA, sb)
		u.pairs = u.pairs[:np]
		return false
	}
	u.defs[sa] = d
	return true
}

// tabOf is mkTab without merging of groups (placeholders may be inside).
func tabOf(s SymID, g []Grp) Val { return Tab{s, g} }

// imp marks a value of b for import; it is done when the merge succeeds.
func (u *unify) imp(v Val) Val { return impV{v} }

type impV struct{ v Val }

// run compares root lists and all objects reachable in pairs.
func (u *unify) run(ra, rb []Val) bool {
	if len(ra) != len(rb) {
		return false
	}
	u.roots = make([]Val, len(ra))
	u.valsA, u.valsB = ra, rb
	for i := range ra {
		u.roots[i] = u.val(ra[i], rb[i])
		if len(u.diffs) > u.maxDiffs {
			return false
		}
	}
	for len(u.queue) > 0 {
		oa := u.queue[0]
		u.queue = u.queue[1:]
		x, y := u.a.obj(oa), u.b.obj(u.objAB[oa])
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = u.val(x.F[i], y.F[i])
		}
		u.done[oa] = &Obj{x.Shape, x.T, f}
		if len(u.diffs) > u.maxDiffs {
			return false
		}
	}
	return true
}

// named pairs the named symbols that no value mentions and reports those
// that only one side has.
func (u *unify) named() (onlyA, onlyB []SymID) {
	if !u.a.e.keepNamed {
		return
	}
	la, lb := u.a.liveSyms(u.valsA), u.b.liveSyms(u.valsB)
	for _, sa := range sortedSyms(u.a) {
		if _, ok := u.symAB[sa]; ok || la[sa] || !u.a.narrowed(sa) {
			continue
		}
		if _, ok := u.chosen[sa]; ok {
			continue
		}
		found := false
		for _, sb := range sortedSyms(u.b) {
			if _, ok := u.symBA[sb]; ok || lb[sb] || u.b.syms[sb].Def == nil {
				continue
			}
			j := &journal{}
			if u.pairSym(sa, sb, j) {
				u.commit(j)
				found = true
				break
			}
			u.rollback(j)
		}
		if !found && !u.sub {
			for _, sb := range sortedSyms(u.b) {
				if _, ok := u.symBA[sb]; ok || lb[sb] || u.b.syms[sb].Def == nil || !u.b.narrowed(sb) {
					continue
				}
				if u.pairAligned(sa, sb) {
					found = true
					break
				}
			}
		}
		if !found {
			onlyA = append(onlyA, sa)
		}
	}
	for _, sb := range sortedSyms(u.b) {
		if _, ok := u.symBA[sb]; !ok && !lb[sb] && u.b.narrowed(sb) {
			onlyB = append(onlyB, sb)
		}
	}
	return
}

// pairAligned pairs two symbols whose names differ in integers only where
// the values differ in the same way.
func (u *unify) pairAligned(sa, sb SymID) bool {
	np, nd, seg := len(u.pairs), len(u.diffs), u.segDiff
	if !u.pairLoose(sa, sb) {
		return false
	}
	ok := len(u.diffs) > nd
	for _, d := range u.diffs[nd:] {
		s1, o1, _ := linParts(d.a)
		s2, o2, _ := linParts(d.b)
		same := false
		for _, x := range u.diffs[:nd] {
			t1, p1, ok1 := linParts(x.a)
			t2, p2, ok2 := linParts(x.b)
			if ok1 && ok2 && s1 == t1 && s2 == t2 && o2-o1 == p2-p1 {
				same = true
				break
			}
		}
		ok = ok && same
	}
	if !ok {
		for _, p := range u.pairs[np:] {
			delete(u.symAB, p[0])
			delete(u.symBA, p[1])
			delete(u.defs, p[0])
		}
		u.pairs, u.diffs, u.segDiff = u.pairs[:np], u.diffs[:nd], seg
	}
	return ok
}

func (u *unify) domDiffs() (out [][2]SymID) {
	for _, p := range u.pairs {
		ia, ib := u.a.syms[p[0]], u.b.syms[p[1]]
		if ia.U != nil && ia.Dom != ib.Dom {
			out = append(out, p)
		}
	}
	return
}

func (u *unify) intsEqual() bool {
	for _, p := range u.pairs {
		ia, ib := u.a.syms[p[0]], u.b.syms[p[1]]
		if ia.U == nil && (ia.Lo != ib.Lo || ia.Hi != ib.Hi) {
			return false
		}
	}
	return true
}

// bCovered reports whether the integer facts of a hold in b.
func (u *unify) bCovered() bool {
	if u.sub {
		return u.instCovered()
	}
	for _, p := range u.pairs {
		ia, ib := u.a.syms[p[0]], u.b.syms[p[1]]
		if ia.U == nil && (ib.Lo < ia.Lo || ib.Hi > ia.Hi) {
			return false
		}
	}
	for k, c := range u.a.rel {
		x, ok1 := u.symAB[k[0]]
		y, ok2 := u.symAB[k[1]]
		if ok1 && ok2 && u.b.maxDiff(x, y) > c {
			return false
		}
	}
	return true
}

// image is what an integer symbol of a stands for in b.
func (u *unify) image(s SymID) (Val, bool) {
	if s == 0 {
		return Int(0), true
	}
	if v, ok := u.inst[s]; ok {
		return v, true
	}
	if t, ok := u.symAB[s]; ok {
		return Lin{t, 0}, true
	}
	return nil, false
}

func (u *unify) instCovered() bool {
	check := func(s SymID) bool {
		si := u.a.syms[s]
		if si.U != nil {
			return true
		}
		v, _ := u.image(s)
		if si.Lo > negInf {
			if c, ok := u.b.upper(Int(si.Lo), v); !ok || c > 0 {
				return false
			}
		}
		if si.Hi < posInf {
			if c, ok := u.b.upper(v, Int(si.Hi)); !ok || c > 0 {
				return false
			}
		}
		return true
	}
	for s := range u.inst {
		if !check(s) {
			return false
		}
	}
	for s := range u.symAB {
		if !check(s) {
			return false
		}
	}
	for k, c := range u.a.rel {
		x, ok1 := u.image(k[0])
		y, ok2 := u.image(k[1])
		if ok1 && ok2 {
			if d, ok := u.b.upper(x, y); !ok || d > c {
				return false
			}
		}
	}
	return true
}

// rootsOf lists the roots of a state in comparison order: ghost first, so
// that the symbols of the specification are paired before all others.
func (st *State) cmpRoots(extra []Val) []Val {
	out := append([]Val(nil), st.ghost.Roots()...)
	out = append(out, extra...)
	out = append(out, st.regs...)
	out = append(out, st.defers...)
	out = append(out, st.pan)
	for o := ObjID(1); o <= st.anchO; o++ {
		if _, ok := st.objs[o]; ok {
			out = append(out, Ptr{O: o})
		}
	}
	for s := SymID(1); s <= st.anchS; s++ {
		if _, ok := st.syms[s]; ok {
			out = append(out, SymRef{s})
		}
	}
	return out
}

func sameSkeleton(a, b *State) bool {
	return a.prog == b.prog && a.prev == b.prev && len(a.defers) == len(b.defers) &&
		(a.pan == nil) == (b.pan == nil) && len(a.regs) == len(b.regs) &&
		a.ghost.Shape() == b.ghost.Shape() && a.iterations() == b.iterations()
}

// iterations names the positions of the iterations of known maps under way.
func (st *State) iterations() string {
	out := ""
	for _, ob := range st.objs {
		if strings.HasPrefix(ob.Shape, "iter(") || strings.HasPrefix(ob.Shape, "iteragg") {
			if out == "" || ob.Shape < out {
				out = ob.Shape
			}
		}
	}
	return out
}

// item is a state with result values, for exits.
type item struct {
	st   *State
	vals []Val
}

// subsumedBy reports whether b is covered by a.
func subsumedBy(b, a item) bool {
	_, ok := subsume(b, a)
	return ok
}

func subsume(b, a item) (*unify, bool) {
	if !sameSkeleton(a.st, b.st) || len(a.vals) != len(b.vals) {
		return nil, false
	}
	u := newUnify(a.st, b.st)
	u.sub = true
	u.maxDiffs = 0
	if !u.run(a.st.cmpRoots(a.vals), b.st.cmpRoots(b.vals)) || len(u.diffs) > 0 {
		return nil, false
	}
	if only, _ := u.named(); len(only) > 0 {
		return nil, false
	}
	for _, p := range u.domDiffs() {
		if !u.b.syms[p[1]].Dom.subset(u.a.syms[p[0]].Dom) {
			return nil, false
		}
	}
	// a restricted to b's choices must have b's values
	return u, u.tabsAgree() && u.bCovered()
}

// tabsAgree: while merging, tables of a and constants of b combine; the
// result restricted to a's alternatives must be a itself, which holds when
// no value of b was imported.
func (u *unify) tabsAgree() bool {
	clean := true
	var f func(v Val)
	f = func(v Val) {
		switch v := v.(type) {
		case impV:
			clean = false
		case Tab:
			for _, g := range v.G {
				f(g.V)
			}
		case Iface:
			f(v.V)
		case Agg:
			for _, x := range v.F {
				f(x)
			}
		case Clo:
			for _, x := range v.B {
				f(x)
			}
		}
	}
	for _, r := range u.roots {
		f(r)
	}
	for _, o := range u.done {
		for _, x := range o.F {
			f(x)
		}
	}
	return clean
}

type mergeMode int

const (
	mergeExact mergeMode = iota // only if nothing is lost
	mergeHull                   // integers may be joined
	mergeWiden                  // integers are widened to constants of the program
	mergeLast                   // integers that grow are unbounded
)

// merge joins two states if they differ in one choice only.
func merge(a, b item, mode mergeMode) (item, bool) {
	if !sameSkeleton(a.st, b.st) || len(a.vals) != len(b.vals) {
		return item{}, false
	}
	u := newUnify(a.st, b.st)
	u.maxDiffs = 40
	if !u.run(a.st.cmpRoots(a.vals), b.st.cmpRoots(b.vals)) {
		return item{}, false
	}
	onlyA, onlyB := u.named()
	for _, s := range onlyA {
		if mode == mergeExact || fixedPlace(a.st.syms[s].Def) {
			return item{}, false
		}
	}
	for _, s := range onlyB {
		if mode == mergeExact || fixedPlace(b.st.syms[s].Def) {
			return item{}, false
		}
	}
	dd := u.domDiffs()
	var disc SymID
	intOnly := false
	switch {
	case len(u.diffs) == 0 && len(dd) == 0:
		if mode == mergeExact && !u.sameFacts() {
			return item{}, false
		}
	case len(u.diffs) == 0 && len(dd) == 1:
		if mode == mergeExact && !u.sameFacts() {
			return item{}, false
		}
	case len(u.diffs) > 0 && len(dd) == 1 && !u.segDiff:
		if u.a.syms[dd[0][0]].Dom.overlaps(u.b.syms[dd[0][1]].Dom) {
			return item{}, false
		}
		if !u.sameFacts() {
			return item{}, false
		}
		for i := range a.st.ghost.Roots() {
			if _, ok := u.roots[i].(diffV); ok {
				return item{}, false
			}
		}
		disc = dd[0][0]
	case len(u.diffs) > 0 && len(dd) == 0 && mode != mergeExact:
		for _, d := range u.diffs {
			_, _, ok1 := linParts(d.a)
			_, _, ok2 := linParts(d.b)
			if !ok1 || !ok2 {
				return item{}, false
			}
		}
		intOnly = true
	default:
		return item{}, false
	}
	m := u.build(a, b, disc, intOnly, mode)
	if mode == mergeLast {
		// loose facts would be derived again from the others for ever
		for k, c := range m.st.rel {
			if c > 2 {
				delete(m.st.rel, k)
			}
		}
	}
	for _, s := range onlyA {
		m.st.forget(s)
	}
	return m, true
}

// fixedPlace reports whether a name is about one place that does not depend
// on how far a loop has come.
func fixedPlace(def Val) bool {
	fixed := closedVal(def)
	walkVal(def, func(v Val) {
		if t, ok := v.(Term); ok && (t.Op == "elem" || t.Op == "segelem" || t.Op == "mapkey" || t.Op == "mapval") {
			fixed = false
		}
	})
	return fixed
}

// liveSyms lists the symbols that values mention.
func (st *State) liveSyms(roots []Val) map[SymID]bool {
	r := st.reachVals(roots)
	out := map[SymID]bool{}
	for _, s := range r.syms {
		out[s] = true
	}
	return out
}

// passing reports whether a name is about an element of a list other than
// the one that the specification is at.
func (st *State) passing(def Val) bool {
	roots := st.ghost.Roots()
	elem, old := false, false
	walkVal(def, func(v Val) {
		t, ok := v.(Term)
		if !ok || t.Op != "elem" && t.Op != "segelem" && t.Op != "mapkey" && t.Op != "mapval" {
			return
		}
		elem = true
		i := st.norm(t.A[1])
		for _, r := range roots {
			if eqVal(st.norm(r), i) {
				return
			}
		}
		old = true
	})
	if elem {
		return old
	}
	return !closedVal(def)
}

// dropPassing forgets what is known about parts of earlier iterations.
func (st *State) dropPassing() {
	if !st.e.keepNamed {
		return
	}
	live := st.liveSyms(st.allRoots())
	for _, s := range sortedSyms(st) {
		if !live[s] && st.narrowed(s) && st.passing(st.syms[s].Def) {
			st.forget(s)
		}
	}
	st.gc()
}

// forget drops what is known about a named symbol.
func (st *State) forget(s SymID) {
	si := *st.syms[s]
	si.Dom, si.Lo, si.Hi = si.Dom0, si.Lo0, si.Hi0
	st.syms[s] = &si
	for k := range st.rel {
		if k[0] == s || k[1] == s {
			delete(st.rel, k)
		}
	}
}

func (u *unify) sameFacts() bool {
	if !u.intsEqual() {
		return false
	}
	if !u.bCovered() {
		return false
	}
	for k, c := range u.b.rel {
		x, ok1 := u.symBA[k[0]]
		y, ok2 := u.symBA[k[1]]
		if ok1 && ok2 && u.a.maxDiff(x, y) > c {
			return false
		}
	}
	return true
}

func (u *unify) importSym(s SymID, m *State) SymID {
	if s == 0 {
		return 0
	}
	if a, ok := u.symBA[s]; ok {
		return a
	}
	if a, ok := u.importedS[s]; ok {
		return a
	}
	si := *u.b.syms[s]
	m.nextS++
	id := m.nextS
	u.importedS[s] = id
	if si.Def != nil {
		si.Def = u.importVal(si.Def, m)
	}
	m.syms[id] = &si
	return id
}

func (u *unify) importObj(o ObjID, m *State) ObjID {
	if o <= 0 {
		return o
	}
	if a, ok := u.objBA[o]; ok {
		return a
	}
	if a, ok := u.imported[o]; ok {
		return a
	}
	m.nextO++
	id := m.nextO
	u.imported[o] = id
	x := u.b.obj(o)
	f := make([]Val, len(x.F))
	for i := range f {
		f[i] = u.importVal(x.F[i], m)
	}
	m.objs[id] = &Obj{x.Shape, x.T, f}
	return id
}

func (u *unify) importVal(v Val, m *State) Val {
	r := &remap{
		sym: func(s SymID) SymID { return u.importSym(s, m) },
		obj: func(o ObjID) ObjID { return u.importObj(o, m) },
	}
	return r.val(v)
}

func (u *unify) build(a, b item, disc SymID, intOnly bool, mode mergeMode) item {
	m := a.st.clone()
	u.imported = map[ObjID]ObjID{}
	u.importedS = map[SymID]SymID{}
	if b.st.nextO > m.nextO {
		m.nextO = b.st.nextO
	}
	if b.st.nextS > m.nextS {
		m.nextS = b.st.nextS
	}
	// domains and intervals
	for _, p := range u.pairs {
		ia, ib := u.a.syms[p[0]], u.b.syms[p[1]]
		n := *ia
		if ia.U != nil {
			n.Dom = ia.Dom.or(ib.Dom)
		} else {
			if ib.Lo < n.Lo {
				n.Lo = ib.Lo
				n.Lo = u.a.e.widened(ib.Lo, false, mode)
			}
			if ib.Hi > n.Hi {
				n.Hi = ib.Hi
				n.Hi = u.a.e.widened(ib.Hi, true, mode)
			}
		}
		m.syms[p[0]] = &n
	}
	// facts that hold in both
	m.rel = map[[2]SymID]int64{}
	addRel := func(x, y SymID) {
		if x == y || x == 0 || y == 0 {
			return
		}
		bx, ok1 := u.symAB[x]
		by, ok2 := u.symAB[y]
		if !ok1 || !ok2 {
			return
		}
		ca, cb := u.a.maxDiff(x, y), u.b.maxDiff(bx, by)
		c := ca
		if cb > c {
			if mode >= mergeWiden {
				return
			}
			c = cb
		}
		if c < posInf {
			m.rel[[2]SymID{x, y}] = c
		}
	}
	for k := range u.a.rel {
		addRel(k[0], k[1])
	}
	for k := range u.b.rel {
		x, ok1 := u.symBA[k[0]]
		y, ok2 := u.symBA[k[1]]
		if ok1 && ok2 {
			addRel(x, y)
		}
	}
	// facts about symbols that only one side has
	for k, c := range u.a.rel {
		_, ok1 := u.symAB[k[0]]
		_, ok2 := u.symAB[k[1]]
		if (!ok1 || !ok2) && !intOnly && disc != 0 {
			if !ok1 && !ok2 {
				m.rel[k] = c
			}
		}
	}
	// integer differences become symbols
	repl := make([]Val, len(u.diffs))
	if intOnly {
		u.generalize(m, repl, mode)
	}
	var resolve func(v Val) Val
	resolve = func(v Val) Val {
		switch v := v.(type) {
		case diffV:
			if intOnly {
				return repl[v]
			}
			d := u.diffs[v]
			da, db := u.a.syms[disc].Dom, u.b.syms[u.symAB[disc]].Dom
			var g []Grp
			add := func(x Val, dom Bits) {
				if t, ok := x.(Tab); ok && t.S == disc {
					for _, y := range t.G {
						g = append(g, Grp{y.Set.and(dom), y.V})
					}
					return
				}
				g = append(g, Grp{dom, x})
			}
			add(d.a, da)
			add(u.importVal(d.b, m), db)
			return mkTab(disc, g)
		case impV:
			return u.importVal(v.v, m)
		case Tab:
			g := make([]Grp, len(v.G))
			for i := range v.G {
				g[i] = Grp{v.G[i].Set, resolve(v.G[i].V)}
			}
			return mkTab(v.S, g)
		case Iface:
			return Iface{v.T, resolve(v.V)}
		case Agg:
			f := make([]Val, len(v.F))
			for i := range f {
				f[i] = resolve(v.F[i])
			}
			return Agg{f}
		case Clo:
			f := make([]Val, len(v.B))
			for i := range f {
				f[i] = resolve(v.B[i])
			}
			return Clo{v.F, f}
		case Seg:
			f := make([]Val, len(v.A))
			for i := range f {
				f[i] = resolve(v.A[i])
			}
			return Seg{v.Kind, f}
		case Term:
			f := make([]Val, len(v.A))
			for i := range f {
				f[i] = resolve(v.A[i])
			}
			return Term{v.Op, f}
		case In:
			return In{resolve(v.T).(Term)}
		case InSlice:
			return InSlice{resolve(v.T).(Term)}
		case InMap:
			return InMap{resolve(v.T).(Term)}
		}
		return v
	}
	for _, p := range u.pairs {
		if d, ok := u.defs[p[0]]; ok {
			n := *m.syms[p[0]]
			n.Def = resolve(d)
			if _, dup := m.findSym(n.Def); dup {
				n.Def = nil
			}
			m.syms[p[0]] = &n
		}
	}
	for o, ob := range u.done {
		f := make([]Val, len(ob.F))
		for i := range f {
			f[i] = resolve(ob.F[i])
		}
		m.objs[o] = &Obj{ob.Shape, ob.T, f}
	}
	rs := make([]Val, len(u.roots))
	for i := range rs {
		rs[i] = resolve(u.roots[i])
	}
	ng := len(a.st.ghost.Roots())
	m.ghost = a.st.ghost.With(rs[:ng])
	rs = rs[ng:]
	vals := rs[:len(a.vals)]
	rs = rs[len(a.vals):]
	m.regs = append([]Val(nil), rs[:len(m.regs)]...)
	rs = rs[len(m.regs):]
	m.defers = append([]Val(nil), rs[:len(m.defers)]...)
	rs = rs[len(m.defers):]
	m.pan = rs[0]
	return item{m, vals}
}

// generalize gives new symbols to places that hold different integers:
// places that move together share a symbol.
func (u *unify) generalize(m *State, repl []Val, mode mergeMode) {
	type group struct {
		delta  int64
		sa, sb SymID
		base   int // index of diff
		sym    SymID
	}
	var groups []*group
	for i, d := range u.diffs {
		sa, oa, _ := linParts(d.a)
		sb, ob, _ := linParts(d.b)
		var g *group
		for _, x := range groups {
			if x.sa == sa && x.sb == sb && x.delta == ob-oa {
				g = x
			}
		}
		if g == nil {
			g = &group{delta: ob - oa, sa: sa, sb: sb, base: i}
			groups = append(groups, g)
			la, ha := u.a.bounds(d.a)
			lb, hb := u.b.bounds(d.b)
			lo, hi := la, ha
			if lb < lo {
				lo = lb
				lo = u.a.e.widened(lb, false, mode)
			}
			if hb > hi {
				hi = hb
				hi = u.a.e.widened(hb, true, mode)
			}
			g.sym = m.newInt(lo, hi, nil)
			// relations to the other integer symbols
			for _, p := range u.pairs {
				if u.a.syms[p[0]].U != nil {
					continue
				}
				rel := func(x, y, x2, y2 Val, k [2]SymID) {
					c1, ok1 := u.a.upper(x, y)
					c2, ok2 := u.b.upper(x2, y2)
					if !ok1 || !ok2 || c1 >= posInf || c2 >= posInf {
						return
					}
					if c2 > c1 {
						if mode >= mergeWiden {
							return
						}
						c1 = c2
					}
					m.rel[k] = c1
				}
				rel(d.a, Lin{p[0], 0}, d.b, Lin{p[1], 0}, [2]SymID{g.sym, p[0]})
				rel(Lin{p[0], 0}, d.a, Lin{p[1], 0}, d.b, [2]SymID{p[0], g.sym})
			}
		}
		_, o0, _ := linParts(u.diffs[g.base].a)
		repl[i] = Lin{g.sym, oa - o0}
	}
	// relations between the new symbols
	for _, g := range groups {
		for _, h := range groups {
			if g == h {
				continue
			}
			c1, _ := u.a.upper(u.diffs[g.base].a, u.diffs[h.base].a)
			c2, _ := u.b.upper(u.diffs[g.base].b, u.diffs[h.base].b)
			if c2 > c1 {
				if mode >= mergeWiden {
					continue
				}
				c1 = c2
			}
			if c1 < posInf {
				m.rel[[2]SymID{g.sym, h.sym}] = c1
			}
		}
	}
}

func (st *State) bounds(v Val) (int64, int64) {
	switch v := v.(type) {
	case Int:
		return int64(v), int64(v)
	case Lin:
		si := st.syms[v.S]
		lo, hi := si.Lo, si.Hi
		if lo > negInf {
			lo += v.O
		}
		if hi < posInf {
			hi += v.O
		}
		return lo, hi
	}
	return negInf, posInf
}
