package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Tree describes the syntax tree types of the program and provides
// symbolic trees in input memory: every node is a place; what stands there
// is a choice.
type Tree struct {
	w       *World
	expr    *types.Named // the Expr interface
	exprI   *types.Interface
	nodes   []*types.Named // node types, by name
	index   map[string]int
	typeU   *Universe // dynamic type of an Expr: a node type or nil
	nilIdx  int
	enums   map[string]*enum
	domains map[string]Bits           // place key -> allowed types
	nilable map[string]bool           // place key -> may be nil
	ints    map[string][2]int64       // place key -> interval
	enumDom map[string]map[int64]bool // place key -> allowed values
	minLen  map[string]int64
}

type enum struct {
	u     *Universe
	vals  []int64
	names []string
	at    map[int64]int
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// theTree is the tree of the running analysis, for messages.
var theTree *Tree

func newTree(w *World) *Tree {
	t := &Tree{w: w, index: map[string]int{}, enums: map[string]*enum{}, domains: map[string]Bits{},
		nilable: map[string]bool{}, ints: map[string][2]int64{}, enumDom: map[string]map[int64]bool{}, minLen: map[string]int64{}}
	sc := w.pkg.Pkg.Scope()
	ex, ok := sc.Lookup("Expr").(*types.TypeName)
	if !ok {
		panic(undecidable{"there is no type Expr"})
	}
	t.expr = ex.Type().(*types.Named)
	t.exprI, ok = t.expr.Underlying().(*types.Interface)
	if !ok {
		panic(undecidable{"Expr is not an interface"})
	}
	names := sc.Names()
	sort.Strings(names)
	for _, n := range names {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(nt) {
			continue
		}
		if types.Implements(types.NewPointer(nt), t.exprI) {
			t.index[n] = len(t.nodes)
			t.nodes = append(t.nodes, nt)
		}
	}
	theTree = t
	t.nilIdx = len(t.nodes)
	t.typeU = &Universe{Name: "node type", N: len(t.nodes) + 1, Label: func(i int) string {
		if i == t.nilIdx {
			return "nil"
		}
		return t.nodes[i].Obj().Name()
	}}
	return t
}

func (t *Tree) types(names ...string) (b Bits) {
	for _, n := range names {
		if i, ok := t.index[n]; ok {
			b = b.or(bit(i))
		}
	}
	return
}

// enumOf collects the constants of a named integer type.
func (t *Tree) enumOf(n *types.Named) *enum {
	key := n.Obj().Pkg().Name() + "." + n.Obj().Name()
	if e, ok := t.enums[key]; ok {
		return e
	}
	e := &enum{at: map[int64]int{}}
	for _, name := range n.Obj().Pkg().Scope().Names() {
		c, ok := n.Obj().Pkg().Scope().Lookup(name).(*types.Const)
		if !ok || !types.Identical(c.Type(), n) {
			continue
		}
		v, ok := constant.Int64Val(c.Val())
		if !ok {
			continue
		}
		if i, dup := e.at[v]; dup {
			e.names[i] += "/" + name
			continue
		}
		e.at[v] = len(e.vals)
		e.vals = append(e.vals, v)
		e.names = append(e.names, name)
	}
	if len(e.vals) == 0 || len(e.vals) > 500 {
		t.enums[key] = nil
		return nil
	}
	if _, ok := e.at[0]; !ok {
		e.at[0] = len(e.vals)
		e.vals = append(e.vals, 0)
		e.names = append(e.names, "0")
	}
	e.u = &Universe{Name: key, N: len(e.vals), Label: func(i int) string { return e.names[i] }}
	t.enums[key] = e
	return e
}

func (t *Tree) constVal(name string) int64 {
	c, ok := t.w.pkg.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(undecidable{"there is no constant " + name})
	}
	v, _ := constant.Int64Val(c.Val())
	return v
}

// placeKey names the field that a place belongs to.
func (t *Tree) placeKey(p Val) string {
	x, ok := p.(Term)
	if !ok {
		return ""
	}
	switch {
	case x.Op == "fld":
		o, ok := x.A[0].(Term)
		if !ok || !strings.HasPrefix(o.Op, "obj:") {
			return ""
		}
		n := o.Op[4:]
		if i, ok := t.index[n]; ok {
			s, ok := t.nodes[i].Underlying().(*types.Struct)
			if ok {
				return n + "." + s.Field(int(x.A[1].(Int))).Name()
			}
		}
		return ""
	case x.Op == "elem" || x.Op == "comp" || x.Op == "segelem" || x.Op == "sub":
		return t.placeKey(x.A[0]) + "[]"
	}
	return ""
}

func (t *Tree) typeDom(prov Term) Bits {
	k := t.placeKey(prov)
	if d, ok := t.domains[k]; ok {
		return d
	}
	d := fullBits(len(t.nodes)).minus(t.types("Assign", "Trigger"))
	if t.nilable[k] {
		d = d.or(bit(t.nilIdx))
	}
	return d
}

// exprAt is the value of an Expr stored at a place.
func (t *Tree) exprAt(st *State, prov Term) Val {
	dom := t.typeDom(prov)
	s := st.choiceFor(t.typeU, dom, term("dyn", prov))
	var g []Grp
	st.syms[s].Dom.each(func(i int) {
		if i == t.nilIdx {
			g = append(g, Grp{bit(i), Nil{}})
			return
		}
		g = append(g, Grp{bit(i), Iface{types.NewPointer(t.nodes[i]), In{term("obj:"+t.nodes[i].Obj().Name(), prov)}}})
	})
	return mkTab(s, g)
}

// load reads input memory.
func (t *Tree) load(st *State, prov Term, ty types.Type) Val {
	depth := 0
	for p, ok := prov, true; ok && len(p.A) > 0; p, ok = p.A[0].(Term) {
		depth++
	}
	if depth > 24 {
		panic(undecidable{"the code follows the parts of parts without end"})
	}
	if types.Identical(ty, t.expr) {
		return t.exprAt(st, prov)
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		if n := namedOf(u); n != nil {
			v := In{term("obj:"+n.Obj().Name(), prov)}
			if t.nilable[t.placeKey(prov)] {
				s := st.choiceFor(nilU, fullBits(2), term("isnil", prov))
				return st.norm(Tab{s, []Grp{{bit(0), Nil{}}, {bit(1), v}}})
			}
			return v
		}
	case *types.Slice:
		lo := t.minLen[t.placeKey(prov)]
		if lo > 0 {
			st.intFor(lo, posInf, term("len", prov))
		}
		return InSlice{prov}
	case *types.Map:
		return InMap{prov}
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return st.opaqueBool(term("b", prov))
		case u.Info()&types.IsInteger != 0:
			k := t.placeKey(prov)
			if n := namedOf(ty); n != nil && n.Obj().Pkg() == t.w.pkg.Pkg {
				if e := t.enumOf(n); e != nil && len(e.vals) > 1 {
					dom := Bits{}
					for i, v := range e.vals {
						if al, ok := t.enumDom[k]; !ok || al[v] {
							dom = dom.or(bit(i))
						}
					}
					s := st.choiceFor(e.u, dom, term("int", prov))
					var g []Grp
					st.syms[s].Dom.each(func(i int) { g = append(g, Grp{bit(i), Int(e.vals[i])}) })
					return mkTab(s, g)
				}
			}
			lo, hi := int64(intRange(ty, false)), int64(intRange(ty, true))
			if r, ok := t.ints[k]; ok {
				lo, hi = r[0], r[1]
			}
			return st.intFor(lo, hi, term("int", prov))
		case u.Info()&types.IsFloat != 0:
			return term("flt", prov)
		case u.Info()&types.IsString != 0:
			return term("str", prov)
		}
	case *types.Interface:
		return Iface{opaqueT, prov}
	case *types.Signature:
		return prov
	}
	return Top{}
}

// placeOf tells which place a node value comes from.
func placeOf(v Val) (Val, bool) {
	switch v := v.(type) {
	case Iface:
		return placeOf(v.V)
	case In:
		if strings.HasPrefix(v.T.Op, "obj:") {
			return v.T.A[0], true
		}
	case Tab:
		var p Val
		for _, g := range v.G {
			if _, isNil := g.V.(Nil); isNil {
				return nil, false
			}
			q, ok := placeOf(g.V)
			if !ok || p != nil && !eqVal(p, q) {
				return nil, false
			}
			p = q
		}
		return p, p != nil
	}
	return nil, false
}

// child is one structural part of a node type.
type child struct {
	field int
	name  string
	list  bool
	typ   types.Type // Expr or *T
}

// children lists the parts of a node type in order.
func (t *Tree) children(n *types.Named) (out []child) {
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		list := false
		if sl, ok := ft.Underlying().(*types.Slice); ok {
			ft, list = sl.Elem(), true
		}
		if types.Identical(ft, t.expr) || types.IsInterface(ft) && types.Implements(ft, t.exprI) {
			out = append(out, child{i, s.Field(i).Name(), list, ft})
			continue
		}
		if p, ok := ft.(*types.Pointer); ok && types.Implements(p, t.exprI) {
			out = append(out, child{i, s.Field(i).Name(), list, ft})
		}
	}
	return
}

// standard well-formedness of trees that a parse returns (decided by C21
// and C08 for the parser).
func (t *Tree) wellFormed() {
	for _, k := range []string{"Trigger.RepeatCount", "Trigger.RepeatInterval", "Trigger.ResetAfter", "GeometryPointTyp.Radius", "GeometryLineTyp.Margin"} {
		t.nilable[k] = true
	}
	nilB := bit(t.nilIdx)
	t.domains["Trigger.RepeatCount"] = t.types("IntTyp").or(nilB)
	t.domains["Trigger.RepeatInterval"] = t.types("DurationTyp").or(nilB)
	t.domains["Trigger.ResetAfter"] = t.types("DurationTyp").or(nilB)
	t.ints["WeekdayTyp.Val"] = [2]int64{0, 6}
	t.ints["MonthTyp.Val"] = [2]int64{1, 12}
	t.ints["DateTyp.Year"] = [2]int64{2022, 2200}
	t.ints["DateTyp.Month"] = [2]int64{1, 12}
	t.ints["DateTyp.Day"] = [2]int64{1, 31}
	t.ints["TimeTyp.Hours"] = [2]int64{0, 24}
	t.ints["TimeTyp.Minutes"] = [2]int64{0, 59}
	t.ints["TimeTyp.Seconds"] = [2]int64{0, 59}
}

func (w *World) fn(name string) *ssa.Function {
	f := w.pkg.Func(name)
	if f == nil {
		panic(undecidable{"there is no function " + name})
	}
	return f
}
