package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The check analysis interprets CheckType on a statement WHEN left op right
// whose operands are choices among all forms of an operand, and compares the
// verdict with the table of operators and kinds. An operand that is itself
// compound is a call of the recursive function under analysis; it returns
// what that function is found to return for expressions of that kind.

func init() {
	runs["check"] = checkRun
	plan["C18"] = []string{"check"}
	plan["C19"] = []string{"check"}
	plan["C14"] = append(plan["C14"], "check")
}

// kinds of values
const (
	kInt = 1 << iota
	kFlt
	kStr
	kBool
	kAInt
	kAFlt
	kAStr
	kRInt
	kRFlt
	kGeom
)

var kindNames = []string{"int", "float", "string", "boolean", "array of int", "array of float", "array of string", "range of int", "range of float", "geometry"}

func kindsName(c uint) string {
	var out []string
	for i, n := range kindNames {
		if c&(1<<i) != 0 {
			out = append(out, n)
		}
	}
	if len(out) == 0 {
		return "no kind"
	}
	return strings.Join(out, "/")
}

// shape is one form of an operand.
type shape struct {
	name    string
	typ     string // node type
	kids    map[string]*shape
	item    *shape // every element of a list …
	bad     *shape // … but one
	arrKind string
	dict    string // what the dictionary says of a selector, "" if nothing
	val     *shape // what a variable is assigned, nil if nothing
	alias   string // a variable is the one named at this sibling place
	self    bool   // a variable is the one whose value this is
	hyp     string // what a compound expression yields
	odd     int    // where the odd element stands
	cls     uint
	via     string // "" for a value that stands there itself
}

type operandForms struct {
	list  []*shape
	u     *Universe
	vars  map[string]int // the places of variables
	names []string
}

func (f *operandForms) add(s *shape) *shape { f.list = append(f.list, s); return s }

const hypErr = "ERR"

var hypKinds = map[string]uint{"INT": kInt, "FLT": kFlt, "STR": kStr, "BOOL": kBool, hypErr: 0}

func arrayOf(c uint) (a uint) {
	if c&kInt != 0 {
		a |= kAInt
	}
	if c&kFlt != 0 {
		a |= kAFlt
	}
	if c&kStr != 0 {
		a |= kAStr
	}
	return
}

func rangeOf(lo, hi uint) (r uint) {
	if hi&(kInt|kFlt) == 0 {
		return 0
	}
	if lo&kInt != 0 {
		r |= kRInt
	}
	if lo&kFlt != 0 {
		r |= kRFlt
	}
	return
}

func newForms(t *Tree) *operandForms {
	f := &operandForms{}
	simple := map[string]uint{"IntTyp": kInt, "StringTyp": kStr, "BooleanTyp": kBool}
	for _, n := range []string{"FloatTyp", "PercentTyp", "PressureTyp", "DistanceTyp", "SpeedTyp", "TemperatureTyp"} {
		simple[n] = kFlt
	}
	for _, n := range []string{"GeometryPointTyp", "GeometryLineTyp", "GeometryPolygonTyp", "GeometryMultiObjectTyp", "GeometryCollectionTyp"} {
		simple[n] = kGeom
	}
	leaf := func(n string) *shape { return &shape{name: n, typ: n, cls: simple[n]} }
	paren := func(x *shape) *shape {
		return &shape{name: "(" + x.name + ")", typ: "ParenExpr", kids: map[string]*shape{"Expr": x}, cls: x.cls, via: "paren"}
	}
	ref := func(v *shape) *shape {
		if v == nil {
			return &shape{name: "@unassigned", typ: "Ref", via: "ref"}
		}
		return &shape{name: "@v=" + v.name, typ: "Ref", val: v, cls: v.cls, via: "ref"}
	}
	sel := func(d string) *shape {
		kinds := map[string]uint{"Int": kInt | kAInt, "Float": kFlt | kAFlt, "String": kStr | kAStr, "Boolean": kBool,
			"ArrayInt": kAInt, "ArrayFloat": kAFlt, "ArrayString": kAStr}
		n := "selector:" + d
		if d == "" {
			n = "selector:undeclared"
		}
		return &shape{name: n, typ: "Selector", dict: d, cls: kinds[d], via: "selector"}
	}
	cmp := func(h string) *shape {
		return &shape{name: "compound:" + h, typ: "BinaryExpr", hyp: h, cls: hypKinds[h], via: "compound"}
	}
	arr := func(kind string, x *shape) *shape {
		a := &shape{name: "[" + x.name + "…]", typ: "ArrayTyp", arrKind: kind, item: x, cls: arrayOf(x.cls)}
		if kind == "IDENT" {
			a.via = "elements"
		}
		return a
	}
	mixed := func(x, bad *shape, odd int) *shape {
		c := uint(0)
		if x.cls&bad.cls&(kInt|kFlt|kStr) != 0 {
			c = arrayOf(x.cls & bad.cls)
		}
		return &shape{name: "[" + [3]string{bad.name + "," + x.name + "," + x.name, x.name + "," + bad.name + "," + x.name, x.name + "," + x.name + "," + bad.name}[odd] + "]", typ: "ArrayTyp", arrKind: "IDENT", item: x, bad: bad, odd: odd, cls: c, via: "elements"}
	}
	rng := func(lo, hi *shape) *shape {
		s := &shape{name: lo.name + ".." + hi.name, typ: "Range", kids: map[string]*shape{"Low": lo, "High": hi}, cls: rangeOf(lo.cls, hi.cls)}
		if lo.via != "" || hi.via != "" {
			s.via = "bounds"
		}
		return s
	}
	var leaves []*shape
	special := map[string]bool{"Trigger": true, "Assign": true, "Ident": true, "BinaryExpr": true, "ParenExpr": true, "Ref": true, "Selector": true, "ArrayTyp": true, "Range": true}
	for _, n := range t.nodes {
		if !special[n.Obj().Name()] {
			leaves = append(leaves, leaf(n.Obj().Name()))
		}
	}
	i, fl, str, bo, geo := leaf("IntTyp"), leaf("FloatTyp"), leaf("StringTyp"), leaf("BooleanTyp"), leaf("GeometryPointTyp")
	dur := leaf("DurationTyp")
	var sels []*shape
	for _, d := range []string{"", "Int", "Float", "String", "Boolean", "ArrayInt", "ArrayFloat", "ArrayString", "?"} {
		sels = append(sels, sel(d))
	}
	var arrays []*shape
	arrays = append(arrays, arr("INT", i), arr("FLOAT", fl), arr("STRING", str))
	var elems []*shape
	for _, x := range []*shape{i, fl, leaf("SpeedTyp"), str, bo, dur, geo, arrays[0], paren(i), paren(sel("Float"))} {
		elems = append(elems, ref(x))
	}
	elems = append(elems, ref(nil), ref(paren(cmp("INT"))))
	for _, x := range elems {
		arrays = append(arrays, arr("IDENT", x))
	}
	for _, p := range [][3]int{{0, 1, 0}, {0, 1, 1}, {0, 1, 2}, {1, 0, 0}, {1, 0, 2}, {0, 3, 0}, {0, 3, 1}, {0, 3, 2}, {3, 0, 0}, {3, 0, 2}, {1, 3, 0}, {1, 3, 2}, {0, 10, 0}, {0, 10, 1}, {0, 10, 2}, {3, 10, 2}, {0, 4, 0}, {0, 4, 2}, {0, 8, 1}} {
		arrays = append(arrays, mixed(elems[p[0]], elems[p[1]], p[2]))
	}
	var ranges []*shape
	bounds := []*shape{i, fl, str, dur, leaf("PercentTyp"), leaf("TimeTyp"), ref(i), ref(fl), ref(str), ref(nil), ref(paren(i)), sel("Int"), sel("Float"), sel("String"), sel(""), sel("ArrayInt"), paren(i), paren(str), cmp("INT"), cmp("FLT"), cmp("STR"), cmp(hypErr)}
	for _, b := range bounds {
		ranges = append(ranges, rng(b, i))
		if b != i {
			ranges = append(ranges, rng(i, b))
		}
	}
	ranges = append(ranges, rng(fl, fl), rng(fl, str), rng(str, str), rng(ref(fl), fl), rng(fl, ref(i)))
	both := rng(ref(i), &shape{name: "@same", typ: "Ref", alias: "Low", val: i, cls: kInt, via: "ref"})
	ranges = append(ranges, both)
	var plain []*shape
	plain = append(plain, leaves...)
	plain = append(plain, arrays...)
	plain = append(plain, ranges...)
	for _, x := range plain {
		f.add(x)
	}
	for _, x := range sels {
		f.add(x)
	}
	for _, h := range []string{"INT", "FLT", "STR", "BOOL", hypErr} {
		f.add(cmp(h))
	}
	// what parentheses and variables can hold
	var inner []*shape
	inner = append(inner, leaves...)
	inner = append(inner, arrays[:6]...)
	inner = append(inner, arrays[len(arrays)-8], ranges[0], ranges[3], rng(fl, fl))
	inner = append(inner, sels...)
	for _, h := range []string{"INT", "FLT", "STR", "BOOL", hypErr} {
		inner = append(inner, cmp(h))
	}
	for _, x := range inner {
		f.add(paren(x))
		if x.via == "selector" || x.via == "compound" {
			f.add(ref(paren(x)))
		} else {
			f.add(ref(x))
		}
	}
	for _, x := range []*shape{ref(i), ref(fl), ref(str), ref(nil), ref(arrays[0]), ref(geo)} {
		f.add(paren(x))
		f.add(ref(paren(x)))
	}
	for _, x := range []*shape{i, str, sel("Float"), cmp("BOOL"), cmp(hypErr), ref(i)} {
		f.add(paren(paren(x)))
		f.add(paren(paren(paren(x))))
		f.add(ref(paren(paren(x))))
	}
	for _, x := range []*shape{paren(i), paren(sel("Float")), paren(cmp("INT")), ranges[0], arrays[3], paren(ref(i))} {
		f.add(paren(ref(x)))
	}
	f.add(ref(paren(ref(paren(str)))))
	f.add(ref(paren(ref(ranges[0]))))
	f.add(arr("IDENT", ref(paren(ref(i)))))
	f.add(ref(nil))
	self := &shape{name: "@self", typ: "Ref", self: true, via: "ref"}
	f.add(ref(paren(self)))
	f.add(ref(rng(i, self)))
	seen := map[string]bool{}
	var list []*shape
	for _, s := range f.list {
		if !seen[s.name] {
			seen[s.name] = true
			list = append(list, s)
		}
	}
	f.list = list
	if len(list) > bitWords*64 {
		panic(undecidable{"too many forms of operands"})
	}
	f.enumerate()
	f.u = &Universe{Name: "operand", N: len(list), Label: func(i int) string { return list[i].name }}
	return f
}

// ---------------------------------------------------------------- the table

// admits is the documented table of operators.
func admits(op string, a, b uint) bool {
	num := uint(kInt | kFlt)
	switch op {
	case "OR", "AND":
		return a == kBool && b == kBool
	case "EQL", "LEQL", "NOT_EQ", "LNEQ":
		switch a {
		case kInt, kFlt:
			return b&num != 0
		case kStr, kBool, kAStr:
			return a == b
		case kAInt, kAFlt, kGeom:
			return b&(kAInt|kAFlt|kGeom) != 0
		}
	case "GEQ", "LEQ", "GTR", "LSS", "QUO", "MUL", "SUB", "REM":
		return a&num != 0 && b&num != 0
	case "ADD":
		return a&num != 0 && b&num != 0 || a == kStr && b == kStr
	case "IN", "NOT_IN":
		switch a {
		case kInt:
			return b&(kAInt|kRInt|kRFlt|kGeom) != 0
		case kFlt:
			return b&(kAFlt|kRInt|kRFlt|kGeom) != 0
		case kStr:
			return b == kAStr
		case kGeom:
			return b == kGeom
		}
	case "NEARBY", "NOT_NEARBY", "INTERSECTS", "NOT_INTERSECTS":
		return a&(kInt|kFlt|kGeom) != 0 && b == kGeom
	}
	return false
}

var checkedOps = []string{"OR", "AND", "EQL", "LEQL", "NOT_EQ", "LNEQ", "GEQ", "LEQ", "GTR", "LSS", "QUO", "MUL", "SUB", "ADD", "REM", "IN", "NOT_IN", "NEARBY", "NOT_NEARBY", "INTERSECTS", "NOT_INTERSECTS"}

// resultKinds are the kinds that the operation can yield.
func resultKinds(op string, l, r uint) (out uint) {
	for a := uint(1); a <= kGeom; a <<= 1 {
		for b := uint(1); b <= kGeom; b <<= 1 {
			if l&a == 0 || r&b == 0 || !admits(op, a, b) {
				continue
			}
			switch op {
			case "QUO", "MUL", "SUB", "ADD", "REM":
				switch {
				case a == kInt && b == kInt:
					out |= kInt
				case a == kStr:
					out |= kStr
				default:
					out |= kFlt
				}
			default:
				out |= kBool
			}
		}
	}
	return
}

// ---------------------------------------------------------------- the tree

type checkHooks struct {
	baseHooks
	t      *Tree
	f      *operandForms
	trig   Term // the statement
	when   Term // the place of its condition
	bin    Term // the place of the binary expression
	op     int64
	opName string
	same   bool // both operands are the same form and the same variable
	rec    *ssa.Function
	hyps   map[string][][]Val // what the recursive function returns
	opaque map[string]bool    // kinds for which that cannot be carried over
	grew   bool
	doms   [2]Bits
	graph  *callGraph
}

// operandGhost keeps the choices of the operands in every state.
type operandGhost struct{ sides []Val }

func (operandGhost) Shape() string          { return "operands" }
func (g operandGhost) Roots() []Val         { return g.sides }
func (operandGhost) With(roots []Val) Ghost { return operandGhost{append([]Val(nil), roots...)} }

func (h *checkHooks) KeepNamed() bool { return true }

func (h *checkHooks) field(typ, name string) int {
	i, ok := h.t.index[typ]
	if ok {
		s := h.t.nodes[i].Underlying().(*types.Struct)
		for k := 0; k < s.NumFields(); k++ {
			if s.Field(k).Name() == name {
				return k
			}
		}
	}
	panic(undecidable{"there is no field " + typ + "." + name})
}

func (h *checkHooks) fld(typ, name string, at Term) Term {
	return term("fld", term("obj:"+typ, at), Int(h.field(typ, name)))
}

func (h *checkHooks) side(st *State, k int) SymID {
	if h.same {
		k = 0
	}
	return st.choiceFor(h.f.u, h.doms[k], term("operand", Int(k)))
}

// spot is a place inside an operand.
type spot struct {
	sym  SymID
	side int
	path []string
}

func (s spot) key() string { return itoa(s.side) + "/" + strings.Join(s.path, "/") }

func (s spot) then(step string) spot {
	s.path = append(append([]string(nil), s.path...), step)
	return s
}

func (h *checkHooks) shapeAt(i int, path []string) *shape {
	s := h.f.list[i]
	for _, p := range path {
		switch p {
		case "@":
			s = s.val
		case "[]":
			s = s.item
		case "[bad]":
			s = s.bad
		default:
			s = s.kids[p]
		}
		if s == nil {
			return nil
		}
	}
	return s
}

// each groups the possible operands by the value of f.
func (h *checkHooks) each(st *State, at spot, f func(s *shape) Val) Val {
	var g []Grp
	dom := st.syms[at.sym].Dom
	dom.each(func(i int) {
		if s := h.shapeAt(i, at.path); s != nil {
			g = append(g, Grp{bit(i), f(s)})
			return
		}
		g = append(g, Grp{bit(i), Top{}})
	})
	return mkTab(at.sym, g)
}

// where splits the operands by a property of a place.
func (h *checkHooks) where(st *State, at spot, f func(s *shape) bool) bool {
	set := Bits{}
	st.syms[at.sym].Dom.each(func(i int) {
		if s := h.shapeAt(i, at.path); s != nil && f(s) {
			set = set.or(bit(i))
		}
	})
	return st.splitBy(at.sym, set)
}

func isTermOp(v Val, op string) (Term, bool) {
	t, ok := v.(Term)
	return t, ok && t.Op == op
}

// locate finds the operand that a place belongs to.
func (h *checkHooks) locate(st *State, p Term) (spot, bool) {
	switch p.Op {
	case "fld":
		o, ok := p.A[0].(Term)
		if !ok || !strings.HasPrefix(o.Op, "obj:") || len(o.A) != 1 {
			return spot{}, false
		}
		q, ok := o.A[0].(Term)
		if !ok {
			return spot{}, false
		}
		typ := o.Op[4:]
		i, ok := h.t.index[typ]
		if !ok {
			return spot{}, false
		}
		name := h.t.nodes[i].Underlying().(*types.Struct).Field(int(p.A[1].(Int))).Name()
		switch {
		case typ == "BinaryExpr" && eqVal(q, h.bin):
			k := 0
			if name == "Right" {
				k = 1
			}
			s := spot{sym: h.side(st, k), side: k}
			return s, name == "Left" || name == "Right"
		case typ == "Assign" && name == "Right":
			e, ok := isTermOp(q, "elem")
			if !ok || !eqVal(e.A[0], h.fld("Trigger", "Vars", h.trig)) {
				return spot{}, false
			}
			return h.assigned(st, e.A[1])
		}
		s, ok := h.locate(st, q)
		return s.then(name), ok
	case "elem":
		q, ok := isTermOp(p.A[0], "fld")
		if !ok {
			return spot{}, false
		}
		o, ok := isTermOp(q.A[0], "obj:ArrayTyp")
		if !ok {
			return spot{}, false
		}
		s, ok := h.locate(st, o.A[0].(Term))
		if !ok {
			return s, false
		}
		if !h.where(st, s, func(x *shape) bool { return x.bad != nil }) {
			return s.then("[]"), true
		}
		odd := h.each(st, s, func(x *shape) Val { return Int(x.odd) })
		switch c := st.eqInt(p.A[1], st.concretize(odd)).(type) {
		case Bool:
			if c {
				return s.then("[bad]"), true
			}
			return s.then("[]"), true
		case Term:
			panic(condSplit{c})
		}
	}
	return spot{}, false
}

// decl is the index of the assignment of the variable at a place.
func (h *checkHooks) decl(st *State, at spot) Int {
	key := at
	if h.where(st, at, func(x *shape) bool { return x.self }) {
		for k := len(key.path) - 1; k >= 0; k-- {
			if key.path[k] == "@" {
				key.path = key.path[:k]
				break
			}
		}
	} else {
		st.syms[at.sym].Dom.each(func(i int) {
			if s := h.shapeAt(i, at.path); s != nil && s.alias != "" {
				alias := s.alias
				if h.where(st, at, func(x *shape) bool { return x.alias == alias }) {
					key.path = append(append([]string(nil), at.path[:len(at.path)-1]...), alias)
				}
			}
		})
	}
	if h.same {
		key.side = 0
	}
	return Int(h.f.slot(key.side, key.path))
}

// slot is the position of the assignment of the variable at a place: the
// first one belongs to the left operand itself, the last one to the right.
func (f *operandForms) slot(side int, path []string) int {
	n := len(f.vars)
	k, ok := f.vars[strings.Join(path, "/")]
	if !ok {
		panic(undecidable{"a variable at " + strings.Join(path, "/")})
	}
	if side == 0 {
		return k
	}
	return 2*n - 1 - k
}

// enumerate finds the places at which variables are used.
func (f *operandForms) enumerate() {
	f.vars = map[string]int{"": 0}
	f.names = []string{""}
	var add func(s *shape, path []string)
	add = func(s *shape, path []string) {
		if s == nil {
			return
		}
		if s.typ == "Ref" {
			k := strings.Join(path, "/")
			if _, ok := f.vars[k]; !ok {
				f.vars[k] = len(f.names)
				f.names = append(f.names, k)
			}
		}
		then := func(p string) []string { return append(append([]string(nil), path...), p) }
		add(s.val, then("@"))
		add(s.item, then("[]"))
		add(s.bad, then("[bad]"))
		for _, k := range sortedKeys(s.kids) {
			add(s.kids[k], then(k))
		}
	}
	for _, s := range f.list {
		add(s, nil)
	}
}

// InputLen: the variables are in fixed positions; a list with an odd element
// has three.
func (h *checkHooks) InputLen(st *State, t Term) Val {
	switch h.t.placeKey(t) {
	case "Trigger.Vars":
		return Int(2 * len(h.f.vars))
	case "ArrayTyp.List":
		if s, ok := h.locate(st, t.A[0].(Term).A[0].(Term)); ok && h.where(st, s, func(x *shape) bool { return x.bad != nil }) {
			return Int(3)
		}
		return st.intFor(1, posInf, term("len", t))
	}
	return nil
}

// assigned is the value of the assignment with an index.
func (h *checkHooks) assigned(st *State, idx Val) (spot, bool) {
	i, ok := idx.(Int)
	if !ok {
		return spot{}, false
	}
	n := len(h.f.names)
	k, side := int(i), 0
	if k >= n {
		k, side = 2*n-1-k, 1
	}
	s := spot{sym: h.side(st, side), side: side}
	if p := h.f.names[k]; p != "" {
		s.path = strings.Split(p, "/")
	}
	return s.then("@"), true
}

func (h *checkHooks) node(typ string, at Term) Val {
	i, ok := h.t.index[typ]
	if !ok {
		panic(undecidable{"there is no node type " + typ})
	}
	return Iface{types.NewPointer(h.t.nodes[i]), In{term("obj:"+typ, at)}}
}

func (h *checkHooks) Input(st *State, prov Term, ty types.Type) Val {
	if types.Identical(ty, h.t.expr) {
		switch {
		case eqVal(prov, h.bin):
			return h.node("BinaryExpr", prov)
		case eqVal(prov, h.when):
			return h.node("ParenExpr", prov)
		}
		if s, ok := h.locate(st, prov); ok {
			v := h.each(st, s, func(x *shape) Val { return h.node(x.typ, prov) })
			if _, ok := v.(Top); ok {
				panic(undecidable{"an expression of an unexpected type at " + keyOf(prov)})
			}
			return v
		}
		if k := h.t.placeKey(prov); strings.HasPrefix(k, "Assign.") || strings.HasPrefix(k, "BinaryExpr.") {
			panic(undecidable{"a part of an operand is looked at: " + k})
		}
		return h.t.load(st, prov, ty)
	}
	switch h.t.placeKey(prov) {
	case "BinaryExpr.Op":
		if o, ok := isTermOp(prov.A[0], "obj:BinaryExpr"); ok && eqVal(o.A[0], h.bin) {
			return Int(h.op)
		}
		panic(undecidable{"a part of an operand is looked at"})
	case "ArrayTyp.Kind":
		if s, ok := h.locate(st, prov.A[0].(Term).A[0].(Term)); ok {
			return h.each(st, s, func(x *shape) Val {
				if x.arrKind == "" {
					return Top{}
				}
				return Int(h.t.constVal(x.arrKind))
			})
		}
	}
	return h.t.load(st, prov, ty)
}

// variable tells what a name of a variable is: an index of an assignment or
// the place of a use.
func (h *checkHooks) variable(v Val) (idx Val, use Term, ok bool) {
	t, ok := isTermOp(v, "str")
	if !ok {
		return nil, Term{}, false
	}
	f, ok := isTermOp(t.A[0], "fld")
	if !ok {
		return nil, Term{}, false
	}
	switch h.t.placeKey(f) {
	case "Ref.ID":
		return nil, f.A[0].(Term).A[0].(Term), true
	case "Ident.Val":
		q, ok := f.A[0].(Term).A[0].(Term)
		if ok && h.t.placeKey(q) == "Assign.Left" {
			if e, ok := isTermOp(q.A[0].(Term).A[0], "elem"); ok {
				return e.A[1], Term{}, true
			}
		}
	}
	return nil, Term{}, false
}

func (h *checkHooks) StrEq(st *State, x, y Val) Val {
	if a, ok := isTermOp(x, "low"); ok {
		// different names may be the same but for their case
		if b, ok := isTermOp(y, "low"); ok {
			v := h.StrEq(st, a.A[0], b.A[0])
			if v == Val(Bool(false)) {
				return st.opaqueBool(term("sameletters", a.A[0], b.A[0]))
			}
			return v
		}
	}
	i, p, ok1 := h.variable(x)
	j, q, ok2 := h.variable(y)
	if !ok1 || !ok2 {
		return nil
	}
	if i != nil && j != nil {
		return st.eqInt(i, j)
	}
	if i == nil && j == nil {
		a, ok1 := h.locate(st, p)
		b, ok2 := h.locate(st, q)
		if !ok1 || !ok2 {
			return nil
		}
		for _, s := range []spot{a, b} {
			if !h.where(st, s, func(x *shape) bool { return x.val != nil || x.self }) {
				return Bool(false)
			}
		}
		return Bool(h.decl(st, a) == h.decl(st, b))
	}
	if i == nil {
		i, q = j, p
	}
	s, ok := h.locate(st, q)
	if !ok {
		return nil
	}
	if !h.where(st, s, func(x *shape) bool { return x.val != nil || x.self }) {
		return Bool(false)
	}
	return st.eqInt(i, h.decl(st, s))
}

// SamePlace: the nodes of a tree are distinct.
func (h *checkHooks) SamePlace(st *State, a, b Term) Val {
	var x, y Val
	n := 0
	var diff func(a, b Val) bool
	diff = func(a, b Val) bool {
		if eqVal(a, b) {
			return true
		}
		s, ok1 := a.(Term)
		t, ok2 := b.(Term)
		if !ok1 || !ok2 || s.Op != t.Op || len(s.A) != len(t.A) {
			return false
		}
		for k := range s.A {
			if s.Op == "elem" && k == 1 {
				if !eqVal(s.A[k], t.A[k]) {
					x, y = s.A[k], t.A[k]
					n++
				}
				continue
			}
			if !diff(s.A[k], t.A[k]) {
				return false
			}
		}
		return true
	}
	if !diff(a, b) {
		return Bool(false)
	}
	if n == 1 {
		return st.eqInt(x, y)
	}
	return nil
}

func (h *checkHooks) MapLookup(st *State, at Term, k Val) (Val, Val, bool) {
	if at.Op != "dict" {
		return nil, nil, false
	}
	t, ok := isTermOp(k, "str")
	if !ok || h.t.placeKey(t.A[0]) != "Selector.Ident" {
		return nil, nil, false
	}
	s, ok := h.locate(st, t.A[0].(Term).A[0].(Term).A[0].(Term))
	if !ok {
		return nil, nil, false
	}
	v := h.each(st, s, func(x *shape) Val {
		switch x.dict {
		case "":
			return Int(0)
		case "?":
			return Int(99)
		}
		return Int(h.t.constVal(x.dict))
	})
	has := h.each(st, s, func(x *shape) Val { return Bool(x.dict != "") })
	return v, has, true
}

func (h *checkHooks) Invoke(fr *Frame, st *State, recv Val, m *types.Func, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	if m != formatMethod(h.t) {
		return nil, false
	}
	recv = st.concretize(recv)
	if r, ok := recv.(Iface); ok && !isNilVal(r.V) {
		return []Outcome{{st: st, val: zeroResults(m.Type().(*types.Signature))}}, true
	}
	return nil, false
}

// Call: operands that are compound expressions are not entered.
func (h *checkHooks) Call(fr *Frame, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool) {
	if site == nil || !h.graph.rec[fn] {
		return nil, false
	}
	for k, a := range args {
		a = st.norm(a)
		p, ok := placeOf(a)
		if !ok {
			// a choice of operands of which some are compound
			if t, isTab := a.(Tab); isTab && h.rec == fn {
				for _, g := range t.G {
					if q, ok := placeOf(g.V); ok && h.compound(st, q.(Term)) {
						st.concretize(a)
					}
				}
			}
			continue
		}
		pt := p.(Term)
		if h.rec == nil && (eqVal(pt, h.when) || eqVal(pt, h.bin)) {
			h.rec = fn
		}
		if fn != h.rec || !h.compound(st, pt) {
			continue
		}
		a = st.concretize(a)
		i, ok := a.(Iface)
		if ok && namedOf(i.T) == nil {
			return nil, false
		}
		if ok && namedOf(i.T).Obj().Name() != "BinaryExpr" {
			return nil, false
		}
		s, _ := h.locate(st, pt)
		first := st.syms[s.sym].Dom.first()
		x := h.shapeAt(first, s.path)
		if x == nil {
			return nil, false
		}
		h.where(st, s, func(y *shape) bool { return y.hyp == x.hyp })
		other := otherArgs(args, k)
		if h.opaque[x.hyp] {
			panic(undecidable{"the value of a compound expression cannot be carried over"})
		}
		var outs []Outcome
		for n, vals := range h.hyps[x.hyp+other] {
			s2 := st
			if n+1 < len(h.hyps[x.hyp+other]) {
				s2 = st.clone()
			}
			v := Val(Agg{vals})
			if len(vals) == 1 {
				v = vals[0]
			}
			outs = append(outs, Outcome{st: s2, val: v})
		}
		return outs, true
	}
	return nil, false
}

// compound reports whether a place holds a compound operand in some form.
func (h *checkHooks) compound(st *State, p Term) bool {
	if eqVal(p, h.when) || eqVal(p, h.bin) {
		return false
	}
	s, ok := h.locate(st, p)
	if !ok {
		return false
	}
	found := false
	st.syms[s.sym].Dom.each(func(i int) {
		if x := h.shapeAt(i, s.path); x != nil && x.hyp != "" {
			found = true
		}
	})
	return found
}

// otherArgs names the plain arguments besides argument k.
func otherArgs(args []Val, k int) string {
	out := ""
	for i, a := range args {
		if i == k {
			continue
		}
		switch a.(type) {
		case Int, Bool, Str:
			out += "|" + itoa(i) + keyOf(a)
		}
	}
	return out
}

// Return notes what the recursive function yields for the operation.
func (h *checkHooks) Return(fr *Frame, st *State, vals []Val) []item {
	if h.rec != nil && fr.ctx.fn == h.rec {
		for k, a := range fr.ctx.args {
			p, ok := placeOf(st.norm(a))
			if !ok || !eqVal(p, h.bin) {
				continue
			}
			other := otherArgs(fr.ctx.args, k)
			splitAll(st.clone(), func(s *State) {
				out := make([]Val, len(vals))
				for i, v := range vals {
					out[i] = s.concretize(v)
				}
				h.learn(s, other, out)
			})
		}
	}
	return []item{{st, vals}}
}

func (h *checkHooks) learn(st *State, other string, vals []Val) {
	kinds := map[string]bool{}
	h.pairs(st, func(l, r int) {
		k := resultKinds(h.opName, h.f.list[l].cls, h.f.list[r].cls)
		switch {
		case k == 0:
			kinds[hypErr] = true
		default:
			for n, c := range hypKinds {
				if c != 0 && k&c != 0 {
					kinds[n] = true
				}
			}
		}
	})
	carried := make([]Val, len(vals))
	ok := true
	for i, v := range vals {
		carried[i], ok = carry(v)
		if !ok {
			break
		}
	}
	for n := range kinds {
		if !ok {
			if !h.opaque[n] {
				h.opaque[n] = true
				h.grew = true
			}
			continue
		}
		known := false
		for _, x := range h.hyps[n+other] {
			known = known || eqList(x, carried)
		}
		if !known {
			h.hyps[n+other] = append(h.hyps[n+other], carried)
			h.grew = true
		}
	}
}

// carry makes a value independent of the state it was found in.
func carry(v Val) (Val, bool) {
	switch x := v.(type) {
	case Nil, Int, Bool, Str:
		return v, true
	case Ptr:
		return v, x.O < 0
	case Iface:
		if x.T == libErrT {
			return libErr(term("inner error")), true
		}
		y, ok := carry(x.V)
		return Iface{x.T, y}, ok
	case Agg:
		f := make([]Val, len(x.F))
		for i, y := range x.F {
			var ok bool
			if f[i], ok = carry(y); !ok {
				return nil, false
			}
		}
		return Agg{f}, true
	}
	return nil, false
}

// pairs lists the pairs of operands of a state.
func (h *checkHooks) pairs(st *State, f func(l, r int)) {
	dl, dr := h.doms[0], h.doms[1]
	if s, ok := st.findSym(term("operand", Int(0))); ok {
		dl = st.syms[s].Dom
	}
	if h.same {
		dl.each(func(l int) { f(l, l) })
		return
	}
	if s, ok := st.findSym(term("operand", Int(1))); ok {
		dr = st.syms[s].Dom
	}
	dl.each(func(l int) { dr.each(func(r int) { f(l, r) }) })
}

// vague reports whether the state depends on a comparison that the analysis
// could not decide.
func (h *checkHooks) vague(st *State) bool {
	for _, si := range st.syms {
		if t, ok := si.Def.(Term); ok && si.U == boolU && si.Dom.count() < 2 {
			switch t.Op {
			case "eq?", "le?", "has":
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- the run

const (
	vAccept = 1 << iota
	vReject
	vPanic
	vVague
)

type verdicts map[[2]int]uint8

// checkJob asks for the verdicts on the pairs of two sets of operands.
type checkJob struct {
	Op   string
	L, R []int
	Mode string // "", "same" variable on both sides, "paren"thesised condition
}

type checkDone struct {
	Job       checkJob
	V         [][3]int
	Stats     map[string]int
	Viols     []Violation
	Undecided []string
	Assumed   []string
	Notes     []string
	Panics    map[string]string
	WallS     float64
	Values    []string // what compound expressions were found to yield
}

func bitsOf(l []int) (b Bits) {
	for _, i := range l {
		b = b.or(bit(i))
	}
	return
}

// checkWorker answers jobs.
type checkWorker struct {
	w      *World
	t      *Tree
	f      *operandForms
	graph  *callGraph
	hyps   map[string][][]Val
	opaque map[string]bool
}

func newCheckWorker(w *World) *checkWorker {
	t := newTree(w)
	t.wellFormed()
	fm := formatMethod(t).Name()
	k := &checkWorker{w: w, t: t, f: newForms(t), hyps: map[string][][]Val{}, opaque: map[string]bool{}}
	k.graph = w.e.buildGraph(func(g *ssa.Function) bool { return g.Signature.Recv() != nil && g.Name() == fm }, w.pkg)
	return k
}

// prepare finds what compound expressions yield from plain operands.
func (k *checkWorker) prepare() (viols []Violation) {
	var std []int
	seen := map[uint]bool{}
	for i, s := range k.f.list {
		if s.via == "" && !seen[s.cls] && s.cls&(kAFlt|kAStr|kRFlt|kRInt) == 0 {
			seen[s.cls] = true
			std = append(std, i)
		}
	}
	for _, op := range checkedOps {
		viols = append(viols, k.do(checkJob{Op: op, L: std, R: std}).Viols...)
	}
	return
}

func (k *checkWorker) values() (out []string) {
	for _, n := range sortedKeys(k.hyps) {
		for _, v := range k.hyps[n] {
			out = append(out, n+" "+keyOf(Agg{v}))
		}
	}
	for _, n := range sortedKeys(k.opaque) {
		out = append(out, n+" ?")
	}
	return
}

// do answers a job; what cannot be decided for all operands at once is
// tried for fewer.
func (k *checkWorker) do(j checkJob) *checkDone {
	d := &checkDone{Job: j, Stats: map[string]int{}, Panics: map[string]string{}}
	v := verdicts{}
	assumed, notes := map[string]bool{}, map[string]bool{}
	var part func(l, r []int)
	part = func(l, r []int) {
		for pass := 0; ; pass++ {
			res, got, grew, und := k.run(j.Op, bitsOf(l), bitsOf(r), j.Mode, d.Panics)
			if grew && pass < 4 {
				continue
			}
			if und != "" && len(l)*len(r) > 1 {
				if len(l) >= len(r) || j.Mode == "same" {
					m := len(l) / 2
					if j.Mode == "same" && len(l) == 1 {
						break
					}
					part(l[:m], r)
					part(l[m:], r)
				} else {
					m := len(r) / 2
					part(l, r[:m])
					part(l, r[m:])
				}
				return
			}
			if und != "" {
				d.Undecided = append(d.Undecided, und)
			}
			for x, m := range got {
				v[x] |= m
			}
			for x, n := range res.Stats {
				d.Stats[x] += n
			}
			d.Viols = append(d.Viols, res.Viols...)
			for x := range res.Assumed {
				assumed[x] = true
			}
			for x := range res.Notes {
				notes[x] = true
			}
			return
		}
	}
	part(j.L, j.R)
	for x, m := range v {
		d.V = append(d.V, [3]int{x[0], x[1], int(m)})
	}
	d.Assumed, d.Notes, d.Values = sortedKeys(assumed), sortedKeys(notes), k.values()
	return d
}

func (k *checkWorker) run(op string, dl, dr Bits, mode string, panics map[string]string) (r *Result, v verdicts, grew bool, und string) {
	r = newResult("check")
	v = verdicts{}
	t, f, w := k.t, k.f, k.w
	fn := w.fn("CheckType")
	trigT := types.NewPointer(t.nodes[t.index["Trigger"]])
	h := &checkHooks{t: t, f: f, trig: term("root"), opName: op, op: t.constVal(op), same: mode == "same", hyps: k.hyps, opaque: k.opaque, doms: [2]Bits{dl, dr}}
	defer func() {
		if x := recover(); x != nil {
			switch u := x.(type) {
			case undecidable:
				und = u.msg
			case hopeless:
				und = u.msg
			default:
				panic(x)
			}
			grew = h.grew
		}
		engines = nil
	}()
	h.when = h.fld("Trigger", "When", h.trig)
	h.bin = h.when
	if mode == "paren" {
		h.bin = h.fld("ParenExpr", "Expr", h.when)
	}
	e := w.e.fork(h)
	e.loopLim = 100
	e.recLim = 500
	h.graph = k.graph
	st := newState(e)
	g := operandGhost{[]Val{SymRef{h.side(st, 0)}}}
	if !h.same {
		g.sides = append(g.sides, SymRef{h.side(st, 1)})
	}
	st.ghost = g
	outs, top := e.root(fn, st, []Val{Iface{trigT, In{term("obj:Trigger", h.trig)}}, InMap{term("dict")}})
	r.absorb(e, top)
	for _, x := range sortedKeys(e.undecided) {
		und = x
	}
	for _, o := range outs {
		r.Stats["outcomes"]++
		splitAll(o.st, func(s *State) {
			m := uint8(0)
			if o.pan != nil {
				m = vPanic
			} else if isNilVal(s.concretize(o.val)) {
				m = vAccept
			} else {
				m = vReject
			}
			if h.vague(s) {
				m = vVague
			}
			h.pairs(s, func(l, rr int) {
				v[[2]int{l, rr}] |= m
				if m == vPanic {
					panics[op] = panicText(o.pan) + " at " + panicPos(o.pan, w.fnPos(fn))
				}
			})
		})
	}
	dl.each(func(a int) {
		dr.each(func(b int) {
			if v[[2]int{a, b}] == 0 && (mode != "same" || a == b) && und == "" {
				und = "no outcome of " + f.list[a].name + " " + op + " " + f.list[b].name
			}
		})
	})
	return r, v, h.grew, und
}

// checkServe answers the jobs that arrive on the standard input.
func checkServe(w *World) {
	in := json.NewDecoder(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	k := newCheckWorker(w)
	k.prepare()
	for {
		var j checkJob
		if in.Decode(&j) != nil {
			return
		}
		t := time.Now()
		startTime, timeBudget = t, 90*time.Second
		d := k.do(j)
		d.WallS = time.Since(t).Seconds()
		if out.Encode(d) != nil {
			return
		}
	}
}

// family groups forms that the code under analysis treats alike.
func family(s *shape) string {
	deep := func(x *shape) string {
		switch {
		case x == nil:
			return "none"
		case x.typ == "Selector" || x.hyp != "" || x.self:
			return x.typ
		case x.kids["Expr"] != nil:
			return "paren"
		case x.typ == "Ref":
			return "ref"
		case x.typ == "ArrayTyp" || x.typ == "Range":
			return x.typ
		}
		return "leaf"
	}
	switch s.typ {
	case "Ref":
		f := "ref to " + deep(s.val)
		if s.val != nil && s.val.kids["Expr"] != nil {
			f += " of " + deep(s.val.kids["Expr"])
		}
		return f
	case "ParenExpr":
		f := "paren of " + deep(s.kids["Expr"])
		if y := s.kids["Expr"].kids["Expr"]; y != nil {
			f += " of " + deep(y)
		}
		return f
	case "ArrayTyp":
		switch {
		case s.bad != nil:
			return "mixed array"
		case s.via != "":
			return "array of refs"
		}
		return "array"
	case "Range":
		return "range"
	}
	return deep(s)
}

func checkRun(w *World, prop string, thorough bool) *Result {
	r := newResult("check")
	r.Rules = append(r.Rules, "CheckType(WHEN l op r) fails exactly when the table of operators admits no kind of l with a kind of r; a variable has the kinds of its value, a selector those of its declaration, parentheses those of their content, a compound expression the kind of its result")
	k := newCheckWorker(w)
	f := k.f
	fn := w.fn("CheckType")
	match := func(env string) func(string) bool {
		o := os.Getenv(env)
		if o == "" {
			return func(string) bool { return true }
		}
		return regexp.MustCompile(o).MatchString
	}
	mL, mR := match("GEOQL_FORMS"), match("GEOQL_FORMS2")
	keep := func(l []int, m func(string) bool) (out []int) {
		for _, i := range l {
			if m(f.list[i].name) {
				out = append(out, i)
			}
		}
		return
	}
	ops := checkedOps
	if o := os.Getenv("GEOQL_OP"); o != "" {
		ops = strings.Split(o, ",")
	}
	fams := map[string][]int{}
	var std []int
	seen := map[string]bool{}
	var few []int // some of every family
	for i, s := range f.list {
		n := family(s)
		fams[n] = append(fams[n], i)
		key := fmt.Sprint(s.cls)
		if s.via == "" && (thorough || !seen[key]) || s.hyp == "INT" || s.hyp == hypErr {
			seen[key] = true
			std = append(std, i)
		}
		if s.via != "" && len(fams[n]) <= 2 {
			few = append(few, i)
		}
	}
	var jobs []checkJob
	put := func(op string, l, rr []int, mode string) {
		l, rr = keep(l, mL), keep(rr, mR)
		if mode == "same" {
			rr = l
		}
		if len(l) > 0 && len(rr) > 0 {
			jobs = append(jobs, checkJob{op, l, rr, mode})
		}
	}
	for _, op := range ops {
		for _, n := range sortedKeys(fams) {
			put(op, fams[n], std, "")
			put(op, std, fams[n], "")
			if fams[n][0] == fams["leaf"][0] {
				put(op, fams[n], fams[n], "")
			}
			for _, m := range sortedKeys(fams) {
				a, b := fams[n], fams[m]
				if !thorough {
					var la, lb []int
					for _, x := range few {
						if family(f.list[x]) == n {
							la = append(la, x)
						}
						if family(f.list[x]) == m {
							lb = append(lb, x)
						}
					}
					a, b = la, lb
				}
				put(op, a, b, "")
			}
			put(op, fams[n], fams[n], "same")
		}
		put(op, std, std, "paren")
	}
	r.Stats["jobs"] = len(jobs)
	var done []*checkDone
	var err error
	if os.Getenv("GEOQL_HEADS") != "" {
		defer func() {
			sort.Slice(done, func(i, j int) bool { return done[i].WallS > done[j].WallS })
			for _, d := range done[:30] {
				fmt.Printf("%.1f %s %s(%d) %s(%d) %s\n", d.WallS, d.Job.Op, family(f.list[d.Job.L[0]]), len(d.Job.L), family(f.list[d.Job.R[0]]), len(d.Job.R), d.Job.Mode)
			}
		}()
	}
	enough := func(d *checkDone) bool {
		v := verdicts{}
		for _, x := range d.V {
			v[[2]int{x[0], x[1]}] = uint8(x[2])
		}
		rr := newResult("")
		judge(rr, f, d.Job.Op, v, nil, "", d.Panics, d.Job.Mode != "")
		for _, x := range rr.Viols {
			for _, p := range x.Props {
				if p == prop {
					return true
				}
			}
		}
		return false
	}
	done, err = runJobs(jobs, enough)
	und := map[string]bool{}
	if err == errLate {
		und[err.Error()] = true
	} else if err != nil {
		panic(undecidable{err.Error()})
	}
	res, same, paren := map[string]verdicts{}, map[string]verdicts{}, map[string]verdicts{}
	panics := map[string]string{}
	values := map[string]int{}
	fns := map[string]bool{}
	for _, d := range done {
		m := res
		switch d.Job.Mode {
		case "same":
			m = same
		case "paren":
			m = paren
		}
		if m[d.Job.Op] == nil {
			m[d.Job.Op] = verdicts{}
		}
		for _, v := range d.V {
			m[d.Job.Op][[2]int{v[0], v[1]}] |= uint8(v[2])
		}
		for x, n := range d.Stats {
			if strings.HasPrefix(x, "fn:") {
				fns[x] = true
				continue
			}
			r.Stats[x] += n
		}
		r.Viols = append(r.Viols, d.Viols...)
		for _, x := range d.Undecided {
			und[x] = true
		}
		for _, x := range d.Assumed {
			r.Assumed[x] = true
		}
		for _, x := range d.Notes {
			r.Notes[x] = true
		}
		for x, y := range d.Panics {
			panics[x] = y
		}
		for _, x := range d.Values {
			values[x]++
		}
	}
	for x := range fns {
		r.Stats[x] = 1
	}
	// every worker must have come to the same values
	k.prepare()
	for _, x := range k.values() {
		delete(values, x)
	}
	for x := range values {
		und["a compound expression yields "+x+" for some operands only"] = true
	}
	for n, x := range sortedKeys(und) {
		if n < 6 {
			if r.Undecided != "" {
				r.Undecided += "; "
			}
			r.Undecided += x
		}
	}
	r.gaps = len(und) > 0
	r.Stats["operators"] = len(ops)
	r.Stats["operand_forms"] = len(f.list)
	pos := w.fnPos(fn)
	// plain forms that stand for their kind
	stand := map[uint]int{}
	for i, s := range f.list {
		if s.via == "" && s.cls != 0 {
			if _, ok := stand[s.cls]; !ok {
				stand[s.cls] = i
			}
		}
	}
	for _, op := range ops {
		judge(r, f, op, res[op], stand, pos, panics, false)
		judge(r, f, op, same[op], nil, pos, panics, true)
		judge(r, f, op, paren[op], nil, pos, panics, true)
		r.Stats["pairs"] += len(res[op])
		r.Stats["pairs_of_one_variable"] += len(same[op])
	}
	r.Samples = append(r.Samples, fmt.Sprintf("%d operators with %d pairs of %d forms of operands", len(checkedOps), r.Stats["pairs"], len(f.list)))
	return r
}

// runJobs spreads jobs over processes.
var errLate = errors.New("the analysis exceeded its budget")

// jobsBudget bounds the time of all jobs together.
const jobsBudget = 420 * time.Second

// enoughAfter is the time from which on a violation ends the run.
const enoughAfter = 120 * time.Second

func runJobs(jobs []checkJob, enough func(*checkDone) bool) ([]*checkDone, error) {
	n := runtime.NumCPU()
	if n > len(jobs) {
		n = len(jobs)
	}
	queue := make(chan checkJob)
	out := make(chan *checkDone)
	errs := make(chan error, n)
	started := make(chan *exec.Cmd, n)
	go func() {
		for _, j := range jobs {
			queue <- j
		}
		close(queue)
	}()
	for i := 0; i < n; i++ {
		go func() {
			errs <- func() error {
				args := append([]string{"-serve", "check"}, os.Args[1:]...)
				c := exec.Command(os.Args[0], args...)
				c.Stderr = os.Stderr
				in, err := c.StdinPipe()
				if err != nil {
					return err
				}
				so, err := c.StdoutPipe()
				if err != nil {
					return err
				}
				if err := c.Start(); err != nil {
					return err
				}
				started <- c
				enc, dec := json.NewEncoder(in), json.NewDecoder(so)
				for j := range queue {
					if err := enc.Encode(j); err != nil {
						return err
					}
					d := &checkDone{}
					if err := dec.Decode(d); err != nil {
						return fmt.Errorf("a worker ended: %v", err)
					}
					out <- d
				}
				in.Close()
				return c.Wait()
			}()
		}()
	}
	var done []*checkDone
	var first error
	ok := false
	late := time.After(jobsBudget - time.Since(startTime))
	for live := n; live > 0; {
		select {
		case <-late:
			// what has been found until now counts
			for len(started) > 0 {
				(<-started).Process.Kill()
			}
			sort.Slice(done, func(i, j int) bool { return fmt.Sprint(done[i].Job) < fmt.Sprint(done[j].Job) })
			return done, errLate
		case d := <-out:
			done = append(done, d)
			if ok = ok || enough(d); ok && time.Since(startTime) > enoughAfter {
				late = time.After(0)
			}
		case err := <-errs:
			live--
			if err != nil && first == nil {
				first = err
				go func() {
					for range queue {
					}
				}()
			}
		}
	}
	sort.Slice(done, func(i, j int) bool { return fmt.Sprint(done[i].Job) < fmt.Sprint(done[j].Job) })
	return done, first
}

func judge(r *Result, f *operandForms, op string, v verdicts, stand map[uint]int, pos string, panics map[string]string, indirect bool) {
	type group struct {
		props []string
		msg   string
		names []string
		n     int
	}
	groups := map[string]*group{}
	put := func(key, msg string, l, rr int, props ...string) {
		g := groups[key]
		if g == nil {
			g = &group{props: props, msg: msg}
			groups[key] = g
		}
		g.n++
		if len(g.names) < 3 {
			g.names = append(g.names, f.list[l].name+" "+op+" "+f.list[rr].name)
		}
	}
	var keys [][2]int
	for k := range v {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
	})
	for _, k := range keys {
		m := v[k]
		l, rr := f.list[k[0]], f.list[k[1]]
		if m&vVague != 0 {
			r.gaps = true
			r.Stats["undecided_pairs"]++
			continue
		}
		want := uint8(vReject)
		if resultKinds(op, l.cls, rr.cls) != 0 {
			want = vAccept
		}
		if m == want {
			r.Stats["pairs_decided"]++
			continue
		}
		compound := strings.Contains(l.name+rr.name, "compound:")
		plain := l.via == "" && rr.via == "" && !indirect
		props := []string{"C19"}
		if plain || compound {
			props = []string{"C18"}
			if compound {
				props = append(props, "C19")
			}
		}
		if m&vPanic != 0 {
			put("panic"+op, "panics ("+panics[op]+")", k[0], k[1], append(props, "C02")...)
			continue
		}
		if m == vAccept|vReject {
			props = append(props, "C14")
		}
		if !plain && stand != nil && !compound {
			// is it only the table that is wrong?
			pred := uint8(0)
			for a := uint(1); a <= kGeom; a <<= 1 {
				for b := uint(1); b <= kGeom; b <<= 1 {
					i, ok1 := stand[a]
					j, ok2 := stand[b]
					if l.cls&a != 0 && rr.cls&b != 0 && ok1 && ok2 {
						pred |= v[[2]int{i, j}]
					}
				}
			}
			if pred&vAccept != 0 {
				pred &= vAccept | vPanic
			}
			if pred == m {
				continue
			}
		}
		what := map[uint8]string{vAccept: "is accepted", vReject: "is an error", vAccept | vReject: "is accepted or an error, depending on the order of a map or on values"}[m]
		should := "must be an error"
		if want == vAccept {
			should = "must be accepted"
		}
		via := ""
		if !plain {
			via = l.via + "," + rr.via
		}
		key := fmt.Sprint(op, l.cls, rr.cls, m, via)
		put(key, kindsName(l.cls)+" "+op+" "+kindsName(rr.cls)+" "+what+" but "+should, k[0], k[1], props...)
	}
	gk := sortedKeys(groups)
	for n, k := range gk {
		g := groups[k]
		if n >= 12 {
			break
		}
		r.add(g.props, "check", pos, "%s: e.g. %s (%d pairs)", g.msg, strings.Join(g.names, ", "), g.n)
	}
}
