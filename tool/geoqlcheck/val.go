package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- bit sets

const bitWords = 8

// Bits is a set of alternatives of a choice symbol.
type Bits [bitWords]uint64

func bit(i int) (b Bits) { b[i>>6] |= 1 << uint(i&63); return }
func fullBits(n int) (b Bits) {
	for i := 0; i < n; i++ {
		b[i>>6] |= 1 << uint(i&63)
	}
	return
}
func (b Bits) has(i int) bool { return b[i>>6]&(1<<uint(i&63)) != 0 }
func (b Bits) and(c Bits) Bits {
	for i := range b {
		b[i] &= c[i]
	}
	return b
}
func (b Bits) or(c Bits) Bits {
	for i := range b {
		b[i] |= c[i]
	}
	return b
}
func (b Bits) minus(c Bits) Bits {
	for i := range b {
		b[i] &^= c[i]
	}
	return b
}
func (b Bits) empty() bool          { return b == Bits{} }
func (b Bits) subset(c Bits) bool   { return b.minus(c).empty() }
func (b Bits) overlaps(c Bits) bool { return !b.and(c).empty() }
func (b Bits) count() (n int) {
	for _, w := range b {
		n += bits.OnesCount64(w)
	}
	return
}
func (b Bits) first() int {
	for i, w := range b {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}
func (b Bits) each(f func(i int)) {
	for i, w := range b {
		for w != 0 {
			k := bits.TrailingZeros64(w)
			w &^= 1 << uint(k)
			f(i*64 + k)
		}
	}
}
func (b Bits) hex() string {
	n := bitWords
	for n > 1 && b[n-1] == 0 {
		n--
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(strconv.FormatUint(b[i], 16))
		if i+1 < n {
			sb.WriteByte('.')
		}
	}
	return sb.String()
}

// ---------------------------------------------------------------- values

type SymID int32
type ObjID int32

// Val is an abstract value.
type Val interface{}

type (
	Int  int64
	Str  string
	Bool bool
	Flt  float64
	// Nil is a nil pointer, interface, slice, map, func.
	Nil struct{}
	// Top is an unknown value.
	Top struct{}
	// Lin is an integer symbol plus a constant.
	Lin struct {
		S SymID
		O int64
	}
	// SymRef mentions a symbol inside a term.
	SymRef struct{ S SymID }
	// Tab selects a value by the alternative of a choice symbol.
	Tab struct {
		S SymID
		G []Grp
	}
	Grp struct {
		Set Bits
		V   Val
	}
	// Term is an uninterpreted operation on values.
	Term struct {
		Op string
		A  []Val
	}
	// Ptr points into a heap object.
	Ptr struct {
		O ObjID
		P string // path of '.'-separated indexes
	}
	// In points into input memory, which is never written; T says where.
	In struct{ T Term }
	// InSlice and InMap are slice and map values of input memory.
	InSlice struct{ T Term }
	InMap   struct{ T Term }
	Iface   struct {
		T types.Type
		V Val
	}
	// Slice is a slice of a list object; Shared marks a prefix that shares
	// the backing array with the object O2.
	Slice struct {
		O      ObjID
		Shared ObjID
	}
	// MapV is a map object.
	MapV struct{ O ObjID }
	Agg  struct{ F []Val } // struct, array or tuple
	Clo  struct {
		F *ssa.Function
		B []Val
	}
	// Builtin or bound external function
	Ext struct{ Name string }
	// Seg stands for any number of list elements.
	Seg struct {
		Kind string
		A    []Val
	}
)

func term(op string, a ...Val) Term { return Term{op, a} }

// ---------------------------------------------------------------- universes

// Universe is the finite set of alternatives of a choice symbol.
type Universe struct {
	Name  string
	N     int
	Label func(i int) string
}

func (u *Universe) describe(b Bits) string {
	var out []string
	n := 0
	b.each(func(i int) {
		n++
		if len(out) < 8 {
			out = append(out, u.Label(i))
		}
	})
	s := strings.Join(out, "|")
	if n > len(out) {
		s += fmt.Sprintf("|…(%d)", n)
	}
	return s
}

var boolU = &Universe{Name: "bool", N: 2, Label: func(i int) string { return [2]string{"false", "true"}[i] }}
var nilU = &Universe{Name: "nil", N: 2, Label: func(i int) string { return [2]string{"nil", "present"}[i] }}

// SymInfo describes a symbol; immutable once stored.
type SymInfo struct {
	U      *Universe // nil for integer symbols
	Dom    Bits
	Lo, Hi int64
	Def    Val  // what the symbol stands for, or nil
	Dom0   Bits // as created
	Lo0    int64
	Hi0    int64
}

const (
	negInf = -1 << 62
	posInf = 1 << 62
)

// ---------------------------------------------------------------- keys

// namer renames symbols and objects while values are written out.
type namer interface {
	sym(SymID) string
	obj(ObjID) string
}

type rawNamer struct{}

func (rawNamer) sym(s SymID) string { return "s" + strconv.Itoa(int(s)) }
func (rawNamer) obj(o ObjID) string { return "o" + strconv.Itoa(int(o)) }

func keyOf(v Val) string {
	var sb strings.Builder
	writeKey(&sb, v, rawNamer{})
	return sb.String()
}

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	if t == nil {
		return "nil"
	}
	k, ok := typeKeys[t]
	if !ok {
		k = types.TypeString(t, func(p *types.Package) string { return p.Name() })
		typeKeys[t] = k
	}
	return k
}

func writeKey(sb *strings.Builder, v Val, n namer) {
	switch v := v.(type) {
	case nil:
		sb.WriteByte('_')
	case Int:
		sb.WriteString(strconv.FormatInt(int64(v), 10))
	case Str:
		sb.WriteString(strconv.Quote(string(v)))
	case Bool:
		if v {
			sb.WriteByte('T')
		} else {
			sb.WriteByte('F')
		}
	case Flt:
		sb.WriteByte('f')
		sb.WriteString(strconv.FormatFloat(float64(v), 'g', -1, 64))
	case Nil:
		sb.WriteString("nil")
	case Top:
		sb.WriteString("top")
	case Lin:
		sb.WriteString(n.sym(v.S))
		if v.O != 0 {
			sb.WriteByte('+')
			sb.WriteString(strconv.FormatInt(v.O, 10))
		}
	case SymRef:
		sb.WriteByte('$')
		sb.WriteString(n.sym(v.S))
	case Tab:
		sb.WriteString("tab ")
		sb.WriteString(n.sym(v.S))
		sb.WriteByte('{')
		for _, g := range v.G {
			sb.WriteString(g.Set.hex())
			sb.WriteByte(':')
			writeKey(sb, g.V, n)
			sb.WriteByte(';')
		}
		sb.WriteByte('}')
	case Term:
		sb.WriteString(v.Op)
		writeList(sb, v.A, n)
	case Ptr:
		sb.WriteByte('&')
		sb.WriteString(n.obj(v.O))
		sb.WriteString(v.P)
	case In:
		sb.WriteString("in ")
		writeKey(sb, v.T, n)
	case InSlice:
		sb.WriteString("insl ")
		writeKey(sb, v.T, n)
	case InMap:
		sb.WriteString("inmap ")
		writeKey(sb, v.T, n)
	case Iface:
		sb.WriteString("if<")
		sb.WriteString(typeKey(v.T))
		sb.WriteByte('>')
		writeKey(sb, v.V, n)
	case Slice:
		sb.WriteString("sl ")
		sb.WriteString(n.obj(v.O))
		if v.Shared != 0 {
			sb.WriteByte('~')
			sb.WriteString(n.obj(v.Shared))
		}
	case MapV:
		sb.WriteString("map ")
		sb.WriteString(n.obj(v.O))
	case Agg:
		sb.WriteString("agg")
		writeList(sb, v.F, n)
	case Clo:
		sb.WriteString("clo ")
		sb.WriteString(v.F.String())
		writeList(sb, v.B, n)
	case Ext:
		sb.WriteString("ext ")
		sb.WriteString(v.Name)
	case Seg:
		sb.WriteString("seg ")
		sb.WriteString(v.Kind)
		writeList(sb, v.A, n)
	default:
		panic(fmt.Sprintf("writeKey %T", v))
	}
}

func writeList(sb *strings.Builder, vs []Val, n namer) {
	sb.WriteByte('(')
	for i, a := range vs {
		if i > 0 {
			sb.WriteByte(',')
		}
		writeKey(sb, a, n)
	}
	sb.WriteByte(')')
}

// mapVal rebuilds v with symbols and objects replaced.
type remap struct {
	sym func(SymID) SymID
	obj func(ObjID) ObjID
}

func (r *remap) val(v Val) Val {
	switch v := v.(type) {
	case Lin:
		return Lin{r.sym(v.S), v.O}
	case SymRef:
		return SymRef{r.sym(v.S)}
	case Tab:
		g := make([]Grp, len(v.G))
		for i := range v.G {
			g[i] = Grp{v.G[i].Set, r.val(v.G[i].V)}
		}
		return Tab{r.sym(v.S), g}
	case Term:
		return Term{v.Op, r.list(v.A)}
	case Ptr:
		return Ptr{r.obj(v.O), v.P}
	case In:
		return In{r.val(v.T).(Term)}
	case InSlice:
		return InSlice{r.val(v.T).(Term)}
	case InMap:
		return InMap{r.val(v.T).(Term)}
	case Iface:
		return Iface{v.T, r.val(v.V)}
	case Slice:
		s := Slice{O: r.obj(v.O)}
		if v.Shared != 0 {
			s.Shared = r.obj(v.Shared)
		}
		return s
	case MapV:
		return MapV{r.obj(v.O)}
	case Agg:
		return Agg{r.list(v.F)}
	case Clo:
		return Clo{v.F, r.list(v.B)}
	case Seg:
		return Seg{v.Kind, r.list(v.A)}
	}
	return v
}

func (r *remap) list(vs []Val) []Val {
	if vs == nil {
		return nil
	}
	out := make([]Val, len(vs))
	for i, a := range vs {
		out[i] = r.val(a)
	}
	return out
}

// walkVal calls f on v and on everything inside it.
func walkVal(v Val, f func(Val)) {
	f(v)
	switch v := v.(type) {
	case Tab:
		for _, g := range v.G {
			walkVal(g.V, f)
		}
	case Term:
		for _, a := range v.A {
			walkVal(a, f)
		}
	case In:
		walkVal(v.T, f)
	case InSlice:
		walkVal(v.T, f)
	case InMap:
		walkVal(v.T, f)
	case Iface:
		walkVal(v.V, f)
	case Agg:
		for _, a := range v.F {
			walkVal(a, f)
		}
	case Clo:
		for _, a := range v.B {
			walkVal(a, f)
		}
	case Seg:
		for _, a := range v.A {
			walkVal(a, f)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
