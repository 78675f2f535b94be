package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stand-ins for types that only the runtime or the standard library has
var (
	rtErrT  = types.NewNamed(types.NewTypeName(0, types.NewPackage("runtime", "runtime"), "Error", nil), types.NewStruct(nil, nil), nil)
	libErrT = types.NewNamed(types.NewTypeName(0, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil)
	opaqueT = types.NewNamed(types.NewTypeName(0, types.NewPackage("opaque", "opaque"), "value", nil), types.NewStruct(nil, nil), nil)
)

func libErr(t Term) Val { return Iface{libErrT, t} }

func isStandIn(t types.Type) bool { return t == rtErrT || t == libErrT || t == opaqueT }

func (fr *Frame) set(st *State, v ssa.Value, x Val) {
	st.regs[fr.fi.num[v]] = x
}

func one(st *State) ([]*State, bool) { return []*State{st}, false }

func rtPanic(pos, msg string) Val {
	return Iface{rtErrT, term("rterr", Str(pos), Str(msg))}
}

// opaqueBool is an unknown but fixed truth value.
func (st *State) opaqueBool(t Term) Val {
	s := st.choiceFor(boolU, fullBits(2), t)
	return st.norm(Tab{s, []Grp{{bit(0), Bool(false)}, {bit(1), Bool(true)}}})
}

func (fr *Frame) crash(st *State, in ssa.Instruction, msg string) {
	fr.raise(st, rtPanic(fr.e.posOf(in), msg))
}

// raise starts panicking in this function.
func (fr *Frame) raise(st *State, v Val) {
	st.pan = v
	fr.unwind(st)
}

// unwind runs deferred calls while a panic is running.
func (fr *Frame) unwind(st *State) {
	for len(st.defers) > 0 {
		d := st.defers[len(st.defers)-1].(Agg)
		st.defers = st.defers[:len(st.defers)-1]
		outs := fr.callDeferred(st, d)
		for _, o := range outs {
			if o.pan != nil {
				o.st.pan = o.pan
			}
			if o.st.pan == nil {
				fr.recovered(o.st)
				continue
			}
			fr.unwind(o.st)
		}
		return
	}
	p := st.pan
	st.pan = nil
	fr.addExit(item{st, []Val{p}}, true)
}

func (fr *Frame) recovered(st *State) {
	// the remaining deferred calls run, then the function returns
	for len(st.defers) > 0 {
		d := st.defers[len(st.defers)-1].(Agg)
		st.defers = st.defers[:len(st.defers)-1]
		outs := fr.callDeferred(st, d)
		for _, o := range outs {
			if o.pan != nil {
				o.st.pan = o.pan
				fr.unwind(o.st)
			} else {
				fr.recovered(o.st)
			}
		}
		return
	}
	rb := fr.fi.fn.Recover
	if rb == nil {
		sig := fr.fi.fn.Signature.Results()
		vals := make([]Val, sig.Len())
		for i := range vals {
			vals[i] = zeroOf(sig.At(i).Type())
		}
		fr.doReturn(st, vals)
		return
	}
	fr.pending[rb.Index] = append(fr.pending[rb.Index], st)
}

func (fr *Frame) doReturn(st *State, vals []Val) {
	for i := range vals {
		vals[i] = st.deepNorm(vals[i])
	}
	for _, it := range fr.e.h.Return(fr, st, vals) {
		fr.addExit(it, false)
	}
}

// step executes one instruction.
func (fr *Frame) step(st *State, in ssa.Instruction) ([]*State, bool) {
	e := fr.e
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		return one(st)
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		ob := allocObj(t)
		o := st.newObj(ob.Shape, ob.T, ob.F)
		fr.set(st, in, Ptr{O: o})
		return one(st)
	case *ssa.BinOp:
		x, y := fr.val(st, in.X), fr.val(st, in.Y)
		if (in.Op == token.QUO || in.Op == token.REM) && isIntType(in.X.Type()) {
			y = st.concretize(y)
			if y == Val(Int(0)) {
				fr.crash(st, in, "integer divide by zero")
				return nil, true
			}
		}
		fr.set(st, in, st.binop(in.Op, x, y, in.X.Type()))
		return one(st)
	case *ssa.UnOp:
		return fr.unop(st, in)
	case *ssa.ChangeType:
		fr.set(st, in, fr.val(st, in.X))
		return one(st)
	case *ssa.ChangeInterface:
		fr.set(st, in, fr.val(st, in.X))
		return one(st)
	case *ssa.Convert:
		fr.set(st, in, fr.convert(st, fr.val(st, in.X), in.X.Type(), in.Type()))
		return one(st)
	case *ssa.MultiConvert:
		fr.set(st, in, fr.convert(st, fr.val(st, in.X), in.X.Type(), in.Type()))
		return one(st)
	case *ssa.MakeInterface:
		fr.set(st, in, Iface{in.X.Type(), fr.val(st, in.X)})
		return one(st)
	case *ssa.MakeClosure:
		b := make([]Val, len(in.Bindings))
		for i, x := range in.Bindings {
			b[i] = fr.val(st, x)
		}
		fr.set(st, in, Clo{in.Fn.(*ssa.Function), b})
		return one(st)
	case *ssa.MakeMap:
		o := st.newObj("map", in.Type(), nil)
		fr.set(st, in, MapV{o})
		return one(st)
	case *ssa.MakeSlice:
		n := st.concretize(fr.val(st, in.Len))
		el := in.Type().Underlying().(*types.Slice).Elem()
		if k, ok := n.(Int); ok {
			if k < 0 {
				fr.crash(st, in, "makeslice: len out of range")
				return nil, true
			}
			if k <= 64 {
				f := make([]Val, k)
				for i := range f {
					f[i] = zeroOf(el)
				}
				fr.set(st, in, Slice{O: st.newObj("list", in.Type(), f)})
				return one(st)
			}
			fr.set(st, in, Slice{O: st.newObj("list", in.Type(), []Val{Seg{"opaque", []Val{Int(k)}}})})
			return one(st)
		}
		var outs []*State
		if lo, _ := st.bounds(n); lo < 0 {
			bad := st.clone()
			if bad.assumeLE(n, 1, Int(0)) {
				fr.from[bad] = fr.from[st]
				fr.crash(bad, in, "makeslice: len out of range")
			}
			if !st.assumeLE(Int(0), 0, n) {
				return nil, true
			}
		}
		fr.set(st, in, Slice{O: st.newObj("list", in.Type(), []Val{Seg{"opaque", []Val{n}}})})
		outs = append(outs, st)
		return outs, false
	case *ssa.FieldAddr:
		x := fr.val(st, in.X)
		if hasNil(x) {
			x = st.concretize(x)
		}
		if _, ok := x.(Nil); ok {
			fr.crash(st, in, "nil pointer dereference")
			return nil, true
		}
		fr.set(st, in, st.mapTab(x, func(v Val) Val { return fieldAddr(v, in.Field) }))
		return one(st)
	case *ssa.Field:
		fr.set(st, in, getPath(fr.val(st, in.X), []int{in.Field}, st))
		return one(st)
	case *ssa.IndexAddr:
		return fr.indexAddr(st, in)
	case *ssa.Index:
		return fr.index(st, in)
	case *ssa.Lookup:
		return fr.lookup(st, in)
	case *ssa.Slice:
		return fr.slice(st, in)
	case *ssa.SliceToArrayPointer:
		fr.set(st, in, Top{})
		return one(st)
	case *ssa.Store:
		addr := st.concretize(fr.val(st, in.Addr))
		return fr.store(st, in, addr, fr.val(st, in.Val))
	case *ssa.MapUpdate:
		return fr.mapUpdate(st, in)
	case *ssa.TypeAssert:
		return fr.typeAssert(st, in)
	case *ssa.Extract:
		fr.set(st, in, getPath(fr.val(st, in.Tuple), []int{in.Index}, st))
		return one(st)
	case *ssa.Range:
		return fr.rangeOver(st, in)
	case *ssa.Next:
		return fr.next(st, in)
	case *ssa.Call:
		outs := fr.call(st, &in.Call, in)
		var sts []*State
		for _, o := range outs {
			if o.pan != nil {
				fr.from[o.st] = fr.from[st]
				fr.raise(o.st, o.pan)
				continue
			}
			if in.Type() != nil {
				fr.set(o.st, in, o.val)
			}
			sts = append(sts, o.st)
		}
		if len(sts) == 0 {
			return nil, true
		}
		return sts, false
	case *ssa.Defer:
		fn, args := fr.callee(st, in)
		st.defers = append(st.defers, Agg{append([]Val{fn}, args...)})
		return one(st)
	case *ssa.RunDefers:
		sts := []*State{st}
		for {
			var nexts []*State
			again := false
			for _, s := range sts {
				if len(s.defers) == 0 {
					nexts = append(nexts, s)
					continue
				}
				again = true
				d := s.defers[len(s.defers)-1].(Agg)
				s.defers = s.defers[:len(s.defers)-1]
				for _, o := range fr.callDeferred(s, d) {
					if o.pan != nil {
						fr.from[o.st] = fr.from[st]
						fr.raise(o.st, o.pan)
						continue
					}
					nexts = append(nexts, o.st)
				}
			}
			sts = nexts
			if !again {
				break
			}
		}
		return sts, len(sts) == 0
	case *ssa.Panic:
		fr.raise(st, fr.val(st, in.X))
		return nil, true
	case *ssa.Return:
		vals := make([]Val, len(in.Results))
		for i, r := range in.Results {
			vals[i] = fr.val(st, r)
		}
		fr.doReturn(st, vals)
		return nil, true
	case *ssa.Jump:
		fr.goTo(st, in.Block(), in.Block().Succs[0], 0)
		return nil, true
	case *ssa.If:
		fr.branch(st, in)
		return nil, true
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		panic(undecidable{fmt.Sprintf("%s: %T is outside the analysed language", e.posOf(in), in)})
	}
	panic(undecidable{fmt.Sprintf("%s: instruction %T", e.posOf(in), in)})
}

func hasNil(v Val) bool {
	switch v := v.(type) {
	case Nil:
		return true
	case Tab:
		for _, g := range v.G {
			if hasNil(g.V) {
				return true
			}
		}
	}
	return false
}

func fieldAddr(v Val, i int) Val {
	switch v := v.(type) {
	case Ptr:
		return Ptr{v.O, v.P + "." + strconv.Itoa(i)}
	case In:
		return In{term("fld", v.T, Int(i))}
	}
	return Top{}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ------------------------------------------------------------ branches

func (fr *Frame) branch(st *State, in *ssa.If) {
	b := in.Block()
	fr.branchOn(st, b, st.concretizeBool(fr.val(st, in.Cond)))
}

// concretizeBool groups the alternatives of a condition by truth value.
func (st *State) concretizeBool(v Val) Val {
	v = st.norm(v)
	t, ok := v.(Tab)
	if !ok {
		return v
	}
	return st.concretize(t)
}

func (fr *Frame) take(st *State, b *ssa.BasicBlock, yes bool) {
	k := 1
	if yes {
		k = 0
	}
	fr.goTo(st, b, b.Succs[k], k)
}

func (fr *Frame) branchOn(st *State, b *ssa.BasicBlock, c Val) {
	switch c := c.(type) {
	case Bool:
		fr.take(st, b, bool(c))
		return
	case Term:
		yes, no := st, st.clone()
		fr.from[no] = fr.from[st]
		if yes.assume(c, true) {
			fr.noteUndec(c, b)
			if no.assume(c, false) {
				fr.take(yes, b, true)
				fr.take(no, b, false)
				return
			}
			fr.take(yes, b, true)
			return
		}
		if no.assume(c, false) {
			fr.take(no, b, false)
		}
		return
	case Tab:
		panic("branchOn tab")
	case Top:
		no := st.clone()
		fr.from[no] = fr.from[st]
		fr.e.note("a condition is unknown at " + fr.e.posOf(b.Instrs[len(b.Instrs)-1]))
		fr.take(st, b, true)
		fr.take(no, b, false)
		return
	}
	panic(undecidable{fmt.Sprintf("condition %s at %s", keyOf(c), fr.e.posOf(b.Instrs[len(b.Instrs)-1]))})
}

// noteUndec marks loops whose integer exit test is not decided.
func (fr *Frame) noteUndec(c Term, b *ssa.BasicBlock) {
	for h, in := range fr.fi.loopOf {
		if in == nil || !in[b.Index] {
			continue
		}
		if !in[b.Succs[0].Index] || !in[b.Succs[1].Index] {
			fr.undec[h] = true
		}
	}
}

// assume adds an integer condition to the state; false if impossible.
func (st *State) assume(c Term, yes bool) bool {
	switch c.Op {
	case "not":
		if t, ok := c.A[0].(Term); ok {
			return st.assume(t, !yes)
		}
	case "le": // A0 <= A1
		if yes {
			return st.assumeLE(c.A[0], 0, c.A[1])
		}
		return st.assumeLE(c.A[1], 1, c.A[0])
	case "eqi":
		if yes {
			return st.assumeLE(c.A[0], 0, c.A[1]) && st.assumeLE(c.A[1], 0, c.A[0])
		}
		// a bound can be sharpened when one side is at its limit
		for k := 0; k < 2; k++ {
			x, y := c.A[k], c.A[1-k]
			if u, ok := st.upper(x, y); ok && u == 0 {
				if !st.assumeLE(x, 1, y) {
					return false
				}
			}
		}
		return true
	}
	panic(undecidable{"condition " + keyOf(c)})
}

// ------------------------------------------------------------ operators

func negBool(st *State, v Val) Val {
	return st.mapTab(v, func(v Val) Val {
		switch v := v.(type) {
		case Bool:
			return !v
		case Term:
			if v.Op == "not" {
				return v.A[0]
			}
			return term("not", v)
		}
		return Top{}
	})
}

func (st *State) leInt(x, y Val) Val {
	if u, ok := st.upper(x, y); ok && u <= 0 {
		return Bool(true)
	}
	if u, ok := st.upper(y, x); ok && u < 0 {
		return Bool(false)
	}
	_, _, ok1 := linParts(x)
	_, _, ok2 := linParts(y)
	if !ok1 || !ok2 {
		if _, ok := x.(Top); ok {
			return Top{}
		}
		if _, ok := y.(Top); ok {
			return Top{}
		}
		return st.opaqueBool(term("le?", x, y))
	}
	return term("le", x, y)
}

func (st *State) eqInt(x, y Val) Val {
	if u, ok := st.upper(x, y); ok && u < 0 {
		return Bool(false)
	}
	if u, ok := st.upper(y, x); ok && u < 0 {
		return Bool(false)
	}
	_, a, ok1 := linParts(x)
	_, b, ok2 := linParts(y)
	if ok1 && ok2 {
		u1, _ := st.upper(x, y)
		u2, _ := st.upper(y, x)
		if u1 == 0 && u2 == 0 {
			return Bool(true)
		}
		_ = a
		_ = b
		if less(y, x) {
			x, y = y, x
		}
		return term("eqi", x, y)
	}
	return Top{}
}

func less(a, b Val) bool { return keyOf(a) < keyOf(b) }

func (st *State) opaqueEq(x, y Val) Val {
	if eqVal(x, y) {
		return Bool(true)
	}
	if _, ok := x.(Top); ok {
		return Top{}
	}
	if _, ok := y.(Top); ok {
		return Top{}
	}
	if less(y, x) {
		x, y = y, x
	}
	return st.opaqueBool(term("eq?", x, y))
}

// eq compares two values.
func (st *State) eq(x, y Val, t types.Type) Val {
	return st.mapTab2(x, y, func(x, y Val) Val { return st.eq1(x, y) })
}

// inputNil decides whether a list or map of the input is nil; one that is
// has no elements.
func (st *State) inputNil(t Term) Val {
	n := st.inLen(t)
	if c, ok := st.upper(Int(0), n); ok && c < 0 {
		return Bool(false)
	}
	v := st.concretize(st.opaqueBool(term("isnil", t)))
	if v == Bool(true) {
		st.assumeLE(n, 0, Int(0))
	}
	return v
}

func (st *State) eq1(x, y Val) Val {
	if _, ok := y.(Nil); ok {
		x, y = y, x
	}
	switch a := x.(type) {
	case Nil:
		switch b := y.(type) {
		case Nil:
			return Bool(true)
		case Ptr, In, Iface, MapV, Clo, Ext, Slice:
			return Bool(false)
		case InSlice:
			return st.inputNil(b.T)
		case InMap:
			return st.inputNil(b.T)
		case Term:
			return st.opaqueBool(term("isnil", b))
		}
		return Top{}
	case Int, Lin:
		switch y.(type) {
		case Int, Lin:
			return st.eqInt(x, y)
		}
		return st.opaqueEq(x, y)
	case Bool:
		switch b := y.(type) {
		case Bool:
			return Bool(a == b)
		case Term:
			if a {
				return b
			}
			return negBool(st, b)
		}
		return Top{}
	case Flt:
		if b, ok := y.(Flt); ok {
			return Bool(a == b)
		}
		return st.fltCmp(token.EQL, x, y)
	case Str:
		if b, ok := y.(Str); ok {
			return Bool(a == b)
		}
		return st.strEq(x, y)
	case Ptr:
		switch b := y.(type) {
		case Ptr:
			return Bool(a == b)
		case In:
			return Bool(false)
		}
	case In:
		switch b := y.(type) {
		case In:
			if eqVal(a, b) {
				return Bool(true)
			}
			if hk, ok := st.e.h.(interface {
				SamePlace(st *State, a, b Term) Val
			}); ok {
				if v := hk.SamePlace(st, a.T, b.T); v != nil {
					return v
				}
			}
			return st.opaqueEq(a, b)
		case Ptr:
			return Bool(false)
		}
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return st.opaqueEq(x, y)
		}
		if !types.Identical(a.T, b.T) {
			if isStandIn(a.T) || isStandIn(b.T) {
				return st.opaqueEq(x, y)
			}
			return Bool(false)
		}
		return st.eq(a.V, b.V, a.T)
	case Agg:
		b, ok := y.(Agg)
		if ok && len(a.F) == len(b.F) {
			res := Val(Bool(true))
			for i := range a.F {
				r := st.concretize(st.eq(a.F[i], b.F[i], nil))
				if r == Val(Bool(false)) {
					return r
				}
				if r != Val(Bool(true)) {
					res = st.opaqueEq(x, y)
				}
			}
			return res
		}
	case Term:
		if isFltTerm(x) || isFltTerm(y) {
			return st.fltCmp(token.EQL, x, y)
		}
		if isStrTerm(x) || isStrTerm(y) {
			return st.strEq(x, y)
		}
		switch b := y.(type) {
		case Bool:
			return st.eq1(b, a)
		}
	case Clo:
		if b, ok := y.(Clo); ok && a.F == b.F && eqList(a.B, b.B) {
			return Bool(true)
		}
	}
	switch y.(type) {
	case Int, Lin, Flt, Str, Bool:
		switch x.(type) {
		case Int, Lin, Flt, Str, Bool:
		default:
			return st.eq1(y, x)
		}
	}
	return st.opaqueEq(x, y)
}

// binop evaluates a binary operator on values of type t.
func (st *State) binop(op token.Token, x, y Val, t types.Type) Val {
	switch op {
	case token.EQL:
		return st.eq(x, y, t)
	case token.NEQ:
		return negBool(st, st.eq(x, y, t))
	}
	return st.mapTab2(x, y, func(x, y Val) Val { return st.binop1(op, x, y, t) })
}

func (st *State) binop1(op token.Token, x, y Val, t types.Type) Val {
	switch {
	case isIntType(t):
		switch op {
		case token.LSS:
			return negBool(st, st.leInt(y, x))
		case token.LEQ:
			return st.leInt(x, y)
		case token.GTR:
			return negBool(st, st.leInt(x, y))
		case token.GEQ:
			return st.leInt(y, x)
		}
		return st.intOp(op, x, y, t)
	case isFloatType(t):
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return st.fltCmp(op, x, y)
		}
		a, ok1 := x.(Flt)
		b, ok2 := y.(Flt)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			}
		}
		if op == token.SUB && ok1 && a == 0 {
			return st.fltNeg(y)
		}
		if op == token.MUL {
			if ok1 && a == -1 {
				return st.fltNeg(y)
			}
			if ok2 && b == -1 {
				return st.fltNeg(x)
			}
			if ok1 && a == 1 {
				return y
			}
			if ok2 && b == 1 {
				return x
			}
		}
		return term("f"+op.String(), x, y)
	case isStringType(t):
		a, ok1 := x.(Str)
		b, ok2 := y.(Str)
		switch op {
		case token.ADD:
			return strCat(x, y)
		case token.LSS:
			if ok1 && ok2 {
				return Bool(a < b)
			}
			return st.opaqueBool(term("slt", x, y))
		case token.LEQ:
			return negBool(st, st.binop1(token.LSS, y, x, t))
		case token.GTR:
			return st.binop1(token.LSS, y, x, t)
		case token.GEQ:
			return negBool(st, st.binop1(token.LSS, x, y, t))
		}
	}
	return Top{}
}

func (st *State) intOp(op token.Token, x, y Val, t types.Type) Val {
	a, ok1 := x.(Int)
	b, ok2 := y.(Int)
	if ok1 && ok2 {
		return wrapInt(constOp(op, int64(a), int64(b)), t)
	}
	sx, ox, l1 := linParts(x)
	sy, oy, l2 := linParts(y)
	switch op {
	case token.ADD:
		if l1 && l2 {
			if sy == 0 {
				return mkLin(sx, ox+oy)
			}
			if sx == 0 {
				return mkLin(sy, ox+oy)
			}
		}
	case token.SUB:
		if l1 && l2 {
			if sy == 0 {
				return mkLin(sx, ox-oy)
			}
			if sx == sy {
				return Int(ox - oy)
			}
			if sx == 0 && ox == 0 {
				return st.intNeg(y)
			}
		}
	case token.MUL:
		if ok1 && a == 1 {
			return y
		}
		if ok2 && b == 1 {
			return x
		}
		if ok1 && a == 0 || ok2 && b == 0 {
			return Int(0)
		}
		if ok1 && a == -1 {
			return st.intNeg(y)
		}
		if ok2 && b == -1 {
			return st.intNeg(x)
		}
	case token.REM:
		if ok2 && b > 0 {
			lo, hi := st.bounds(x)
			l := int64(0)
			if lo < 0 {
				l = -(int64(b) - 1)
			}
			_ = hi
			return st.intFor(l, int64(b)-1, term("%", x, y))
		}
	case token.AND:
		if ok2 && b >= 0 {
			return st.intFor(0, int64(b), term("&", x, y))
		}
	case token.QUO:
		if ok2 && b > 0 {
			lo, hi := st.bounds(x)
			l, h := int64(negInf), int64(posInf)
			if lo > negInf {
				l = lo / int64(b)
			}
			if hi < posInf {
				h = hi / int64(b)
			}
			if lo > negInf && lo >= 0 {
				l = 0
			}
			return st.intFor(l, h, term("/", x, y))
		}
	case token.SHL:
		if ok1 && a == 1 {
			return st.intFor(negInf, posInf, term("<<", x, y))
		}
	}
	if _, ok := x.(Top); ok {
		return Top{}
	}
	if _, ok := y.(Top); ok {
		return Top{}
	}
	if op == token.ADD || op == token.MUL {
		if less(y, x) {
			x, y = y, x
		}
	}
	lo, hi := int64(negInf), int64(posInf)
	if op == token.ADD || op == token.SUB {
		xl, xh := st.bounds(x)
		yl, yh := st.bounds(y)
		if op == token.SUB {
			yl, yh = -yh, -yl
		}
		if xl > negInf && yl > negInf {
			lo = xl + yl
		}
		if xh < posInf && yh < posInf {
			hi = xh + yh
		}
	}
	return st.intFor(lo, hi, term("i"+op.String(), x, y))
}

func mkLin(s SymID, o int64) Val {
	if s == 0 {
		return Int(o)
	}
	return Lin{s, o}
}

// intNeg negates an integer; the negation of a negation is the value.
func (st *State) intNeg(x Val) Val {
	if a, ok := x.(Int); ok {
		return -a
	}
	if l, ok := x.(Lin); ok && l.O == 0 {
		if d, ok := st.syms[l.S].Def.(Term); ok && d.Op == "neg" {
			return d.A[0]
		}
	}
	lo, hi := st.bounds(x)
	l, h := int64(negInf), int64(posInf)
	if hi < posInf {
		l = -hi
	}
	if lo > negInf {
		h = -lo
	}
	return st.intFor(l, h, term("neg", x))
}

func constOp(op token.Token, a, b int64) int64 {
	switch op {
	case token.ADD:
		return a + b
	case token.SUB:
		return a - b
	case token.MUL:
		return a * b
	case token.QUO:
		return a / b
	case token.REM:
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.SHL:
		if b >= 64 {
			return 0
		}
		return a << uint64(b)
	case token.SHR:
		if b >= 64 {
			return 0
		}
		return a >> uint64(b)
	case token.AND_NOT:
		return a &^ b
	}
	panic("constOp " + op.String())
}

// wrapInt reduces an integer to the range of its type.
func wrapInt(v int64, t types.Type) Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return Int(v)
	}
	switch b.Kind() {
	case types.Int8:
		return Int(int8(v))
	case types.Int16:
		return Int(int16(v))
	case types.Int32:
		return Int(int32(v))
	case types.Uint8:
		return Int(uint8(v))
	case types.Uint16:
		return Int(uint16(v))
	case types.Uint32:
		return Int(uint32(v))
	}
	return Int(v)
}

func (fr *Frame) unop(st *State, in *ssa.UnOp) ([]*State, bool) {
	x := fr.val(st, in.X)
	switch in.Op {
	case token.NOT:
		fr.set(st, in, negBool(st, x))
		return one(st)
	case token.SUB:
		if isIntType(in.Type()) {
			fr.set(st, in, st.mapTab(x, func(v Val) Val {
				switch v.(type) {
				case Int, Lin:
					return st.intNeg(v)
				}
				return Top{}
			}))
		} else {
			fr.set(st, in, st.mapTab(x, st.fltNeg))
		}
		return one(st)
	case token.XOR:
		fr.set(st, in, st.mapTab(x, func(v Val) Val {
			if a, ok := v.(Int); ok {
				return wrapInt(^int64(a), in.Type())
			}
			return Top{}
		}))
		return one(st)
	case token.MUL:
		if hasNil(x) {
			x = st.concretize(x)
		}
		if _, ok := x.(Nil); ok {
			fr.crash(st, in, "nil pointer dereference")
			return nil, true
		}
		fr.set(st, in, st.mapTab(x, func(v Val) Val {
			v = fr.load(st, v, in.Type())
			if t, ok := v.(Term); ok && t.Op == someCount {
				if onlyNamed(in) {
					return Top{}
				}
				return Lin{st.newInt(0, posInf, nil), 0}
			}
			return v
		}))
		return one(st)
	}
	panic(undecidable{"operator " + in.Op.String() + " at " + fr.e.posOf(in)})
}

// load reads memory.
func (fr *Frame) load(st *State, v Val, t types.Type) Val {
	switch p := v.(type) {
	case Ptr:
		return st.loadPtr(p)
	case In:
		return fr.e.input(st, p.T, t)
	}
	return Top{}
}

// someCount is a place of memory that holds some number that is not
// negative; each time it is read it may be another.
const someCount = "some count"

// onlyNamed reports whether a number is only used as a position.
func onlyNamed(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.ChangeType:
			if _, ok := r.Type().(*types.Named); !ok {
				return false
			}
		case *ssa.Convert:
			if _, ok := r.Type().(*types.Named); !ok {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// input reads input memory of type t at a place.
func (e *Engine) input(st *State, at Term, t types.Type) Val {
	if s, ok := t.Underlying().(*types.Struct); ok {
		f := make([]Val, s.NumFields())
		for i := range f {
			f[i] = e.input(st, term("fld", at, Int(i)), s.Field(i).Type())
		}
		return Agg{f}
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 64 {
		f := make([]Val, a.Len())
		for i := range f {
			f[i] = e.input(st, term("comp", at, Int(i)), a.Elem())
		}
		return Agg{f}
	}
	return e.h.Input(st, at, t)
}

func (fr *Frame) store(st *State, in ssa.Instruction, addr, v Val) ([]*State, bool) {
	switch p := addr.(type) {
	case Ptr:
		if p.O < 0 && !fr.e.initing {
			fr.report([]string{"C16"}, "write-shared", in, "package state is modified")
		}
		if p.O < 0 && fr.e.initing {
			st.storeBase(p, v)
			return one(st)
		}
		st.storePtr(p, v)
		return one(st)
	case In:
		if strings.Contains(keyOf(p), "segelem(") {
			panic(undecidable{"store to an element of a list of unknown length at " + fr.e.posOf(in)})
		}
		fr.report([]string{"C16"}, "write-input", in, "the statement or another argument is modified")
		return one(st)
	case Nil:
		fr.crash(st, in, "nil pointer dereference")
		return nil, true
	}
	panic(undecidable{"store through an unknown pointer at " + fr.e.posOf(in)})
}

// storeBase writes package state while it is initialised.
func (st *State) storeBase(p Ptr, v Val) {
	st.storePtr(p, v)
}

// ------------------------------------------------------------ lists

// listLen is the length of a list object.
func (st *State) listLen(ob *Obj) Val {
	n := int64(0)
	var segs []Val
	lo := int64(0)
	for _, v := range ob.F {
		if s, ok := v.(Seg); ok {
			if s.Kind == "opaque" || s.Kind == "keys" || s.Kind == "sorted" {
				if len(ob.F) == 1 {
					return s.A[0]
				}
			}
			segs = append(segs, s)
			lo += segMin(s)
			continue
		}
		n++
	}
	if len(segs) == 0 {
		return Int(n)
	}
	l := st.intFor(lo, posInf, term("seglen", segs...))
	return mkLin(l.S, n)
}

func segMin(s Seg) int64 {
	if s.Kind == "opaque" {
		return 0
	}
	if len(s.A) > 0 {
		if n, ok := s.A[0].(Int); ok {
			return int64(n)
		}
	}
	return 1
}

func (fr *Frame) lenOf(st *State, v Val) Val {
	return st.mapTab(v, func(v Val) Val {
		switch a := v.(type) {
		case Nil:
			return Int(0)
		case Str:
			return Int(len(a))
		case Slice:
			return st.listLen(st.obj(a.O))
		case InSlice:
			return st.inLen(a.T)
		case InMap:
			return st.intFor(0, posInf, term("len", a.T))
		case MapV:
			ob := st.obj(a.O)
			if ob.Shape == "map" {
				return Int(len(ob.F) / 2)
			}
			if len(ob.F) == 0 {
				return st.intFor(0, posInf, term("len", a))
			}
			return Lin{st.newInt(1, posInf, nil), 0}
		case Agg:
			return Int(len(a.F))
		case Ptr:
			return st.listLen(st.obj(a.O))
		case Term:
			if isStrTerm(a) {
				return st.strLen(a)
			}
			return st.intFor(0, posInf, term("len", a))
		}
		return Top{}
	})
}

// element finds the place of index idx in a list: the position in F and
// whether it is inside a segment; ok is false if it may be out of range.
func (st *State) element(ob *Obj, idx Val) (pos int, seg bool, ok bool) {
	first, last := -1, -1
	for i, v := range ob.F {
		if _, is := v.(Seg); is {
			if first < 0 {
				first = i
			}
			last = i
		}
	}
	if i, isInt := idx.(Int); isInt {
		if i < 0 {
			return 0, false, false
		}
		if first < 0 {
			return int(i), false, int(i) < len(ob.F)
		}
		if int(i) < first {
			return int(i), false, true
		}
		if int64(i) < int64(first)+segMin(ob.F[first].(Seg)) {
			return first, true, true
		}
	}
	n := st.listLen(ob)
	// index from the end
	for k := len(ob.F) - 1; k > last; k-- {
		want := int64(len(ob.F) - k)
		if u, ok1 := st.upper(idx, n); ok1 && u == -want {
			if v, _ := st.upper(n, idx); v == want {
				return k, false, true
			}
		}
	}
	if u, ok1 := st.upper(idx, n); ok1 && u < 0 {
		if l, ok2 := st.upper(Int(0), idx); ok2 && l <= 0 {
			if first >= 0 {
				return first, true, true
			}
			return -1, true, true
		}
	}
	return 0, false, false
}

func (fr *Frame) inRange(st *State, in ssa.Instruction, idx, n Val) bool {
	lowOK, highOK := false, false
	if u, ok := st.upper(Int(0), idx); ok && u <= 0 {
		lowOK = true
	}
	if u, ok := st.upper(idx, n); ok && u < 0 {
		highOK = true
	}
	if lowOK && highOK {
		return true
	}
	_, _, ok1 := linParts(idx)
	_, _, ok2 := linParts(n)
	if !ok1 || !ok2 {
		fr.e.note("an index is unknown at " + fr.e.posOf(in))
		return true
	}
	if !lowOK {
		bad := st.clone()
		fr.from[bad] = fr.from[st]
		if bad.assumeLE(idx, 1, Int(0)) {
			fr.crash(bad, in, "index out of range")
		}
		if !st.assumeLE(Int(0), 0, idx) {
			return false
		}
	}
	if !highOK {
		bad := st.clone()
		fr.from[bad] = fr.from[st]
		if bad.assumeLE(n, 0, idx) {
			fr.crash(bad, in, "index out of range")
		}
		if !st.assumeLE(idx, 1, n) {
			return false
		}
	}
	return true
}

func (fr *Frame) indexAddr(st *State, in *ssa.IndexAddr) ([]*State, bool) {
	x := st.concretize(fr.val(st, in.X))
	idx := st.concretize(fr.val(st, in.Index))
	switch a := x.(type) {
	case Nil:
		fr.crash(st, in, "index out of range of an empty slice")
		return nil, true
	case InSlice:
		n := st.inLen(a.T)
		if !fr.inRange(st, in, idx, n) {
			return nil, true
		}
		fr.set(st, in, In{st.inElem(a.T, idx)})
		return one(st)
	case In: // pointer to array
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			arr := p.Elem().Underlying().(*types.Array)
			if !fr.inRange(st, in, idx, Int(arr.Len())) {
				return nil, true
			}
		}
		fr.set(st, in, In{term("comp", a.T, idx)})
		return one(st)
	case Slice:
		ob := st.obj(a.O)
		if !fr.inRange(st, in, idx, st.listLen(ob)) {
			return nil, true
		}
		return fr.elemPtr(st, in, a.O, "", ob, idx)
	case Ptr: // pointer to array
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			arr, isArr := p.Elem().Underlying().(*types.Array)
			if isArr {
				if !fr.inRange(st, in, idx, Int(arr.Len())) {
					return nil, true
				}
				if arr.Len() > 64 {
					fr.set(st, in, Ptr{a.O, a.P + ".?"})
					return one(st)
				}
				if i, ok := idx.(Int); ok {
					fr.set(st, in, Ptr{a.O, a.P + "." + strconv.Itoa(int(i))})
					return one(st)
				}
				ob := st.obj(a.O)
				if a.P == "" && ob.Shape == "list" {
					return fr.elemPtr(st, in, a.O, a.P, ob, idx)
				}
				// unknown index into an array inside an object: choose
				return fr.choose(st, in, idx, int(arr.Len()), func(s *State, i int) {
					fr.set(s, in, Ptr{a.O, a.P + "." + strconv.Itoa(i)})
				})
			}
		}
	case Top:
		fr.e.note("indexing an unknown value at " + fr.e.posOf(in))
		fr.set(st, in, Top{})
		return one(st)
	}
	panic(undecidable{"indexing " + keyOf(x) + " at " + fr.e.posOf(in)})
}

// choose splits the state over the possible values 0..n-1 of idx.
func (fr *Frame) choose(st *State, in ssa.Instruction, idx Val, n int, f func(s *State, i int)) ([]*State, bool) {
	var outs []*State
	for i := 0; i < n; i++ {
		s := st.clone()
		if s.assumeLE(idx, 0, Int(i)) && s.assumeLE(Int(i), 0, idx) {
			f(s, i)
			outs = append(outs, s)
		}
	}
	return outs, len(outs) == 0
}

func (fr *Frame) elemPtr(st *State, in *ssa.IndexAddr, o ObjID, p string, ob *Obj, idx Val) ([]*State, bool) {
	pos, seg, ok := st.element(ob, idx)
	if ok && !seg {
		fr.set(st, in, Ptr{o, p + "." + strconv.Itoa(pos)})
		return one(st)
	}
	hasSeg := false
	for _, v := range ob.F {
		if _, is := v.(Seg); is {
			hasSeg = true
		}
	}
	if !hasSeg {
		return fr.choose(st, in, idx, len(ob.F), func(s *State, i int) {
			fr.set(s, in, Ptr{o, p + "." + strconv.Itoa(i)})
		})
	}
	// one of several segments or elements: opaque element
	var segs []Val
	for _, v := range ob.F {
		if s, is := v.(Seg); is {
			segs = append(segs, s)
		}
	}
	fr.set(st, in, In{term("segelem", Seg{"of", segs}, idx)})
	return one(st)
}

func (fr *Frame) index(st *State, in *ssa.Index) ([]*State, bool) {
	x := st.norm(fr.val(st, in.X))
	idx := st.concretize(fr.val(st, in.Index))
	if isStringType(in.X.Type()) {
		return fr.strIndexStep(st, in, x, idx)
	}
	x = st.concretize(x)
	if a, ok := x.(Agg); ok {
		if !fr.inRange(st, in, idx, Int(len(a.F))) {
			return nil, true
		}
		if i, ok := idx.(Int); ok {
			fr.set(st, in, a.F[i])
			return one(st)
		}
		return fr.choose(st, in, idx, len(a.F), func(s *State, i int) { fr.set(s, in, a.F[i]) })
	}
	fr.set(st, in, Top{})
	return one(st)
}

func (fr *Frame) strIndexStep(st *State, in ssa.Instruction, x, idx Val) ([]*State, bool) {
	n := fr.lenOf(st, x)
	if t, ok := n.(Tab); ok {
		bad := false
		for _, g := range t.G {
			u, ok := st.upper(idx, g.V)
			if !ok || u >= 0 {
				bad = true
			}
		}
		if bad {
			n = st.concretize(n)
		} else {
			n = nil
		}
	}
	if n != nil && !fr.inRange(st, in, idx, n) {
		return nil, true
	}
	fr.set(st, in.(ssa.Value), st.mapTab(x, func(v Val) Val { return st.strIndex(v, idx) }))
	return one(st)
}

func (fr *Frame) slice(st *State, in *ssa.Slice) ([]*State, bool) {
	x := st.norm(fr.val(st, in.X))
	var lo, hi Val = Int(0), nil
	if in.Low != nil {
		lo = st.concretize(fr.val(st, in.Low))
	}
	if in.High != nil {
		hi = st.concretize(fr.val(st, in.High))
	}
	if isStringType(in.X.Type()) {
		if in.Low != nil || in.High != nil {
			x = st.concretize(x)
			n := st.concretize(fr.lenOf(st, x))
			h := hi
			if h == nil {
				h = n
			}
			ok := true
			for _, p := range [][2]Val{{Int(0), lo}, {lo, h}, {h, n}} {
				if u, known := st.upper(p[0], p[1]); known && u <= 0 {
					continue
				} else if !known {
					fr.e.note("slice bounds unknown at " + fr.e.posOf(in))
					continue
				}
				bad := st.clone()
				fr.from[bad] = fr.from[st]
				if bad.assumeLE(p[1], 1, p[0]) {
					fr.crash(bad, in, "slice bounds out of range")
				}
				if !st.assumeLE(p[0], 0, p[1]) {
					ok = false
					break
				}
			}
			if !ok {
				return nil, true
			}
			fr.set(st, in, st.strSlice(x, lo, h, n))
			return one(st)
		}
		fr.set(st, in, x)
		return one(st)
	}
	x = st.concretize(x)
	switch a := x.(type) {
	case Nil:
		fr.set(st, in, Nil{})
		return one(st)
	case Ptr: // array
		ob := st.obj(a.O)
		if in.Low == nil && in.High == nil && a.P == "" && ob.Shape == "list" {
			fr.set(st, in, Slice{O: a.O})
			return one(st)
		}
		v := st.loadPtr(a)
		if ag, ok := v.(Agg); ok {
			l, ok1 := lo.(Int)
			h := int64(len(ag.F))
			ok2 := true
			if hi != nil {
				var hv Int
				hv, ok2 = hi.(Int)
				h = int64(hv)
			}
			if ok1 && ok2 && int64(l) <= h && h <= int64(len(ag.F)) {
				o := st.newObj("list", types.NewSlice(types.Typ[types.Int]), append([]Val(nil), ag.F[l:h]...))
				fr.set(st, in, Slice{O: o})
				return one(st)
			}
		}
		fr.set(st, in, Top{})
		return one(st)
	case Slice:
		ob := st.obj(a.O)
		n := st.listLen(ob)
		if hi == nil {
			hi = n
		}
		l, ok1 := lo.(Int)
		h, ok2 := hi.(Int)
		if ok1 && ok2 && l == 0 && h == 0 {
			// x[:0] keeps the array: later appends write into it
			o := st.newObj("list", ob.T, nil)
			fr.set(st, in, Slice{O: o, Shared: a.O})
			return one(st)
		}
		if eqVal(lo, Int(0)) && eqVal(hi, n) {
			fr.set(st, in, a)
			return one(st)
		}
		plain := true
		for _, v := range ob.F {
			if _, is := v.(Seg); is {
				plain = false
			}
		}
		if ok1 && ok2 && plain {
			if l < 0 || h < l || int(h) > len(ob.F) {
				fr.crash(st, in, "slice bounds out of range")
				return nil, true
			}
			o := st.newObj("list", ob.T, append([]Val(nil), ob.F[l:h]...))
			sh := ObjID(0)
			if int(h) < len(ob.F) {
				sh = a.O
			}
			fr.set(st, in, Slice{O: o, Shared: sh})
			return one(st)
		}
		// from the front
		if ok1 && eqVal(hi, n) {
			k := int(l)
			pre := true
			for i := 0; i < k && i < len(ob.F); i++ {
				if _, is := ob.F[i].(Seg); is {
					pre = false
				}
			}
			if pre && k <= len(ob.F) {
				o := st.newObj("list", ob.T, append([]Val(nil), ob.F[k:]...))
				fr.set(st, in, Slice{O: o})
				return one(st)
			}
		}
		// drop from the end
		if u, ok := st.upper(hi, n); ok && eqVal(lo, Int(0)) {
			if v, _ := st.upper(n, hi); v == -u && -u <= int64(len(ob.F)) && u <= 0 {
				k := len(ob.F) + int(u)
				suf := true
				for i := k; i < len(ob.F); i++ {
					if _, is := ob.F[i].(Seg); is {
						suf = false
					}
				}
				if suf {
					o := st.newObj("list", ob.T, append([]Val(nil), ob.F[:k]...))
					fr.set(st, in, Slice{O: o, Shared: a.O})
					return one(st)
				}
			}
		}
		if len(ob.F) == 1 {
			if s, is := ob.F[0].(Seg); is && s.Kind == "opaque" {
				fr.set(st, in, Slice{O: st.newObj("list", ob.T, []Val{Seg{"opaque", []Val{st.intFor(0, posInf, term("sllen", a, lo, hi))}}})})
				return one(st)
			}
		}
		panic(undecidable{"slicing at " + fr.e.posOf(in)})
	case InSlice:
		n := st.inLen(a.T)
		if hi == nil {
			hi = n
		}
		if eqVal(lo, Int(0)) && eqVal(hi, Val(n)) {
			fr.set(st, in, a)
			return one(st)
		}
		for _, p := range [][2]Val{{Int(0), lo}, {lo, hi}, {hi, n}} {
			if u, known := st.upper(p[0], p[1]); known && u <= 0 {
				continue
			}
			bad := st.clone()
			fr.from[bad] = fr.from[st]
			if bad.assumeLE(p[1], 1, p[0]) {
				fr.crash(bad, in, "slice bounds out of range")
			}
			if !st.assumeLE(p[0], 0, p[1]) {
				return nil, true
			}
		}
		nt := term("sub", a.T, lo, hi)
		if in.Max != nil {
			nt = term("sub", a.T, lo, hi, Int(1))
		}
		fr.set(st, in, InSlice{nt})
		return one(st)
	}
	fr.set(st, in, Top{})
	return one(st)
}

// appendTo implements the append builtin.
func (fr *Frame) appendTo(st *State, in ssa.Instruction, s, more Val, t types.Type) Val {
	s, more = st.concretize(s), st.concretize(more)
	var add []Val
	switch m := more.(type) {
	case Nil:
	case Slice:
		add = st.obj(m.O).F
	case Str:
		for i := 0; i < len(m); i++ {
			add = append(add, Int(m[i]))
		}
	case InSlice:
		add = []Val{Seg{"in", []Val{Int(0), m.T}}}
	default:
		add = []Val{Seg{"opaque", []Val{st.intFor(0, posInf, term("len", more))}}}
	}
	switch a := s.(type) {
	case Nil:
		if len(add) == 0 {
			return Nil{}
		}
		return Slice{O: st.newObj("list", t, append([]Val(nil), add...))}
	case Slice:
		ob := st.obj(a.O)
		if a.Shared != 0 && len(add) > 0 {
			// the append overwrites elements of the longer slice
			if so, ok := st.objs[a.Shared]; ok {
				f := append([]Val(nil), so.F...)
				for i := range add {
					if k := len(ob.F) + i; k < len(f) {
						f[k] = add[i]
					}
				}
				st.objs[a.Shared] = &Obj{so.Shape, so.T, f}
			}
		}
		f := append(append([]Val(nil), ob.F...), add...)
		o := st.newObj("list", t, f)
		sh := ObjID(0)
		if a.Shared != 0 {
			if so, ok := st.objs[a.Shared]; ok && len(f) < len(so.F) {
				sh = a.Shared
			}
		}
		if a.O < 0 && !fr.e.initing && cap(ob.F) > len(ob.F) {
			_ = in
		}
		return Slice{O: o, Shared: sh}
	case InSlice:
		if a.T.Op == "sub" && len(a.T.A) == 3 && len(add) > 0 && !st.equalInts(a.T.A[2], st.inLen(a.T.A[0].(Term))) {
			fr.report([]string{"C16"}, "write-input", in, "an element of a list of the statement is overwritten by append")
		}
		f := []Val{Seg{"in", []Val{Int(0), a.T}}}
		f = append(f, add...)
		return Slice{O: st.newObj("list", t, f)}
	}
	return Top{}
}

// ------------------------------------------------------------ maps

// mapGet finds a key; found is a Bool or an unknown truth value.
func (fr *Frame) mapGet(st *State, in ssa.Instruction, m, k Val, mt *types.Map) (Val, Val) {
	zero := zeroOf(mt.Elem())
	switch a := m.(type) {
	case Nil:
		return zero, Bool(false)
	case MapV:
		ob := st.obj(a.O)
		if ob.Shape == "map" {
			return fr.mapFind(st, ob, k, zero)
		}
		s := fr.opaqueLookup(st, foldedMap(a, ob), k, mt)
		return s[0], s[1]
	case InMap:
		s := fr.opaqueLookup(st, a.T, k, mt)
		return s[0], s[1]
	}
	return Top{}, Top{}
}

// foldedMap is the content of a map that is not kept: it changes with every
// version of the map.
func foldedMap(a MapV, ob *Obj) Term { return term("map", append([]Val{a}, ob.F...)...) }

func (fr *Frame) opaqueLookup(st *State, at Term, k Val, mt *types.Map) [2]Val {
	if hk, ok := fr.e.h.(interface {
		MapLookup(st *State, at Term, k Val) (Val, Val, bool)
	}); ok {
		k = st.concretize(k)
		if v, found, ok := hk.MapLookup(st, at, k); ok {
			return [2]Val{v, found}
		}
	}
	found := st.opaqueBool(term("has", at, k))
	v := fr.e.input(st, term("mapval", at, k), mt.Elem())
	zero := zeroOf(mt.Elem())
	val := st.mapTab(found, func(b Val) Val {
		if b == Val(Bool(true)) {
			return v
		}
		return zero
	})
	return [2]Val{val, found}
}

func (fr *Frame) mapFind(st *State, ob *Obj, k, zero Val) (Val, Val) {
	r := st.mapTab(k, func(k Val) Val {
		for i := 0; i+1 < len(ob.F); i += 2 {
			c := st.norm(st.eq(ob.F[i], k, nil))
			if c == Val(Bool(true)) {
				return Agg{[]Val{ob.F[i+1], Bool(true)}}
			}
			if c != Val(Bool(false)) {
				panic(mapSplit{c})
			}
		}
		return Agg{[]Val{zero, Bool(false)}}
	})
	return getPath(r, []int{0}, st), getPath(r, []int{1}, st)
}

// mapSplit asks for a decision on a condition found inside a lookup.
type mapSplit struct{ c Val }

func (fr *Frame) lookup(st *State, in *ssa.Lookup) ([]*State, bool) {
	x := fr.val(st, in.X)
	k := fr.val(st, in.Index)
	if isStringType(in.X.Type()) {
		return fr.strIndexStep(st, in, st.norm(x), st.concretize(k))
	}
	x = st.concretize(x)
	mt := in.X.Type().Underlying().(*types.Map)
	outs := fr.deciding(st, func(s *State) {
		v, ok := fr.mapGet(s, in, x, k, mt)
		if in.CommaOk {
			both := s.mapTab2(v, ok, func(a, b Val) Val { return Agg{[]Val{a, b}} })
			fr.set(s, in, both)
		} else {
			fr.set(s, in, v)
		}
	})
	return outs, len(outs) == 0
}

// deciding runs f, splitting the state on conditions it asks about.
func (fr *Frame) deciding(st *State, f func(s *State)) (outs []*State) {
	c, again := func() (c Val, again bool) {
		defer func() {
			if r := recover(); r != nil {
				if m, ok := r.(mapSplit); ok {
					c, again = m.c, true
					return
				}
				panic(r)
			}
		}()
		f(st)
		return nil, false
	}()
	if !again {
		return []*State{st}
	}
	switch c := c.(type) {
	case Tab:
		panic(splitReq{c.S, tabSets(c), st.syms[c.S], nil})
	case Term:
		no := st.clone()
		if st.assume(c, true) {
			outs = append(outs, fr.deciding(st, f)...)
		}
		if no.assume(c, false) {
			outs = append(outs, fr.deciding(no, f)...)
		}
		return
	}
	panic(undecidable{"map key comparison"})
}

func tabSets(t Tab) []Bits {
	sets := make([]Bits, len(t.G))
	for i, g := range t.G {
		sets[i] = g.Set
	}
	return sets
}

func (fr *Frame) mapUpdate(st *State, in *ssa.MapUpdate) ([]*State, bool) {
	m := st.concretize(fr.val(st, in.Map))
	k, v := fr.val(st, in.Key), fr.val(st, in.Value)
	switch a := m.(type) {
	case Nil:
		fr.crash(st, in, "assignment to entry in nil map")
		return nil, true
	case MapV:
		if a.O < 0 && !fr.e.initing {
			fr.report([]string{"C16"}, "write-shared", in, "package state is modified")
			return one(st)
		}
		return fr.mapPut(st, a.O, k, v)
	case InMap:
		fr.report([]string{"C16"}, "write-input", in, "a map of the statement or the dictionary is modified")
		return one(st)
	}
	panic(undecidable{"map update at " + fr.e.posOf(in)})
}

func (fr *Frame) mapPut(st *State, o ObjID, k, v Val) ([]*State, bool) {
	if repl, ok := fr.e.h.(interface {
		MapPut(fr *Frame, st *State, o ObjID, k, v Val) bool
	}); ok && repl.MapPut(fr, st, o, k, v) {
		return one(st)
	}
	k = st.concretize(k)
	put := func(s *State, ob *Obj) {
		if o < 0 {
			s.e.base[o] = ob
			return
		}
		s.objs[o] = ob
	}
	outs := fr.deciding(st, func(s *State) {
		ob := s.obj(o)
		for i := 0; i+1 < len(ob.F); i += 2 {
			c := s.norm(s.eq(ob.F[i], k, nil))
			if c == Val(Bool(true)) {
				f := append([]Val(nil), ob.F...)
				f[i+1] = v
				put(s, &Obj{ob.Shape, ob.T, f})
				return
			}
			if c != Val(Bool(false)) {
				panic(mapSplit{c})
			}
		}
		put(s, &Obj{ob.Shape, ob.T, append(append([]Val(nil), ob.F...), k, v)})
	})
	return outs, len(outs) == 0
}

// rangeOver starts an iteration over a map or a string. The iterator is a
// cell object that holds Agg{what, order, position}.
func (fr *Frame) rangeOver(st *State, in *ssa.Range) ([]*State, bool) {
	x := st.concretize(fr.val(st, in.X))
	it := func(s *State, f ...Val) {
		fr.set(s, in, Ptr{O: s.newObj(iterShape(f), in.Type(), f)})
	}
	switch a := x.(type) {
	case Nil:
		it(st, Str("none"))
		return one(st)
	case Str:
		it(st, Str("str"), a, Int(0))
		return one(st)
	case MapV:
		ob := st.obj(a.O)
		if ob.Shape == "map" {
			n := len(ob.F) / 2
			order := sortedMapKeys(ob)
			if fr.e.initing {
				if fr.e.mapDesc {
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						order[i], order[j] = order[j], order[i]
					}
				}
				it(st, Str("map"), a, orderVal(order), Str("0"))
				return one(st)
			}
			if n <= 1 {
				it(st, Str("map"), a, orderVal(order), Str("0"))
				return one(st)
			}
			// any key can come first
			var outs []*State
			for k := 0; k < n; k++ {
				s := st.clone()
				o2 := append([]int{order[k]}, append(append([]int(nil), order[:k]...), order[k+1:]...)...)
				it(s, Str("map"), a, orderVal(o2), Str("0"))
				outs = append(outs, s)
			}
			return outs, false
		}
		it(st, Str("opq"), foldedMap(a, ob), Int(0))
		return one(st)
	case InMap:
		it(st, Str("opq"), a.T, Int(0))
		return one(st)
	case Term:
		it(st, Str("opqstr"), a, Int(0))
		return one(st)
	}
	panic(undecidable{"range over " + keyOf(x) + " at " + fr.e.posOf(in)})
}

// iterShape keeps positions in the iteration of a known map apart.
func iterShape(f []Val) string {
	if f[0] == Val(Str("map")) {
		return "iter" + keyOf(f[2]) + keyOf(f[3])
	}
	return "iter"
}

func orderVal(o []int) Val {
	f := make([]Val, len(o))
	for i, x := range o {
		f[i] = Int(x)
	}
	return Agg{f}
}

func sortedMapKeys(ob *Obj) []int {
	n := len(ob.F) / 2
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool {
		a, b := ob.F[2*idx[i]], ob.F[2*idx[j]]
		x, ok1 := a.(Int)
		y, ok2 := b.(Int)
		if ok1 && ok2 {
			return x < y
		}
		return keyOf(a) < keyOf(b)
	})
	return idx
}

func (fr *Frame) next(st *State, in *ssa.Next) ([]*State, bool) {
	p := st.concretize(fr.val(st, in.Iter)).(Ptr)
	ob := st.obj(p.O)
	done := Agg{[]Val{Bool(false), Top{}, Top{}}}
	kind := ob.F[0].(Str)
	upd := func(s *State, f ...Val) { s.setObj(p.O, &Obj{iterShape(f), ob.T, f}) }
	switch kind {
	case "none":
		fr.set(st, in, done)
		return one(st)
	case "str":
		str, i := string(ob.F[1].(Str)), int(ob.F[2].(Int))
		if i >= len(str) {
			fr.set(st, in, done)
			return one(st)
		}
		for j, r := range str[i:] {
			_ = j
			w := len(string(r))
			if r == 0xFFFD {
				w = 1
			}
			fr.set(st, in, Agg{[]Val{Bool(true), Int(i), Int(r)}})
			upd(st, ob.F[0], ob.F[1], Int(i+w))
			break
		}
		return one(st)
	case "map":
		// the position is not a number, so that it is never joined with another
		m := st.obj(st.concretize(ob.F[1]).(MapV).O)
		if m.Shape != "map" {
			panic(undecidable{"a map changes during an iteration"})
		}
		ordV, ok1 := st.concretize(ob.F[2]).(Agg)
		pos, ok2 := st.concretize(ob.F[3]).(Str)
		if !ok1 || !ok2 {
			panic(undecidable{"the position of an iteration is not known"})
		}
		ord := ordV.F
		i, _ := strconv.Atoi(string(pos))
		if i >= len(ord) {
			fr.set(st, in, done)
			return one(st)
		}
		kv, ok := st.concretize(ord[i]).(Int)
		if !ok {
			panic(undecidable{"the position of an iteration is not known"})
		}
		k := int(kv)
		fr.set(st, in, Agg{[]Val{Bool(true), m.F[2*k], m.F[2*k+1]}})
		upd(st, ob.F[0], ob.F[1], ob.F[2], Str(strconv.Itoa(i+1)))
		return one(st)
	case "opq":
		at := ob.F[1].(Term)
		i := ob.F[2]
		n := st.intFor(0, posInf, term("len", at))
		var outs []*State
		end := st.clone()
		if end.assumeLE(n, 0, i) {
			fr.set(end, in, done)
			outs = append(outs, end)
		}
		if st.assumeLE(i, 1, n) {
			key := fr.e.mapKeyAt(st, at, i, in)
			val := fr.e.input(st, term("mapval", at, key), rangeElem(in, 2))
			fr.set(st, in, Agg{[]Val{Bool(true), key, val}})
			upd(st, ob.F[0], ob.F[1], st.intOp(token.ADD, i, Int(1), types.Typ[types.Int]))
			outs = append(outs, st)
		}
		if len(outs) == 2 {
			for h, l := range fr.fi.loopOf {
				if l != nil && l[in.Block().Index] {
					fr.undec[h] = true
				}
			}
		}
		return outs, len(outs) == 0
	case "opqstr":
		end := st.clone()
		fr.set(end, in, done)
		fr.set(st, in, Agg{[]Val{Bool(true), Top{}, Top{}}})
		return []*State{end, st}, false
	}
	panic("next " + string(kind))
}

func rangeElem(in *ssa.Next, i int) types.Type {
	t := in.Type().(*types.Tuple).At(i).Type()
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return types.NewStruct(nil, nil)
	}
	return t
}

// mapKeyAt is the key at an unordered position of an input map.
func (e *Engine) mapKeyAt(st *State, at Term, i Val, in *ssa.Next) Val {
	t := rangeElem(in, 1)
	if isStringType(t) {
		return term("mapkey", at, i)
	}
	return e.input(st, term("mapkey", at, i), t)
}

// ------------------------------------------------------------ types

func implements(t types.Type, iface *types.Interface) bool {
	if isStandIn(t) {
		if iface.NumMethods() == 0 {
			return true
		}
		return (t == rtErrT || t == libErrT) && iface.NumMethods() == 1 && iface.Method(0).Name() == "Error"
	}
	return types.Implements(t, iface)
}

func (fr *Frame) typeAssert(st *State, in *ssa.TypeAssert) ([]*State, bool) {
	x := fr.val(st, in.X)
	want := in.AssertedType
	wi, isIface := want.Underlying().(*types.Interface)
	zero := zeroOf(want)
	f := func(v Val) (Val, Val) {
		switch a := v.(type) {
		case Nil:
			return zero, Bool(false)
		case Iface:
			if a.T == opaqueT {
				return Top{}, Top{}
			}
			if isIface {
				if implements(a.T, wi) {
					return a, Bool(true)
				}
				return zero, Bool(false)
			}
			if types.Identical(a.T, want) {
				return a.V, Bool(true)
			}
			return zero, Bool(false)
		}
		return Top{}, Top{}
	}
	if in.CommaOk {
		fr.set(st, in, st.mapTab(x, func(v Val) Val {
			a, b := f(v)
			return Agg{[]Val{a, b}}
		}))
		return one(st)
	}
	r := st.mapTab(x, func(v Val) Val {
		_, b := f(v)
		return b
	})
	r = st.concretize(r)
	if r == Val(Bool(false)) {
		fr.crash(st, in, "interface conversion fails")
		return nil, true
	}
	fr.set(st, in, st.mapTab(x, func(v Val) Val {
		a, _ := f(v)
		return a
	}))
	return one(st)
}

func (fr *Frame) convert(st *State, v Val, from, to types.Type) Val {
	return st.mapTab(v, func(v Val) Val { return st.convert1(v, from, to) })
}

func (st *State) convert1(v Val, from, to types.Type) Val {
	tu := to.Underlying()
	switch {
	case isIntType(from) && isIntType(to):
		switch a := v.(type) {
		case Int:
			return wrapInt(int64(a), to)
		case Lin:
			lo, hi := st.bounds(a)
			if fitsInt(lo, hi, to) {
				return a
			}
			return st.intFor(intRange(to, false), intRange(to, true), term("trunc:"+typeKey(to), a))
		}
		return v
	case isIntType(from) && isFloatType(to):
		if a, ok := v.(Int); ok {
			return Flt(a)
		}
		if l, ok := v.(Lin); ok && l.O == 0 {
			if d, ok := st.syms[l.S].Def.(Term); ok && d.Op == "neg" {
				return st.fltNeg(st.convert1(d.A[0], from, to))
			}
			if d, ok := st.syms[l.S].Def.(Term); ok {
				return term("tofloat", d)
			}
		}
		return term("tofloat", v)
	case isFloatType(from) && isIntType(to):
		if a, ok := v.(Flt); ok && math.Abs(float64(a)) < 1<<53 {
			return wrapInt(int64(a), to)
		}
		return st.intFor(negInf, posInf, term("toint", v))
	case isFloatType(from) && isFloatType(to):
		if to.Underlying().(*types.Basic).Kind() == types.Float32 {
			if a, ok := v.(Flt); ok {
				return Flt(float32(a))
			}
			return term("float32", v)
		}
		return v
	case isStringType(to):
		if isStringType(from) {
			return v
		}
		if a, ok := v.(Int); ok && isIntType(from) {
			return Str(string(rune(a)))
		}
		if s, ok := v.(Slice); ok {
			ob := st.obj(s.O)
			out := make([]byte, 0, len(ob.F))
			for _, x := range ob.F {
				c, ok := x.(Int)
				if !ok {
					return term("bytes2s", v)
				}
				if isRuneSlice(from) {
					out = append(out, string(rune(c))...)
				} else {
					out = append(out, byte(c))
				}
			}
			return Str(out)
		}
		if t, ok := v.(Term); ok && t.Op == "s2bytes" {
			return t.A[0]
		}
		if _, ok := v.(Top); ok {
			return Top{}
		}
		return term("tos", v)
	case isStringType(from):
		if a, ok := v.(Str); ok {
			var f []Val
			if isRuneSlice(to) {
				for _, r := range string(a) {
					f = append(f, Int(r))
				}
			} else {
				for i := 0; i < len(a); i++ {
					f = append(f, Int(a[i]))
				}
			}
			return Slice{O: st.newObj("list", to, f)}
		}
		return term("s2bytes", v)
	}
	_ = tu
	return v
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func fitsInt(lo, hi int64, t types.Type) bool {
	return lo >= intRange(t, false) && hi <= intRange(t, true)
}

func intRange(t types.Type, up bool) int64 {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8:
		return pick(up, math.MaxInt8, math.MinInt8)
	case types.Int16:
		return pick(up, math.MaxInt16, math.MinInt16)
	case types.Int32:
		return pick(up, math.MaxInt32, math.MinInt32)
	case types.Uint8:
		return pick(up, math.MaxUint8, 0)
	case types.Uint16:
		return pick(up, math.MaxUint16, 0)
	case types.Uint32:
		return pick(up, math.MaxUint32, 0)
	case types.Uint, types.Uint64, types.Uintptr:
		return pick(up, posInf, 0)
	}
	return pick(up, posInf, negInf)
}

func pick(up bool, a, b int64) int64 {
	if up {
		return a
	}
	return b
}

var _ = constant.Int

// inLen is the length of a list of the input: a part of one, from lo to hi,
// has hi-lo elements.
func (st *State) inLen(t Term) Val {
	if t.Op == "sub" {
		if eqVal(t.A[1], Int(0)) {
			return t.A[2]
		}
		return st.intOp(token.SUB, t.A[2], t.A[1], types.Typ[types.Int])
	}
	if hk, ok := st.e.h.(interface {
		InputLen(st *State, t Term) Val
	}); ok {
		if n := hk.InputLen(st, t); n != nil {
			return n
		}
	}
	return st.intFor(0, posInf, term("len", t))
}

// inElem is the place of an element of a list of the input; element i of
// the part from lo on is element lo+i of the whole.
func (st *State) inElem(t Term, idx Val) Term {
	for t.Op == "sub" {
		if !eqVal(t.A[1], Int(0)) {
			idx = st.intOp(token.ADD, t.A[1], idx, types.Typ[types.Int])
		}
		t = t.A[0].(Term)
	}
	return term("elem", t, idx)
}
