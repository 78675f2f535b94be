package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which fields of the parser and its tokenizer a function reads before it
// has written them. A field that is not among them can be forgotten at the
// start of the function: what is forgotten is unknown from then on, so the
// answer here decides how much the analysis keeps apart, not what is true.

const curLexeme = "lexeme"

type liveState struct {
	written map[string]bool
	consts  map[string]int64
}

func (s *liveState) copy() *liveState {
	n := &liveState{map[string]bool{}, map[string]int64{}}
	for k := range s.written {
		n.written[k] = true
	}
	for k, v := range s.consts {
		n.consts[k] = v
	}
	return n
}

// meet keeps what holds of both; it reports a change of s.
func (s *liveState) meet(t *liveState) (changed bool) {
	for k := range s.written {
		if !t.written[k] {
			delete(s.written, k)
			changed = true
		}
	}
	for k, v := range s.consts {
		if w, ok := t.consts[k]; !ok || w != v {
			delete(s.consts, k)
			changed = true
		}
	}
	return
}

type liveSummary struct {
	live  map[string]bool
	all   bool       // everything not written is read
	exit  *liveState // nil: does not return
	open  bool
	final bool
	pass  int
}

type liveness struct {
	h    *parseHooks
	memo map[string]*liveSummary

	busy, changed bool
	pass          int
}

func (l *liveness) of(fn *ssa.Function, consts map[string]int64) *liveSummary {
	var ks []string
	for k, v := range consts {
		ks = append(ks, k+"="+itoa(int(v)))
	}
	sort.Strings(ks)
	key := fn.String() + "|" + strings.Join(ks, ",")
	if s := l.memo[key]; s != nil && (s.pass == l.pass && l.busy || s.final && !l.busy) {
		return s
	}
	outer := !l.busy
	l.busy = true
	for {
		l.changed = false
		if outer {
			l.pass++
		}
		l.compute(key, fn, consts)
		if !outer || !l.changed {
			break
		}
	}
	if outer {
		l.busy = false
		l.memo[key].final = true
	}
	return l.memo[key]
}

func (l *liveness) compute(key string, fn *ssa.Function, consts map[string]int64) {
	old := l.memo[key]
	sum := &liveSummary{live: map[string]bool{}, pass: l.pass}
	if old == nil {
		l.changed = true
		sum.open = true
		l.memo[key] = sum
	} else {
		// while it is computed, what is known of it so far counts
		old.pass = l.pass
	}
	in := map[int]*liveState{0: (&liveState{map[string]bool{}, consts}).copy()}
	work := []int{0}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		l.block(fn.Blocks[b], in[b].copy(), nil, func(succ int, s *liveState) {
			if in[succ] == nil {
				in[succ] = s.copy()
				work = append(work, succ)
			} else if in[succ].meet(s) {
				work = append(work, succ)
			}
		})
	}
	for b, s := range in {
		l.block(fn.Blocks[b], s.copy(), sum, func(int, *liveState) {})
	}
	sum.open = false
	if old != nil && !same(old, sum) {
		l.changed = true
	}
	l.memo[key] = sum
}

func same(a, b *liveSummary) bool {
	if a.all != b.all || len(a.live) != len(b.live) || (a.exit == nil) != (b.exit == nil) {
		return false
	}
	for k := range a.live {
		if !b.live[k] {
			return false
		}
	}
	if a.exit == nil {
		return true
	}
	if len(a.exit.written) != len(b.exit.written) || len(a.exit.consts) != len(b.exit.consts) {
		return false
	}
	for k := range a.exit.written {
		if !b.exit.written[k] {
			return false
		}
	}
	return true
}

// fieldKey names the field at an address.
func fieldKey(v ssa.Value) (string, bool) {
	f, ok := v.(*ssa.FieldAddr)
	if !ok {
		return "", false
	}
	n := namedOf(f.X.Type())
	if n == nil {
		return "", false
	}
	return n.Obj().Name() + "." + itoa(f.Field), true
}

func (l *liveness) block(b *ssa.BasicBlock, st *liveState, sum *liveSummary, edge func(int, *liveState)) {
	known := map[ssa.Value]int64{}
	constOf := func(v ssa.Value) (int64, bool) {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil {
			switch c.Value.Kind() {
			case constant.Int:
				return constant.Int64Val(c.Value)
			case constant.Bool:
				if constant.BoolVal(c.Value) {
					return 1, true
				}
				return 0, true
			}
		}
		k, ok := known[v]
		return k, ok
	}
	read := func(k string) {
		if sum != nil && !st.written[k] {
			sum.live[k] = true
		}
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if k, ok := fieldKey(in.X); ok {
					read(k)
					if c, ok := st.consts[k]; ok {
						known[in] = c
					}
				} else if n := namedOf(in.X.Type()); n != nil {
					if s, ok := n.Underlying().(*types.Struct); ok && l.h.blurred(n) {
						for i := 0; i < s.NumFields(); i++ {
							read(n.Obj().Name() + "." + itoa(i))
						}
					}
				}
			} else if in.Op == token.NOT {
				if c, ok := known[in.X]; ok {
					known[in] = 1 - c
				}
			}
		case *ssa.BinOp:
			x, ok1 := constOf(in.X)
			y, ok2 := constOf(in.Y)
			if ok1 && ok2 {
				t := false
				switch in.Op {
				case token.EQL:
					t = x == y
				case token.NEQ:
					t = x != y
				case token.GTR:
					t = x > y
				case token.LSS:
					t = x < y
				default:
					continue
				}
				known[in] = 0
				if t {
					known[in] = 1
				}
			}
		case *ssa.Store:
			if k, ok := fieldKey(in.Addr); ok {
				st.written[k] = true
				delete(st.consts, k)
				if c, ok := constOf(in.Val); ok {
					st.consts[k] = c
				}
			}
		case *ssa.Call:
			f := in.Call.StaticCallee()
			switch {
			case f == nil:
			case isScanner(f, l.h.w, "Scan"):
				st.written[curLexeme] = true
			case isScanner(f, l.h.w, "TokenText"):
				read(curLexeme)
			case describes(f):
			case f.Pkg == l.h.w.pkg && len(f.Blocks) > 0:
				s := l.of(f, st.consts)
				if sum != nil {
					for k := range s.live {
						read(k)
					}
				}
				if s.open {
					// a recursive call; the outermost one decides
					st.consts = map[string]int64{}
					continue
				}
				if s.exit == nil {
					return
				}
				for k := range s.exit.written {
					st.written[k] = true
				}
				st.consts = s.exit.copy().consts
			}
		case *ssa.FieldAddr:
			// an address that goes elsewhere
			k, ok := fieldKey(in)
			if !ok || in.Referrers() == nil {
				continue
			}
			for _, r := range *in.Referrers() {
				switch r := r.(type) {
				case *ssa.UnOp, *ssa.FieldAddr, *ssa.DebugRef:
				case *ssa.Store:
					if r.Val == ssa.Value(in) {
						read(k)
					}
				case *ssa.Call:
					if f := r.Call.StaticCallee(); f == nil || f.Pkg != l.h.w.scn {
						read(k)
					}
				default:
					read(k)
				}
			}
		case *ssa.Defer, *ssa.Go:
			if sum != nil {
				sum.all = true
			}
		case *ssa.Return:
			if sum != nil && !failing(in) {
				if sum.exit == nil {
					sum.exit = st.copy()
				} else {
					sum.exit.meet(st)
				}
			}
			return
		case *ssa.If:
			if c, ok := known[in.Cond]; ok {
				edge(b.Succs[1-c].Index, st)
				return
			}
			edge(b.Succs[0].Index, st)
			edge(b.Succs[1].Index, st)
			return
		case *ssa.Jump:
			edge(b.Succs[0].Index, st)
			return
		case *ssa.Panic:
			return
		}
	}
}

// describes reports whether a function only makes an error: what it reads
// ends up nowhere else.
func describes(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() != 1 || !isErrorType(res.At(0).Type()) || f.Signature.Params().Len() > 0 {
		return false
	}
	alloc := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				alloc = true
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil && g.Pkg == f.Pkg {
					return false
				}
			}
		}
	}
	return alloc
}

// failing reports whether a return is one of those that report an error.
func failing(in *ssa.Return) bool {
	n := len(in.Results)
	if n == 0 || !isErrorType(in.Results[n-1].Type()) {
		return false
	}
	switch e := in.Results[n-1].(type) {
	case *ssa.Const:
		return false
	case *ssa.Call:
		return true
	case *ssa.Phi:
		for _, x := range e.Edges {
			if _, ok := x.(*ssa.Call); !ok {
				return false
			}
		}
		return true
	}
	if n == 1 {
		return false
	}
	for _, r := range in.Results[:n-1] {
		if c, ok := r.(*ssa.Const); !ok || c.Value != nil {
			return false
		}
	}
	return true
}

// blurred reports whether fields of a type are forgotten.
func (h *parseHooks) blurred(n *types.Named) bool {
	return n.Obj().Pkg() == h.w.pkg.Pkg && (n.Obj().Name() == "parser" || n.Obj().Name() == "Tokenizer")
}

// Blur is the state that a function starts from.
func (h *parseHooks) Blur(fr *Frame, st *State, fn *ssa.Function, args []Val, g Ghost) (*State, Ghost) {
	if fn.Pkg != h.w.pkg && fn.Parent() == nil {
		return st, g
	}
	lg := g.(lexGhost)
	if !lg.begun {
		return st, g
	}
	r := st.reach(args)
	consts := map[string]int64{}
	var objs []ObjID
	for _, o := range r.objs {
		ob := st.obj(o)
		n := namedOf(ob.T)
		if o < 0 || !strings.HasPrefix(ob.Shape, "cell") || n == nil || !h.blurred(n) || len(ob.F) != 1 {
			continue
		}
		a, ok := ob.F[0].(Agg)
		if !ok {
			continue
		}
		objs = append(objs, o)
		for i, v := range a.F {
			switch v := st.norm(v).(type) {
			case Int:
				consts[n.Obj().Name()+"."+itoa(i)] = int64(v)
			case Bool:
				c := int64(0)
				if v {
					c = 1
				}
				consts[n.Obj().Name()+"."+itoa(i)] = c
			}
		}
	}
	if len(objs) == 0 {
		return st, g
	}
	for k := range consts {
		if !h.flags[k] {
			delete(consts, k)
		}
	}
	sum := h.live.of(fn, consts)
	if sum.all {
		return st, g
	}
	rec := fr.e.graph != nil && fr.e.graph.rec[fn]
	dead := func(k string) bool {
		return !sum.live[k] && (rec || sum.exit != nil && sum.exit.written[k])
	}
	var fresh Val
	if dead(curLexeme) {
		dom := fullBits(h.lx.u.N)
		if lg.eof {
			dom = bit(h.lx.eof)
		}
		fresh = SymRef{st.newChoice(h.lx.u, dom, nil)}
	}
	n := st.clone()
	changed := false
	for _, o := range objs {
		ob := n.obj(o)
		nm := namedOf(ob.T)
		str := nm.Underlying().(*types.Struct)
		a := ob.F[0].(Agg)
		f := append([]Val(nil), a.F...)
		for i := range f {
			k := nm.Obj().Name() + "." + itoa(i)
			if !dead(k) {
				continue
			}
			switch str.Field(i).Type().Underlying().(type) {
			case *types.Basic:
				f[i] = Top{}
				changed = true
			}
		}
		n.setObj(o, &Obj{ob.Shape, ob.T, []Val{Agg{f}}})
	}
	if fresh != nil {
		lg.cur = []Val{fresh}
		g = lg
		changed = true
	}
	if !changed {
		return st, g
	}
	return n, g
}

// flagFields lists the fields that are only ever compared with and set to
// constants: the modes of the parser.
func (h *parseHooks) flagFields() map[string]bool {
	out, no := map[string]bool{}, map[string]bool{}
	for _, fn := range h.w.e.allFuncs(h.w.pkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if k, ok := fieldKey(s.Addr); ok {
						c, isConst := s.Val.(*ssa.Const)
						if !isConst || c.Value == nil || c.Value.Kind() != constant.Int && c.Value.Kind() != constant.Bool {
							no[k] = true
						}
						out[k] = true
					}
				}
			}
		}
	}
	for k := range no {
		delete(out, k)
	}
	return out
}
