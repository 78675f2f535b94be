package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way in which a call can end.
type Outcome struct {
	st  *State
	val Val // result (Agg if several)
	pan Val // not nil: the call panics with this value
}

// Hooks connect the engine to the property being decided.
type Hooks interface {
	Input(st *State, prov Term, t types.Type) Val
	Call(fr *Frame, st *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]Outcome, bool)
	Invoke(fr *Frame, st *State, recv Val, m *types.Func, args []Val, site ssa.Instruction) ([]Outcome, bool)
	Enter(st *State, fn *ssa.Function) (Ghost, any)
	Leave(st *State, hidden any, g Ghost) Ghost
	LoopHead(fr *Frame, st *State, b *ssa.BasicBlock) []*State
	Return(fr *Frame, st *State, vals []Val) []item
}

type baseHooks struct{}

func (baseHooks) Input(st *State, prov Term, t types.Type) Val { return Top{} }
func (baseHooks) Call(*Frame, *State, *ssa.Function, []Val, ssa.Instruction) ([]Outcome, bool) {
	return nil, false
}
func (baseHooks) Invoke(*Frame, *State, Val, *types.Func, []Val, ssa.Instruction) ([]Outcome, bool) {
	return nil, false
}
func (baseHooks) Enter(st *State, fn *ssa.Function) (Ghost, any)            { return st.ghost, nil }
func (baseHooks) Leave(st *State, hidden any, g Ghost) Ghost                { return g }
func (baseHooks) LoopHead(fr *Frame, st *State, b *ssa.BasicBlock) []*State { return []*State{st} }
func (baseHooks) Return(fr *Frame, st *State, vals []Val) []item            { return []item{{st, vals}} }

// Violation is one broken rule at one place.
type Violation struct {
	Props []string // property ids
	Kind  string
	Pos   string
	Msg   string
}

func (v Violation) key() string { return v.Kind + "|" + v.Pos + "|" + v.Msg }

type Engine struct {
	keepNamed bool // facts about named parts of the input outlive their use
	prog      *ssa.Program
	pkg       *ssa.Package
	scn       *ssa.Package
	base      map[ObjID]*Obj
	globals   map[*ssa.Global]ObjID
	nextB     ObjID
	h         Hooks
	infos     map[*ssa.Function]*fnInfo
	ctxs      map[string]*Ctx
	rec       map[*ssa.Function][]*Ctx
	allCtx    []*Ctx
	round     int
	changed   bool
	initing   bool
	mapDesc   bool // iterate concrete maps in descending order (init only)
	thr       []int64
	steps     int
	limit     int
	stack     []*Ctx
	started   time.Time
	extra     map[string]Violation // violations not tied to a context
	fatal     string
	loaded    map[*ssa.Function]bool
	graph     *callGraph
	assumed   map[string]bool // external functions taken to be pure
	notes     map[string]bool // places where precision was lost

	exitsAdded int
	deferred   map[string]*ssa.Defer
	undecided  map[string]bool // paths that could not be followed
	recLim     int             // contexts of a recursive function kept apart before they are joined
	loopLim    int             // states of a loop head kept apart before integers are joined
}

// engines of the analysis under way, for what an abandoned one has found
var engines []*Engine

func (e *Engine) note(msg string) {
	if debugViol && !e.notes[msg] {
		fmt.Fprintln(os.Stderr, "NOTE", msg)
	}
	e.notes[msg] = true
}

func NewEngine(prog *ssa.Program, pkg, scn *ssa.Package) *Engine {
	e := &Engine{prog: prog, pkg: pkg, scn: scn, base: map[ObjID]*Obj{}, globals: map[*ssa.Global]ObjID{},
		h: baseHooks{}, infos: map[*ssa.Function]*fnInfo{}, ctxs: map[string]*Ctx{}, rec: map[*ssa.Function][]*Ctx{},
		extra: map[string]Violation{}, limit: 30000000, started: time.Now(), loaded: map[*ssa.Function]bool{}, assumed: map[string]bool{}, undecided: map[string]bool{}, deferred: map[string]*ssa.Defer{}, notes: map[string]bool{}}
	e.thr = []int64{0, 1}
	return e
}

// fork returns an engine that shares the program and the initial heap.
func (e *Engine) fork(h Hooks) *Engine {
	n := NewEngine(e.prog, e.pkg, e.scn)
	n.base, n.globals, n.nextB, n.infos, n.thr, n.graph = e.base, e.globals, e.nextB, e.infos, e.thr, e.graph
	n.h = h
	n.loopLim = 24
	n.recLim = 3
	engines = append(engines, n)
	if k, ok := h.(interface{ KeepNamed() bool }); ok {
		n.keepNamed = k.KeepNamed()
	}
	return n
}

func (e *Engine) widened(v int64, up bool, mode mergeMode) int64 {
	switch mode {
	case mergeWiden:
		return e.threshold(v, up)
	case mergeLast:
		if up {
			return posInf
		}
		return negInf
	}
	return v
}

// threshold rounds a bound outwards to a constant of the program.
func (e *Engine) threshold(v int64, up bool) int64 {
	if up {
		for _, t := range e.thr {
			if t >= v {
				return t
			}
		}
		return posInf
	}
	for i := len(e.thr) - 1; i >= 0; i-- {
		if e.thr[i] <= v {
			return e.thr[i]
		}
	}
	return negInf
}

func (e *Engine) harvestThresholds(pkgs ...*ssa.Package) {
	set := map[int64]bool{0: true, 1: true}
	for _, fn := range e.allFuncs(pkgs...) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
						if v, ok := constant.Int64Val(c.Value); ok && v > -1<<40 && v < 1<<40 {
							set[v-1], set[v], set[v+1] = true, true, true
						}
					}
				}
			}
		}
	}
	e.thr = e.thr[:0]
	for v := range set {
		e.thr = append(e.thr, v)
	}
	sort.Slice(e.thr, func(i, j int) bool { return e.thr[i] < e.thr[j] })
}

// allFuncs lists every function with a body declared in the packages.
func (e *Engine) allFuncs(pkgs ...*ssa.Package) (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || len(fn.Blocks) == 0 {
			return
		}
		seen[fn] = true
		out = append(out, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, p := range pkgs {
		names := make([]string, 0, len(p.Members))
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				t := m.Type()
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := e.prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := e.prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == p && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	return
}

// ------------------------------------------------------------ function info

type fnInfo struct {
	fn      *ssa.Function
	num     map[ssa.Value]int
	n       int
	liveIn  []map[int]bool // by block
	order   []int          // block -> position in the weak topological order
	isHead  []bool
	loopIdx []int // block -> loop number, for heads
	loopOf  [][]bool
	counted []bool
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.num[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.liveness()
	fi.wto()
	e.infos[fn] = fi
	return fi
}

func (fi *fnInfo) liveness() {
	fn := fi.fn
	nb := len(fn.Blocks)
	fi.liveIn = make([]map[int]bool, nb)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := map[int]bool{}
			for _, s := range b.Succs {
				for k := range fi.liveIn[s.Index] {
					live[k] = true
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, fi.num[phi])
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if n, ok := fi.num[phi.Edges[pi]]; ok {
							live[n] = true
						}
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					if _, isPhi := in.(*ssa.Phi); !isPhi {
						delete(live, fi.num[v])
					}
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					// phis stay live at block entry
					if used := in.(ssa.Value).Referrers(); used != nil && len(*used) > 0 {
						live[fi.num[in.(ssa.Value)]] = true
					} else {
						delete(live, fi.num[in.(ssa.Value)])
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if n, ok := fi.num[*op]; ok {
						live[n] = true
					}
				}
			}
			if fn.Recover != nil && b != fn.Recover {
				for k := range fi.liveIn[fn.Recover.Index] {
					live[k] = true
				}
			}
			for k := range live {
				if !fi.liveIn[bi][k] {
					fi.liveIn[bi][k] = true
					changed = true
				}
			}
		}
	}
}

// wto computes Bourdoncle's weak topological order.
func (fi *fnInfo) wto() {
	fn := fi.fn
	nb := len(fn.Blocks)
	fi.order = make([]int, nb)
	fi.isHead = make([]bool, nb)
	fi.loopIdx = make([]int, nb)
	fi.loopOf = make([][]bool, nb)
	fi.counted = make([]bool, nb)
	dfn := make([]int, nb)
	var stack []int
	num := 0
	var list []int // reversed
	const inf = 1 << 30
	var visit func(v int, out *[]int) int
	component := func(v int) []int {
		var part []int
		for _, s := range fn.Blocks[v].Succs {
			if dfn[s.Index] == 0 {
				visit(s.Index, &part)
			}
		}
		// part is reversed; component = v, reverse(part)
		return append(part, v)
	}
	visit = func(v int, out *[]int) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range fn.Blocks[v].Succs {
			var m int
			if dfn[s.Index] == 0 {
				m = visit(s.Index, out)
			} else {
				m = dfn[s.Index]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				fi.isHead[v] = true
				*out = append(*out, component(v)...)
			} else {
				*out = append(*out, v)
			}
		}
		return head
	}
	visit(0, &list)
	if fn.Recover != nil && dfn[fn.Recover.Index] == 0 {
		var l2 []int
		visit(fn.Recover.Index, &l2)
		list = append(l2, list...)
	}
	for i := range list {
		fi.order[list[len(list)-1-i]] = i
	}
	k := 0
	for v := 0; v < nb; v++ {
		if !fi.isHead[v] {
			continue
		}
		fi.loopIdx[v] = k
		k++
		// natural loop: blocks that reach a back edge without passing v
		in := make([]bool, nb)
		in[v] = true
		var work []int
		for _, p := range fn.Blocks[v].Preds {
			if fn.Blocks[v].Dominates(p) && !in[p.Index] {
				in[p.Index] = true
				work = append(work, p.Index)
			}
		}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			for _, p := range fn.Blocks[b].Preds {
				if !in[p.Index] {
					in[p.Index] = true
					work = append(work, p.Index)
				}
			}
		}
		fi.loopOf[v] = in
		fi.counted[v] = fi.isCounted(fn.Blocks[v], in)
	}
}

// isCounted recognises loops that step a counter towards a bound and
// loops over maps and strings.
func (fi *fnInfo) isCounted(head *ssa.BasicBlock, in []bool) bool {
	for _, b := range fi.fn.Blocks {
		if !in[b.Index] {
			continue
		}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Next); ok && b == head {
				return true
			}
		}
	}
	for _, i := range head.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		step := int64(0)
		good := true
		incs := map[ssa.Value]bool{phi: true}
		for pi, p := range head.Preds {
			if !in[p.Index] {
				continue
			}
			bo, ok := phi.Edges[pi].(*ssa.BinOp)
			if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) || bo.X != ssa.Value(phi) {
				good = false
				break
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				good = false
				break
			}
			v := c.Int64()
			if bo.Op == token.SUB {
				v = -v
			}
			if step == 0 {
				step = v
			}
			if v == 0 || (v > 0) != (step > 0) {
				good = false
			}
			incs[bo] = true
		}
		if !good || step == 0 {
			continue
		}
		for again := true; again; {
			again = false
			for _, b := range fi.fn.Blocks {
				for _, i := range b.Instrs {
					bo, ok := i.(*ssa.BinOp)
					if !ok || incs[bo] || !in[b.Index] || bo.Op != token.ADD && bo.Op != token.SUB {
						continue
					}
					_, cy := bo.Y.(*ssa.Const)
					_, cx := bo.X.(*ssa.Const)
					if incs[bo.X] && cy || incs[bo.Y] && cx && bo.Op == token.ADD {
						incs[bo] = true
						again = true
					}
				}
			}
		}
		for _, b := range fi.fn.Blocks {
			if !in[b.Index] || len(b.Instrs) == 0 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || in[b.Succs[0].Index] && in[b.Succs[1].Index] {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			if !b.Dominates(head) && b != head {
				// the test must run in every iteration
				dominatesAll := true
				for pi, p := range head.Preds {
					_ = pi
					if in[p.Index] && !b.Dominates(p) {
						dominatesAll = false
					}
				}
				if !dominatesAll {
					continue
				}
			}
			stay := in[b.Succs[0].Index]
			op := cmp.Op
			x, y := cmp.X, cmp.Y
			if incs[y] {
				x, y = y, x
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			if !incs[x] {
				continue
			}
			if !stay {
				switch op {
				case token.LSS:
					op = token.GEQ
				case token.GTR:
					op = token.LEQ
				case token.LEQ:
					op = token.GTR
				case token.GEQ:
					op = token.LSS
				case token.EQL:
					op = token.NEQ
				case token.NEQ:
					op = token.EQL
				}
			}
			if step > 0 && (op == token.LSS || op == token.LEQ || op == token.NEQ) ||
				step < 0 && (op == token.GTR || op == token.GEQ || op == token.NEQ) {
				return true
			}
		}
	}
	return false
}

// ------------------------------------------------------------ contexts

// Ctx is a function analysed for one abstract entry state.
type Ctx struct {
	id        int
	key       string
	fn        *ssa.Function
	entry     *State
	args      []Val
	exits     []item
	pexits    []item
	lastRound int
	dirty     bool
	active    bool
	viols     map[string]Violation
	subs      map[*Ctx]bool
	edges     map[*Ctx]*callEdge // calls between recursive contexts
	blocks    int
	calls     int
	done      bool
	grown     int
	exitGrew  bool

	dependsRec bool
}

// Frame is one run over a function body.
type Frame struct {
	e       *Engine
	ctx     *Ctx
	fi      *fnInfo
	pending map[int][]*State
	seen    map[int][]*headState
	nodes   int
	noprog  map[int]map[int]bool // per head: edges between head states without progress
	noprogL map[int]int
	undec   map[int]bool // loop heads with an undecided integer exit
	from    map[*State]map[int]int
}

type headState struct {
	st    *State
	id    int
	grown int
}

func (e *Engine) posOf(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if !p.IsValid() {
		// nearest instruction with a position in the block
		b := in.Block()
		if b != nil {
			for _, i := range b.Instrs {
				if i.Pos().IsValid() {
					p = i.Pos()
				}
				if i == in && p.IsValid() {
					break
				}
			}
		}
	}
	if !p.IsValid() && in.Parent() != nil {
		p = in.Parent().Pos()
	}
	ps := e.prog.Fset.Position(p)
	fn := ps.Filename
	fn = strings.TrimPrefix(fn, "/repo/")
	name := ""
	if in.Parent() != nil {
		name = " " + in.Parent().Name()
	}
	return fmt.Sprintf("%s:%d%s", fn, ps.Line, name)
}

func (fr *Frame) report(props []string, kind string, in ssa.Instruction, format string, a ...any) {
	fr.reportAt(props, kind, fr.e.posOf(in), format, a...)
}

func (fr *Frame) reportAt(props []string, kind, pos string, format string, a ...any) {
	v := Violation{Props: props, Kind: kind, Pos: pos, Msg: fmt.Sprintf(format, a...)}
	if debugViol {
		fmt.Fprintln(os.Stderr, "VIOL", v.Props, v.Kind, v.Pos, v.Msg)
	}
	fr.ctx.viols[v.key()] = v
}

var debugViol = os.Getenv("GEOQL_DEBUG") != ""

// ------------------------------------------------------------ running

var startTime = time.Now()

// timeBudget keeps a check below the time it is given.
var timeBudget = 700 * time.Second

// undecidable ends the path on which it is raised; hopeless ends the
// analysis. Both are reported.
type undecidable struct{ msg string }
type hopeless struct{ msg string }

func (e *Engine) analyze(ctx *Ctx) {
	ctx.active = true
	ctx.lastRound = e.round
	ctx.dirty = false
	ctx.viols = map[string]Violation{}
	ctx.subs = map[*Ctx]bool{}
	ctx.edges = map[*Ctx]*callEdge{}
	e.stack = append(e.stack, ctx)
	fr := &Frame{e: e, ctx: ctx, fi: e.info(ctx.fn), pending: map[int][]*State{}, seen: map[int][]*headState{},
		noprog: map[int]map[int]bool{}, undec: map[int]bool{}, from: map[*State]map[int]int{}}
	st := ctx.entry.clone()
	st.regs = make([]Val, fr.fi.n)
	for i := range ctx.fn.Params {
		st.regs[i] = ctx.args[i]
	}
	for i := range ctx.fn.FreeVars {
		st.regs[len(ctx.fn.Params)+i] = ctx.args[len(ctx.fn.Params)+i]
	}
	st.anchO, st.anchS = st.nextO, st.nextS
	fr.pending[0] = []*State{st}
	if ctx.fn.Recover != nil && len(ctx.fn.Recover.Preds) == 0 {
		fr.fi.order[ctx.fn.Recover.Index] = 1 << 20
	}
	for {
		best := -1
		for b, l := range fr.pending {
			if len(l) > 0 && (best < 0 || fr.fi.order[b] < fr.fi.order[best]) {
				best = b
			}
		}
		if best < 0 {
			break
		}
		sts := fr.pending[best]
		delete(fr.pending, best)
		fr.runBlock(best, sts)
	}
	if debugViol {
		for bi, hs := range fr.seen {
			if len(hs) > 8 {
				fmt.Fprintln(os.Stderr, "HEADS", ctx.fn.Name(), bi, len(hs), "exits", len(ctx.exits), len(ctx.pexits))
				if os.Getenv("GEOQL_HEADS") != "" {
					for i, h := range hs {
						if i%(len(hs)/6) == 0 {
							r := h.st.reach(h.st.allRoots())
							fmt.Fprintln(os.Stderr, "  ", i, h.grown, h.st.canonKey(r, h.st.allRoots()))
						}
					}
				}
			}
		}
	}
	fr.checkLoops()
	e.stack = e.stack[:len(e.stack)-1]
	ctx.active = false
}

func (fr *Frame) runBlock(bi int, sts []*State) {
	if debugCtx == "*" {
		t := time.Now()
		defer func() {
			if d := time.Since(t); d > 200*time.Millisecond {
				fmt.Fprintln(os.Stderr, "BLOCK", fr.fi.fn.Name(), bi, len(sts), d)
			}
		}()
	}
	b := fr.fi.fn.Blocks[bi]
	e := fr.e
	if len(b.Preds) > 1 || len(sts) > 1 {
		sts = fr.mergeStates(sts, mergeExact)
	}
	if fr.fi.isHead[bi] {
		var folded []*State
		for _, st := range sts {
			outs := e.h.LoopHead(fr, st, b)
			for _, o := range outs {
				if o != st {
					fr.from[o] = fr.from[st]
				}
			}
			folded = append(folded, outs...)
		}
		if len(folded) > 1 {
			folded = fr.mergeStates(folded, mergeExact)
		}
		sts = sts[:0]
		for _, st := range folded {
			if n := fr.admit(bi, st); n != nil {
				sts = append(sts, n)
			}
		}
	}
	for _, st := range sts {
		fr.ctx.blocks++
		fr.exec(st, b, 0)
	}
}

func (fr *Frame) mergeStates(sts []*State, mode mergeMode) []*State {
	if len(sts) <= 1 {
		return sts
	}
	if debugViol && len(sts) > 40 {
		fmt.Fprintln(os.Stderr, "MERGE", fr.ctx.fn.Name(), len(sts))
	}
	var out []*State
	for _, s := range sts {
		cur := s
		for again := true; again; {
			again = false
			for i, t := range out {
				if subsumedBy(item{cur, nil}, item{t, nil}) {
					fr.mergeFrom(t, t, cur)
					out = append(out[:i], out[i+1:]...)
					cur = t
					again = true
					break
				}
				if subsumedBy(item{t, nil}, item{cur, nil}) {
					fr.mergeFrom(cur, cur, t)
					out = append(out[:i], out[i+1:]...)
					again = true
					break
				}
				if m, ok := merge(item{t, nil}, item{cur, nil}, mode); ok {
					fr.mergeFrom(m.st, t, cur)
					out = append(out[:i], out[i+1:]...)
					cur = m.st
					again = true
					break
				}
			}
		}
		out = append(out, cur)
	}
	if debugViol && len(out) > 25 {
		fmt.Fprintln(os.Stderr, "STATES", fr.ctx.fn.Name(), len(sts), len(out))
		if os.Getenv("GEOQL_HEADS") != "" {
			for i, h := range out {
				if i%(len(out)/6) == 0 {
					fmt.Fprintln(os.Stderr, "  ", i, h.canonKey(h.reach(h.allRoots()), h.allRoots()))
				}
			}
		}
	}
	return out
}

func (fr *Frame) mergeFrom(m, a, b *State) {
	fa, fb := fr.from[a], fr.from[b]
	if fa == nil && fb == nil {
		return
	}
	n := map[int]int{}
	for k, v := range fa {
		n[k] = v
	}
	for k, v := range fb {
		if w, ok := n[k]; ok && w != v {
			// both origins lead here: join them under a fresh node
			fr.nodes++
			id := fr.nodes
			fr.noEdge(k, v, id)
			fr.noEdge(k, w, id)
			n[k] = id
			continue
		}
		n[k] = v
	}
	fr.from[m] = n
}

func (fr *Frame) noEdge(head, a, b int) {
	m := fr.noprog[head]
	if m == nil {
		m = map[int]bool{}
		fr.noprog[head] = m
	}
	m[a<<20|b] = true
}

// admit enters a state into a loop head; nil if it is already covered.
func (fr *Frame) admit(bi int, st *State) *State {
	st.dropPassing()
	seen := fr.seen[bi]
	li := fr.fi.loopIdx[bi]
	orig, hasOrig := -1, false
	if f := fr.from[st]; f != nil {
		if o, ok := f[bi]; ok {
			orig, hasOrig = o, true
		}
	}
	noprog := hasOrig && st.prog&(1<<uint(li)) == 0
	st.prog &^= 1 << uint(li)
	note := func(id int) {
		if noprog {
			fr.noEdge(bi, orig, id)
		}
	}
	setFrom := func(s *State, id int) {
		n := map[int]int{}
		for k, v := range fr.from[st] {
			n[k] = v
		}
		n[bi] = id
		fr.from[s] = n
	}
	for _, h := range seen {
		if subsumedBy(item{st, nil}, item{h.st, nil}) {
			note(h.id)
			return nil
		}
	}
	for _, h := range seen {
		if m, ok := merge(item{h.st, nil}, item{st, nil}, mergeExact); ok {
			h.st = m.st
			if fold, ok := fr.e.h.(interface {
				Joined(fr *Frame, st *State, b *ssa.BasicBlock)
			}); ok {
				fold.Joined(fr, h.st, fr.fi.fn.Blocks[bi])
			}
			note(h.id)
			n := st.clone()
			if _, ok := fr.e.h.(*parseHooks); ok {
				n = h.st.clone()
			}
			setFrom(n, h.id)
			return n
		}
	}
	// integer generalisation
	lim := fr.e.loopLim
	if fr.undec[bi] && lim > 3 {
		lim = 3
	}
	if len(seen) >= lim && !fr.e.initing {
		for _, h := range seen {
			mode := mergeHull
			if h.grown >= 1 {
				mode = mergeWiden
			}
			if h.grown >= 4 {
				mode = mergeLast
			}
			if m, ok := merge(item{h.st, nil}, item{st, nil}, mode); ok {
				if h.grown > 8 && os.Getenv("GEOQL_ADMIT") == fr.ctx.fn.Name() {
					fmt.Fprintln(os.Stderr, "GROW", bi, h.id, h.grown, h.st.canonKey(h.st.reach(h.st.allRoots()), h.st.allRoots()))
					fmt.Fprintln(os.Stderr, "  BY", st.canonKey(st.reach(st.allRoots()), st.allRoots()))
					fmt.Fprintln(os.Stderr, "  TO", m.st.canonKey(m.st.reach(m.st.allRoots()), m.st.allRoots()))
				}
				h.st = m.st
				h.grown++
				note(h.id)
				n := m.st.clone()
				setFrom(n, h.id)
				return n
			}
		}
	}
	if len(seen) > fr.e.maxHeads() {
		if os.Getenv("GEOQL_HEADS") != "" {
			for _, i := range []int{5, 6, 100, 101, 298, 299, 300} {
				h := seen[i]
				fmt.Fprintln(os.Stderr, "HEAD", i, h.grown, h.st.canonKey(h.st.reach(h.st.allRoots()), h.st.allRoots()))
			}
		}
		panic(hopeless{"too many states at loop " + fr.e.posOf(fr.fi.fn.Blocks[bi].Instrs[0])})
	}
	if os.Getenv("GEOQL_ADMIT") == fr.ctx.fn.Name() {
		fmt.Fprintln(os.Stderr, "ADMIT", bi, len(seen), st.canonKey(st.reach(st.allRoots()), st.allRoots()))
	}
	fr.nodes++
	h := &headState{st: st.clone(), id: fr.nodes}
	fr.seen[bi] = append(fr.seen[bi], h)
	note(h.id)
	setFrom(st, h.id)
	return st
}

// checkLoops reports loops that can go round without progress.
func (fr *Frame) checkLoops() {
	for bi, edges := range fr.noprog {
		if fr.fi.counted[bi] {
			continue
		}
		succ := map[int][]int{}
		for k := range edges {
			succ[k>>20] = append(succ[k>>20], k&(1<<20-1))
		}
		state := map[int]int{}
		var cyc func(n int) bool
		cyc = func(n int) bool {
			state[n] = 1
			for _, s := range succ[n] {
				if state[s] == 1 || state[s] == 0 && cyc(s) {
					return true
				}
			}
			state[n] = 2
			return false
		}
		for n := range succ {
			if state[n] == 0 && cyc(n) {
				fr.report([]string{"C03"}, "loop", fr.fi.fn.Blocks[bi].Instrs[0], "the loop can repeat without reading a token or approaching a bound")
				break
			}
		}
	}
}

// exec runs the instructions of a block from index i.
func (fr *Frame) exec(st *State, b *ssa.BasicBlock, i int) {
	e := fr.e
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.limit || e.steps&4095 == 0 && time.Since(startTime) > timeBudget {
			panic(hopeless{"the analysis exceeded its budget"})
		}
		in := b.Instrs[i]
		outs, done, sp := fr.tryStep(st, in)
		if sp != nil && sp.cond != nil {
			no := st.clone()
			fr.from[no] = fr.from[st]
			if st.assume(*sp.cond, true) {
				fr.exec(st, b, i)
			}
			if no.assume(*sp.cond, false) {
				if _, open := no.eqInt(sp.cond.A[0], sp.cond.A[1]).(Term); open {
					e.undecided["an element that may or may not be the odd one"] = true
					return
				}
				fr.exec(no, b, i)
			}
			return
		}
		if sp != nil {
			sp.S = st.splitSym(sp)
			for k, set := range sp.Sets {
				s2 := st
				if k+1 < len(sp.Sets) {
					s2 = st.clone()
					fr.from[s2] = fr.from[st]
				}
				if s2.restrict(sp.S, set) {
					fr.exec(s2, b, i)
				}
			}
			return
		}
		if done {
			return
		}
		if len(outs) == 1 && outs[0] == st {
			continue
		}
		for _, o := range outs {
			if o != st {
				fr.from[o] = fr.from[st]
			}
			fr.exec(o, b, i+1)
		}
		return
	}
}

func (fr *Frame) tryStep(st *State, in ssa.Instruction) (outs []*State, done bool, sp *splitReq) {
	depth := len(fr.e.stack)
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(splitReq); ok {
				sp = &s
				return
			}
			if c, ok := r.(condSplit); ok {
				sp = &splitReq{cond: &c.c}
				return
			}
			if u, ok := r.(undecidable); ok && !fr.e.initing {
				fr.e.undecided[u.msg] = true
				for len(fr.e.stack) > depth {
					fr.e.stack[len(fr.e.stack)-1].active = false
					fr.e.stack = fr.e.stack[:len(fr.e.stack)-1]
				}
				outs, done = nil, true
				return
			}
			panic(r)
		}
	}()
	if trace {
		fr.traceStep(st, in)
	}
	outs, done = fr.step(st, in)
	return
}

// condSplit asks for a decision on an integer condition.
type condSplit struct{ c Term }

// goTo moves the state along a control flow edge.
func (fr *Frame) goTo(st *State, from, to *ssa.BasicBlock, succIdx int) {
	fi := fr.fi
	// which predecessor slot
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	if pi >= 0 && len(to.Preds) > 1 && len(from.Succs) == 2 && from.Succs[0] == from.Succs[1] && succIdx == 1 {
		for k := pi + 1; k < len(to.Preds); k++ {
			if to.Preds[k] == from {
				pi = k
			}
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, fr.val(st, phi.Edges[pi]))
	}
	for i, p := range phis {
		st.regs[fi.num[p]] = vals[i]
	}
	live := fi.liveIn[to.Index]
	for k := range st.regs {
		if st.regs[k] != nil && !live[k] {
			st.regs[k] = nil
		}
	}
	for k := range st.regs {
		if st.regs[k] != nil {
			st.regs[k] = st.deepNorm(st.regs[k])
		}
	}
	if len(to.Preds) > 1 || fi.isHead[to.Index] {
		st.normObjs()
		st.gc()
	}
	if len(to.Preds) == 1 && !fi.isHead[to.Index] && len(fr.pending[to.Index]) == 0 {
		fr.pending[to.Index] = []*State{st}
		return
	}
	fr.pending[to.Index] = append(fr.pending[to.Index], st)
}

// val evaluates an operand.
func (fr *Frame) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return Ptr{O: fr.e.globalObj(v)}
	case *ssa.Function:
		return Clo{F: v}
	case *ssa.Builtin:
		return Ext{"builtin." + v.Name()}
	}
	n, ok := fr.fi.num[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s", v))
	}
	r := st.regs[n]
	if r == nil {
		return Top{}
	}
	r2 := st.norm(r)
	return r2
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return Flt(f)
		}
		if v, ok := constant.Int64Val(c.Value); ok {
			return Int(v)
		}
		u, _ := constant.Uint64Val(c.Value)
		return Int(int64(u))
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return Flt(f)
	}
	return Top{}
}

func zeroOf(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsFloat != 0:
			return Flt(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		}
		return Nil{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroOf(u.Field(i).Type())
		}
		return Agg{f}
	case *types.Array:
		if u.Len() > 64 {
			return Top{}
		}
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = zeroOf(u.Elem())
		}
		return Agg{f}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = zeroOf(u.At(i).Type())
		}
		return Agg{f}
	}
	return Nil{}
}

// foreign says whether a package is not part of the analysed module.
func (e *Engine) foreign(p *ssa.Package) bool {
	return p != nil && p != e.pkg && p != e.scn
}

func (e *Engine) globalObj(g *ssa.Global) ObjID {
	if o, ok := e.globals[g]; ok {
		return o
	}
	e.nextB--
	o := e.nextB
	t := g.Type().(*types.Pointer).Elem()
	e.base[o] = allocObj(t)
	if e.foreign(g.Pkg) {
		// a variable of the standard library: some fixed value
		name := term("gvar", Str(g.String()))
		switch t.Underlying().(type) {
		case *types.Interface:
			if t.String() == "error" {
				e.base[o] = &Obj{"cell", t, []Val{libErr(name)}}
			} else {
				e.base[o] = &Obj{"cell", t, []Val{Iface{opaqueT, name}}}
			}
		default:
			e.base[o] = &Obj{"cell", t, []Val{Top{}}}
		}
	}
	e.globals[g] = o
	return o
}

func allocObj(t types.Type) *Obj {
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 64 {
		return &Obj{"list", t, zeroOf(t).(Agg).F}
	}
	return &Obj{"cell", t, []Val{zeroOf(t)}}
}

// ------------------------------------------------------------ memory

func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	parts := strings.Split(p[1:], ".")
	out := make([]int, len(parts))
	for i, s := range parts {
		out[i], _ = strconv.Atoi(s)
	}
	return out
}

func getPath(v Val, path []int, st *State) Val {
	for _, i := range path {
		v = st.norm(v)
		switch a := v.(type) {
		case Agg:
			if i >= len(a.F) {
				return Top{}
			}
			v = a.F[i]
		case Tab:
			g := make([]Grp, len(a.G))
			for k := range g {
				g[k] = Grp{a.G[k].Set, getPath(a.G[k].V, []int{i}, st)}
			}
			v = mkTab(a.S, g)
		case Term:
			v = term("."+strconv.Itoa(i), a)
		default:
			return Top{}
		}
	}
	return st.norm(v)
}

func setPath(v Val, path []int, x Val, st *State) Val {
	if len(path) == 0 {
		return x
	}
	v = st.norm(v)
	if _, ok := v.(Tab); ok {
		v = st.concretize(v)
	}
	a, ok := v.(Agg)
	if !ok || path[0] >= len(a.F) {
		return Top{}
	}
	f := append([]Val(nil), a.F...)
	f[path[0]] = setPath(f[path[0]], path[1:], x, st)
	return Agg{f}
}

func (st *State) loadPtr(p Ptr) Val {
	ob := st.obj(p.O)
	path := splitPath(p.P)
	switch ob.Shape {
	case "cell":
		return getPath(ob.F[0], path, st)
	case "list", "list!":
		if len(path) == 0 {
			return Agg{ob.F}
		}
		if path[0] < len(ob.F) {
			return getPath(ob.F[path[0]], path[1:], st)
		}
	}
	return Top{}
}

func (st *State) storePtr(p Ptr, v Val) {
	ob := st.obj(p.O)
	path := splitPath(p.P)
	f := append([]Val(nil), ob.F...)
	switch ob.Shape {
	case "cell":
		f[0] = setPath(f[0], path, v, st)
	case "list", "list!":
		if len(path) == 0 {
			if a, ok := v.(Agg); ok && len(a.F) == len(f) {
				f = append([]Val(nil), a.F...)
			} else {
				for i := range f {
					f[i] = Top{}
				}
			}
		} else if path[0] < len(f) {
			f[path[0]] = setPath(f[path[0]], path[1:], v, st)
		}
	default:
		return
	}
	st.setObj(p.O, &Obj{ob.Shape, ob.T, f})
}

// describeGlobals writes out the value of every package variable; maps
// are written in key order.
func (e *Engine) describeGlobals() map[string]string {
	out := map[string]string{}
	var desc func(v Val, depth int) string
	desc = func(v Val, depth int) string {
		if depth > 8 {
			return "…"
		}
		inner := func(o ObjID) string {
			ob, ok := e.base[o]
			if !ok {
				return "?"
			}
			if ob.Shape == "map" {
				var ks []string
				for _, i := range sortedMapKeys(ob) {
					ks = append(ks, desc(ob.F[2*i], depth+1)+":"+desc(ob.F[2*i+1], depth+1))
				}
				return "map{" + strings.Join(ks, ",") + "}"
			}
			var fs []string
			for _, x := range ob.F {
				fs = append(fs, desc(x, depth+1))
			}
			return ob.Shape + "(" + strings.Join(fs, ",") + ")"
		}
		switch v := v.(type) {
		case Ptr:
			return "&" + v.P + inner(v.O)
		case Slice:
			return inner(v.O)
		case MapV:
			return inner(v.O)
		case Agg:
			var fs []string
			for _, x := range v.F {
				fs = append(fs, desc(x, depth+1))
			}
			return "{" + strings.Join(fs, ",") + "}"
		case Iface:
			return typeKey(v.T) + desc(v.V, depth+1)
		}
		return keyOf(v)
	}
	for g, o := range e.globals {
		if ob, ok := e.base[o]; ok {
			out[g.String()] = desc(ob.F[0], 0)
		}
	}
	return out
}

func (e *Engine) maxHeads() int {
	if _, ok := e.h.(*parseHooks); ok {
		return 300
	}
	return 1500
}
