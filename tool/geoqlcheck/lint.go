package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file holds the analyses over the instructions of all functions that
// need no interpretation: loops over maps, package state, and sources of
// nondeterminism.

func init() {
	runs["effects"] = runEffects
	plan["C14"] = append(plan["C14"], "effects")
	plan["C16"] = append(plan["C16"], "walk", "effects")
}

type lint struct {
	w     *World
	r     *Result
	notes map[string]bool
	pure  map[*ssa.Function]int // 1 pure, 2 not, 3 being decided
	unord map[*ssa.Function]bool
	loops int
	insts int
}

func runEffects(w *World, prop string, thorough bool) *Result {
	r := newResult("effects")
	l := &lint{w: w, r: r, notes: map[string]bool{}, pure: map[*ssa.Function]int{}, unord: map[*ssa.Function]bool{}}
	fns := w.e.allFuncs(w.pkg, w.scn)
	init := map[*ssa.Function]bool{}
	for _, f := range fns {
		if f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") {
			init[f] = true
		}
	}
	// functions that only initialisers call are part of the initialisation
	callers := map[*ssa.Function][]*ssa.Function{}
	value := map[*ssa.Function]bool{}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, _ := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if c != nil && c.Common().Value == g && op == &c.Common().Value {
							callers[g] = append(callers[g], f)
						} else if mc, ok := in.(*ssa.MakeClosure); ok && init[f] && onlyCalled(mc) {
							callers[g] = append(callers[g], f)
						} else {
							value[g] = true
						}
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range fns {
			if init[f] || value[f] || token.IsExported(f.Name()) || len(callers[f]) == 0 {
				continue
			}
			all := true
			for _, c := range callers[f] {
				all = all && init[c]
			}
			if all {
				init[f], again = true, true
			}
		}
	}
	n := 0
	for round := 0; round < 2; round++ {
		for _, f := range fns {
			if init[f] {
				continue
			}
			l.mapLoops(f, round == 1)
			if round == 1 {
				n++
				l.state(f)
				l.sources(f)
			}
		}
	}
	r.Stats["functions"] = n
	r.Stats["map_loops"] = l.loops
	r.Stats["instructions_scanned"] = l.insts
	r.Rules = append(r.Rules,
		"a loop over a map outside the initialisers only accumulates with commutative operations, collects elements that are sorted before any other use, or leaves early with results that do not depend on the element or on what was accumulated",
		"no function outside the initialisers stores to package variables or to what they reach",
		"no source of nondeterminism (time, random numbers, goroutines, select, environment) is used")
	for _, k := range sortedKeys(l.notes) {
		if r.Undecided != "" {
			r.Undecided += "; "
		}
		r.Undecided += k
	}
	return r
}

func onlyCalled(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		c, ok := u.(ssa.CallInstruction)
		if !ok || c.Common().Value != v {
			return false
		}
	}
	return true
}

func (l *lint) at(in ssa.Instruction) string { return l.w.e.posOf(in) }

// globalRoot finds the package variable a value is reached from.
func globalRoot(v ssa.Value) *ssa.Global {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) *ssa.Global
	walk = func(v ssa.Value) *ssa.Global {
		if seen[v] {
			return nil
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.UnOp:
			return walk(x.X)
		case *ssa.FieldAddr:
			return walk(x.X)
		case *ssa.Field:
			return walk(x.X)
		case *ssa.IndexAddr:
			return walk(x.X)
		case *ssa.Index:
			return walk(x.X)
		case *ssa.Lookup:
			return walk(x.X)
		case *ssa.Extract:
			return walk(x.Tuple)
		case *ssa.Slice:
			return walk(x.X)
		case *ssa.TypeAssert:
			return walk(x.X)
		case *ssa.ChangeType:
			return walk(x.X)
		case *ssa.MakeInterface:
			return walk(x.X)
		case *ssa.ChangeInterface:
			return walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if g := walk(e); g != nil {
					return g
				}
			}
		}
		return nil
	}
	return walk(v)
}

// state reports stores to package variables.
func (l *lint) state(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			l.insts++
			var addr ssa.Value
			switch x := in.(type) {
			case *ssa.Store:
				addr = x.Addr
			case *ssa.MapUpdate:
				addr = x.Map
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear", "copy":
						addr = c.Args[0]
					case "append":
						addr = nil
					}
				}
			}
			if addr == nil {
				continue
			}
			if g := globalRoot(addr); g != nil {
				l.r.add([]string{"C16"}, "shared-state", l.at(in), "%s changes the package variable %s, which all callers share", f.Name(), g.Name())
			}
		}
	}
}

var ndSources = map[string]bool{"time.Now": true, "time.Since": true, "time.Until": true, "os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.Getpid": true, "os.Hostname": true}

func (l *lint) sources(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				l.r.add([]string{"C14"}, "nondeterminism", l.at(in), "%s starts a goroutine", f.Name())
			case *ssa.Select:
				l.r.add([]string{"C14"}, "nondeterminism", l.at(in), "%s selects between channels", f.Name())
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g == nil || g.Pkg == nil {
					continue
				}
				p := g.Pkg.Pkg.Path()
				if ndSources[p+"."+g.Name()] || strings.HasPrefix(p, "math/rand") || strings.HasPrefix(p, "crypto/rand") {
					l.r.add([]string{"C14"}, "nondeterminism", l.at(in), "%s uses %s.%s", f.Name(), p, g.Name())
				}
			}
		}
	}
}

// mapLoops checks the loops over maps of a function. Maps of package
// variables have known elements and are left to the interpreter.
func (l *lint) mapLoops(f *ssa.Function, report bool) {
	fi := l.w.e.info(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Common().StaticCallee(); g != nil && l.unord[g] && report {
					l.collected(f, c, nil, in, report)
				}
				continue
			}
			n, ok := in.(*ssa.Next)
			if !ok || n.IsString {
				continue
			}
			rg, ok := n.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			if globalRoot(rg.X) != nil {
				continue
			}
			if report {
				l.loops++
			}
			var in []bool
			for h := range fi.loopOf {
				if fi.loopOf[h] != nil && h == b.Index {
					in = fi.loopOf[h]
				}
			}
			if in == nil {
				// the body never comes back: it uses one element
				l.single(f, n, report)
				continue
			}
			l.loop(f, n, b, in, report)
		}
	}
}

func (l *lint) viol(report bool, in ssa.Instruction, format string, a ...any) {
	if report {
		l.r.add([]string{"C14"}, "map-order", l.at(in), format, a...)
	}
}

func (l *lint) single(f *ssa.Function, n *ssa.Next, report bool) {
	for _, u := range *n.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index > 0 && len(*e.Referrers()) > 0 {
			l.viol(report, n, "%s uses the element that a map happens to yield first", f.Name())
			return
		}
	}
}

type accKind int

const (
	accNone   accKind = iota
	accSame           // never changes
	accSum            // commutative
	accMono           // grows only
	accConst          // set to one constant
	accMax            // compared and replaced
	accList           // appended to
	accMul            // one other commutative operation
	accUnsafe         // depends on the order
)

// loop checks one loop over a map.
func (l *lint) loop(f *ssa.Function, n *ssa.Next, head *ssa.BasicBlock, in []bool, report bool) {
	name := f.Name()
	// values that depend on the element
	taint := map[ssa.Value]bool{}
	inLoop := func(i ssa.Instruction) bool { return i.Block() != nil && in[i.Block().Index] }
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		if taint[v] {
			return
		}
		taint[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			if !inLoop(u) {
				continue
			}
			if p, ok := u.(*ssa.Phi); ok && p.Block() == head {
				continue
			}
			if x, ok := u.(ssa.Value); ok {
				mark(x)
			}
		}
	}
	var key ssa.Value
	for _, u := range *n.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index > 0 {
			if e.Index == 1 {
				key = e
			}
			mark(e)
		}
	}
	// accumulators
	acc := map[ssa.Value]accKind{}
	dep := map[ssa.Value]bool{} // depends on an accumulator
	var markDep func(v ssa.Value)
	markDep = func(v ssa.Value) {
		if dep[v] {
			return
		}
		dep[v] = true
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			if x, ok := u.(ssa.Value); ok && inLoop(u) {
				markDep(x)
			}
		}
	}
	for _, i := range head.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		k := accSame
		for e, v := range p.Edges {
			if in[head.Preds[e].Index] {
				k = joinAcc(k, l.accOf(p, v, taint, in, 0))
			}
		}
		acc[p] = k
		if k != accSame {
			markDep(p)
		}
	}
	lists := map[ssa.Value]ssa.Instruction{}
	for p, k := range acc {
		switch k {
		case accUnsafe:
			used := false
			for _, u := range *p.Referrers() {
				if ph, ok := u.(*ssa.Phi); ok && ph.Block() == head {
					continue
				}
				used = true
			}
			if used {
				l.viol(report, n, "%s: %s depends on the order in which the map yields its elements", name, valueName(p))
			}
		case accList:
			lists[p] = p.(ssa.Instruction)
		}
	}
	// effects
	for _, b := range f.Blocks {
		if !in[b.Index] {
			continue
		}
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				root := baseOf(x.Addr)
				if a, ok := root.(*ssa.Alloc); ok && in[a.Block().Index] {
					continue
				}
				if ix, ok := x.Addr.(*ssa.IndexAddr); ok && taint[x.Val] {
					// filled position by position: like appending
					if _, isSlice := ix.X.Type().Underlying().(*types.Slice); isSlice && dep[ix.Index] {
						lists[ix.X] = i
						continue
					}
				}
				if taint[x.Val] || dep[x.Val] {
					l.viol(report, i, "%s stores a value that depends on the order in which the map yields its elements", name)
				}
			case *ssa.MapUpdate:
				if dep[x.Value] || dep[x.Key] || taint[x.Value] && x.Key != key {
					l.viol(report, i, "%s fills a map with values that depend on the order in which another map yields its elements", name)
				}
			case *ssa.Call, *ssa.Defer:
				c := i.(ssa.CallInstruction).Common()
				arg := false
				for _, a := range append([]ssa.Value{c.Value}, c.Args...) {
					arg = arg || taint[a] || dep[a]
				}
				if !arg {
					continue
				}
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				switch l.callPure(c) {
				case 1:
				case 2:
					l.viol(report, i, "%s: %s is called for the elements of a map in no fixed order", name, calleeName(c))
				default:
					l.notes["effects: "+name+" calls "+calleeName(c)+" for the elements of a map"] = true
				}
			case *ssa.Send:
				l.viol(report, i, "%s sends the elements of a map in no fixed order", name)
			case *ssa.Return:
			}
		}
	}
	// early exits
	for _, b := range f.Blocks {
		if !in[b.Index] {
			continue
		}
		for _, s := range b.Succs {
			if in[s.Index] || b == head {
				continue
			}
			l.earlyExit(f, n, head, b, s, in, taint, dep, acc, key, report)
		}
	}
	// lists must be sorted before they are used
	for v, at := range lists {
		l.collected(f, v, in, at, report)
	}
}

func valueName(v ssa.Value) string {
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return p.Comment
	}
	return v.Name()
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if g := c.StaticCallee(); g != nil {
		return g.Name()
	}
	return "a function value"
}

func baseOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

func joinAcc(a, b accKind) accKind {
	if a == accSame {
		return b
	}
	if b == accSame || a == b {
		return a
	}
	if (a == accSum || a == accMono) && (b == accSum || b == accMono) {
		return accSum
	}
	return accUnsafe
}

// accOf classifies how a value updates the loop variable p.
func (l *lint) accOf(p *ssa.Phi, v ssa.Value, taint map[ssa.Value]bool, in []bool, depth int) accKind {
	if v == ssa.Value(p) {
		return accSame
	}
	if depth > 20 {
		return accUnsafe
	}
	if _, ok := v.(*ssa.Const); ok {
		return accConst
	}
	isInt := false
	if b, ok := p.Type().Underlying().(*types.Basic); ok {
		isInt = b.Info()&types.IsInteger != 0
	}
	i, ok := v.(ssa.Instruction)
	if !ok || i.Block() == nil || !in[i.Block().Index] {
		return accConst // the same value every time
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if !isInt {
			return accUnsafe
		}
		ax, ay := dependsOn(x.X, p, in), dependsOn(x.Y, p, in)
		switch x.Op {
		case token.ADD:
			switch {
			case ax && !ay:
				k := joinAcc(l.accOf(p, x.X, taint, in, depth+1), accMono)
				if k == accMono && !nonNegative(x.Y) {
					k = accSum
				}
				return k
			case ay && !ax:
				k := joinAcc(l.accOf(p, x.Y, taint, in, depth+1), accMono)
				if k == accMono && !nonNegative(x.X) {
					k = accSum
				}
				return k
			}
		case token.SUB:
			if ax && !ay {
				return joinAcc(l.accOf(p, x.X, taint, in, depth+1), accSum)
			}
		case token.XOR, token.OR, token.AND, token.MUL:
			if ax && !ay && l.accOf(p, x.X, taint, in, depth+1) == accSame {
				return accMul
			}
			if ay && !ax && l.accOf(p, x.Y, taint, in, depth+1) == accSame {
				return accMul
			}
		}
		return accUnsafe
	case *ssa.Phi:
		k := accSame
		var consts, others []ssa.Value
		for _, e := range x.Edges {
			a := l.accOf(p, e, taint, in, depth+1)
			if a == accConst {
				consts = append(consts, e)
			}
			if a == accUnsafe {
				others = append(others, e)
			}
		}
		if len(others) > 0 {
			// p = x when x beats p
			for _, o := range others {
				if dependsOn(o, p, in) || !comparedWith(p, o) {
					return accUnsafe
				}
			}
			return accMax
		}
		for i := range consts {
			if keyOfSSA(consts[i]) != keyOfSSA(consts[0]) {
				return accUnsafe
			}
		}
		for _, e := range x.Edges {
			k = joinAcc(k, l.accOf(p, e, taint, in, depth+1))
		}
		return k
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if dependsOn(x.Call.Args[0], p, in) {
					a := l.accOf(p, x.Call.Args[0], taint, in, depth+1)
					if a == accSame || a == accList {
						return accList
					}
				}
			case "max", "min":
				return accMax
			}
		}
	}
	if !taint[v] && !dependsOn(v, p, in) {
		return accConst
	}
	return accUnsafe
}

func keyOfSSA(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return c.String()
	}
	return fmt.Sprintf("%p", v)
}

func comparedWith(p, o ssa.Value) bool {
	for _, u := range *p.Referrers() {
		if b, ok := u.(*ssa.BinOp); ok {
			switch b.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if b.X == o || b.Y == o {
					return true
				}
			}
		}
	}
	return false
}

func nonNegative(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && !strings.HasPrefix(x.Value.ExactString(), "-")
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
	case *ssa.BinOp:
		return (x.Op == token.ADD || x.Op == token.MUL) && nonNegative(x.X) && nonNegative(x.Y)
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok {
		return b.Info()&types.IsUnsigned != 0
	}
	return false
}

func dependsOn(v ssa.Value, p ssa.Value, in []bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == p {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		i, ok := v.(ssa.Instruction)
		if !ok || i.Block() == nil || !in[i.Block().Index] {
			return false
		}
		for _, o := range i.Operands(nil) {
			if *o != nil && walk(*o) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// earlyExit checks a way out of the loop before all elements were seen.
func (l *lint) earlyExit(f *ssa.Function, n *ssa.Next, head, from, to *ssa.BasicBlock, in []bool, taint, dep map[ssa.Value]bool, acc map[ssa.Value]accKind, key ssa.Value, report bool) {
	// which values of the loop are used from here on
	fi := l.w.e.info(f)
	live := map[ssa.Value]bool{}
	byNum := map[int]ssa.Value{}
	for v, k := range fi.num {
		byNum[k] = v
	}
	for k := range fi.liveIn[to.Index] {
		live[byNum[k]] = true
	}
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		delete(live, p)
		for e, v := range p.Edges {
			if to.Preds[e] == from {
				live[v] = true
			}
		}
	}
	unique := l.pinned(from, to, key, in)
	for v := range live {
		if acc[v] != accNone && acc[v] != accSame || dep[v] {
			l.viol(report, n, "%s leaves the loop over a map early with what the elements seen so far gave (%s)", f.Name(), valueName(v))
			return
		}
		if taint[v] && !unique {
			l.viol(report, n, "%s takes from a map the first element that fits (%s)", f.Name(), valueName(v))
			return
		}
	}
	// does leaving depend on both the element and those before it?
	for b := from; b != nil && in[b.Index]; b = b.Idom() {
		if len(b.Instrs) == 0 {
			continue
		}
		c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == head {
			continue
		}
		if dep[c.Cond] {
			if bo, ok := c.Cond.(*ssa.BinOp); ok && l.threshold(bo, acc, dep) {
				continue
			}
			// a mere count of the elements
			l.viol(report, n, "%s leaves the loop over a map depending on the elements seen before", f.Name())
			return
		}
	}
}

// threshold recognises "what grows is beyond a limit".
func (l *lint) threshold(b *ssa.BinOp, acc map[ssa.Value]accKind, dep map[ssa.Value]bool) bool {
	side := func(v ssa.Value) bool {
		if acc[v] == accMono {
			return true
		}
		if x, ok := v.(*ssa.BinOp); ok && x.Op == token.ADD {
			return acc[x.X] == accMono && nonNegative(x.Y) || acc[x.Y] == accMono && nonNegative(x.X)
		}
		return false
	}
	switch b.Op {
	case token.GTR, token.GEQ:
		return side(b.X) && !dep[b.Y]
	case token.LSS, token.LEQ:
		return side(b.Y) && !dep[b.X]
	}
	return false
}

// pinned says whether the key is known to equal something on the way out.
func (l *lint) pinned(from, to *ssa.BasicBlock, key ssa.Value, in []bool) bool {
	if key == nil {
		return false
	}
	next := to
	for b := from; b != nil && in[b.Index]; b = b.Idom() {
		if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := c.Cond.(*ssa.BinOp); ok && (bo.X == key || bo.Y == key) {
				if bo.Op == token.EQL && b.Succs[0] == next || bo.Op == token.NEQ && b.Succs[1] == next {
					return true
				}
			}
		}
		next = b
	}
	return false
}

var sorters = map[string]bool{"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true, "slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true}

// collected checks that a list in no fixed order is sorted before use.
func (l *lint) collected(f *ssa.Function, v ssa.Value, in []bool, at ssa.Instruction, report bool) {
	seen := map[ssa.Value]bool{}
	var uses, sorts []ssa.Instruction
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if in != nil && in[u.Block().Index] {
				if x, ok := u.(*ssa.Call); ok {
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						walk(x)
					}
				}
				if p, ok := u.(*ssa.Phi); ok {
					walk(p)
				}
				continue
			}
			switch x := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				walk(x)
			case *ssa.MakeInterface:
				walk(x)
			case *ssa.ChangeType:
				walk(x)
			case *ssa.Slice:
				walk(x)
			case *ssa.Call:
				c := x.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if g := c.StaticCallee(); g != nil && g.Pkg != nil {
					if sorters[g.Pkg.Pkg.Path()+"."+baseName(g)] {
						sorts = append(sorts, u)
						continue
					}
				} else if g != nil && g.Origin() != nil && g.Origin().Pkg != nil && sorters[g.Origin().Pkg.Pkg.Path()+"."+g.Origin().Name()] {
					sorts = append(sorts, u)
					continue
				}
				uses = append(uses, u)
			case *ssa.Store:
				// the closure of a comparison function keeps the list
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, r := range *a.Referrers() {
						if ld, ok := r.(*ssa.UnOp); ok {
							walk(ld)
						}
					}
					continue
				}
				uses = append(uses, u)
			default:
				uses = append(uses, u)
			}
		}
	}
	walk(v)
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() && indexOf(s) < indexOf(u) || s.Block() != u.Block() && s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if ok {
			continue
		}
		if _, isRet := u.(*ssa.Return); isRet && !token.IsExported(f.Name()) {
			l.unord[f] = true
			continue
		}
		l.viol(report, at, "%s uses the elements of a map in the order in which it yields them", f.Name())
		return
	}
}

func baseName(g *ssa.Function) string {
	if o := g.Origin(); o != nil {
		return o.Name()
	}
	return g.Name()
}

func indexOf(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "errors": true, "cmp": true, "bytes": true}

// callPure: 1 no effects, 2 writes something, 0 unknown.
func (l *lint) callPure(c *ssa.CallCommon) int {
	if c.IsInvoke() {
		if strings.HasPrefix(c.Method.Name(), "Write") || strings.HasPrefix(c.Method.Name(), "format") {
			return 2
		}
		return 0
	}
	g := c.StaticCallee()
	if g == nil {
		return 0
	}
	if g.Pkg != nil && g.Pkg != l.w.pkg && g.Pkg != l.w.scn {
		if strings.Contains(g.Name(), "Write") || strings.HasPrefix(g.Name(), "Fprint") || strings.HasPrefix(g.Name(), "Print") {
			return 2
		}
		if purePkgs[g.Pkg.Pkg.Path()] && g.Signature.Recv() == nil || g.Pkg.Pkg.Path() == "fmt" && strings.HasPrefix(g.Name(), "Sprint") {
			return 1
		}
		return 0
	}
	return l.fnPure(g)
}

func (l *lint) fnPure(g *ssa.Function) int {
	switch l.pure[g] {
	case 1, 3:
		return 1
	case 2:
		return 2
	}
	l.pure[g] = 3
	res := 1
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if a, ok := baseOf(x.Addr).(*ssa.Alloc); !ok || a.Parent() != g {
					res = 0
				}
			case *ssa.MapUpdate:
				res = 0
			case ssa.CallInstruction:
				if _, ok := x.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				switch l.callPure(x.Common()) {
				case 2:
					l.pure[g] = 2
					return 2
				case 0:
					res = 0
				}
			}
		}
	}
	l.pure[g] = res
	return res
}
