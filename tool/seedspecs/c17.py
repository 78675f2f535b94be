pre='''
type logV struct{ log *[]Expr }

func (l logV) Visit(e Expr) Visitor { *l.log = append(*l.log, e); return l }
'''
seeds=[
dict(id='walk-range-order', prop='C17', needs='a visitor that observes the order of the bounds of a range', breaks='the upper bound of a range is visited before the lower one',
 edits=[('walk.go','''		Walk(v, typ.Low)
		Walk(v, typ.High)
''','''		Walk(v, typ.High)
		Walk(v, typ.Low)
''')], pre=pre, demo='''
	lo, hi := &IntTyp{Val: 1}, &IntTyp{Val: 2}
	var got []Expr
	Walk(logV{&got}, &Range{Low: lo, High: hi})
	if got[1] != Expr(lo) { t.Fatal("low bound not first") }
'''),
dict(id='walk-nested-paren', prop='C17', needs='a parenthesised expression directly inside another one', breaks='the content of doubled parentheses is not visited',
 edits=[('walk.go','''	case *ParenExpr:
		Walk(v, typ.Expr)
''','''	case *ParenExpr:
		inner := typ.Expr
		for {
			p, ok := inner.(*ParenExpr)
			if !ok {
				break
			}
			inner = p.Expr
		}
		Walk(v, inner)
''')], demo='''
	in := &ParenExpr{Expr: &IntTyp{Val: 1}}
	n := 0
	Visit(&ParenExpr{Expr: in}, func(e Expr) bool { if e == Expr(in) { n++ }; return true })
	if n != 1 { t.Fatalf("inner parentheses visited %d times", n) }
'''),
dict(id='walk-assign-shortcut', prop='C17', needs='a variable assigned a selector (so that the shortcut fires)', breaks='the left side of an assignment of a selector is not visited',
 edits=[('walk.go','''	case *Assign:
		Walk(v, typ.Left)
		Walk(v, typ.Right)
''','''	case *Assign:
		if _, ok := typ.Right.(*Selector); !ok {
			Walk(v, typ.Left)
		}
		Walk(v, typ.Right)
''')], demo='''
	l := &Ident{Val: "a"}
	n := 0
	Visit(&Assign{Left: l, Right: &Selector{Ident: "s"}}, func(e Expr) bool { if e == Expr(l) { n++ }; return true })
	if n != 1 { t.Fatalf("left side visited %d times", n) }
'''),
dict(id='walk-shared-element', prop='C17', needs='an array with a repeated neighbouring element (the same node twice) or more than one element', breaks='walking an array stops at an element equal to the last one',
 edits=[('walk.go','''			Walk(v, typ.List[i])
''','''			if i > 0 && typ.List[i] == typ.List[i-1] {
				continue
			}
			Walk(v, typ.List[i])
''')], demo='''
	l := &IntTyp{Val: 7}
	n := 0
	Visit(&ArrayTyp{List: []Expr{l, l}}, func(e Expr) bool { if e == Expr(l) { n++ }; return true })
	if n != 2 { t.Fatalf("elements visited %d times", n) }
'''),
]
