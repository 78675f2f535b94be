seeds=[
dict(id='fmt-reset-needs-repeat',
 prop='C13',
 needs='a statement with a RESET clause and no REPEAT clause',
 breaks='the RESET clause of a statement without REPEAT is not written',
 edits=[('format.go', '\t\t\tt.RepeatInterval.format(w, padding, true)\n\t\t}\n\t\twriteNewLine(w)\n\t}\n\n\tif t.ResetAfter != nil {\n\t\tcheckError(w.WriteString("RESET after "))\n\t\tt.ResetAfter.format(w, padding, true)\n\t}\n\treturn\n', '\t\t\tt.RepeatInterval.format(w, padding, true)\n\t\t}\n\t\twriteNewLine(w)\n\t\tif t.ResetAfter != nil {\n\t\t\tcheckError(w.WriteString("RESET after "))\n\t\t\tt.ResetAfter.format(w, padding, true)\n\t\t}\n\t}\n\treturn\n')],
 pre='',
 demo='\n\ts, err := Parse("trigger when a == 1 reset after 1h")\n\tif err != nil { t.Fatal(err) }\n\tvar sb strings.Builder\n\tif err := Format(&sb, s); err != nil { t.Fatal(err) }\n\tif !strings.Contains(sb.String(), "RESET") { t.Fatal(sb.String()) }\n'),
dict(id='fmt-selector-props-args',
 prop='C13',
 needs='a selector with properties but without arguments',
 breaks='the properties of a selector without arguments are not written',
 edits=[('format.go', '\t\tcheckError(b.WriteString("}"))\n\t}\n\tif len(e.Props) > 0 {\n', '\t\tcheckError(b.WriteString("}"))\n\t}\n\tif len(e.Props) > 0 && (e.Wildcard || len(e.Args) > 0) {\n')],
 pre='',
 demo='\n\tvar sb strings.Builder\n\tsel := &Selector{Ident: "a", Props: []Expr{&DistanceTyp{Val: 5, U: Kilometer}}}\n\tif err := Format(&sb, &Trigger{When: &BinaryExpr{Op: EQL, Left: sel, Right: &IntTyp{Val: 1}}}); err != nil { t.Fatal(err) }\n\tif !strings.Contains(sb.String(), "5") { t.Fatal(sb.String()) }\n'),
dict(id='fmt-swallow-shortwrite',
 prop='C15',
 needs='a writer that fails with io.ErrShortWrite',
 breaks='short writes are ignored and formatting goes on and reports success',
 edits=[('format.go', '\tif err != nil {\n\t\tpanic(err)\n\t}\n', '\tif err != nil && err != io.ErrShortWrite {\n\t\tpanic(err)\n\t}\n')],
 pre='\ntype shortW struct{ n int }\n\nfunc (w *shortW) WriteString(s string) (int, error) { w.n++; return 0, io.ErrShortWrite }\n',
 demo='\n\ts, err := Parse("trigger when a == 1")\n\tif err != nil { t.Fatal(err) }\n\tw := &shortW{}\n\tif err := Format(w, s); err == nil || w.n != 1 { t.Fatal(err, w.n) }\n',
 imports=['io']),
dict(id='fmt-newline-unchecked',
 prop='C15',
 needs='a writer that fails exactly at a line break',
 breaks='a write error at a line break is ignored',
 edits=[('format.go', '\tcheckError(w.WriteString(nl))\n', '\tif _, err := w.WriteString(nl); err == io.EOF {\n\t\tpanic(err)\n\t}\n')],
 pre='\ntype failAt struct{ n, at int }\n\nfunc (w *failAt) WriteString(s string) (int, error) {\n\tw.n++\n\tif w.n == w.at { return 0, errors.New("disk full") }\n\treturn len(s), nil\n}\n',
 demo='\n\ts, err := Parse("trigger when a == 1")\n\tif err != nil { t.Fatal(err) }\n\tfor at := 1; at < 5; at++ {\n\t\tw := &failAt{at: at}\n\t\tif err := Format(w, s); err == nil || w.n != at { t.Fatal(at, err, w.n) }\n\t}\n',
 imports=['errors']),
dict(id='fmt-line-margin-default',
 prop='C16',
 needs='formatting a line without a margin',
 breaks='formatting a line wider than the limit normalises the tree in place',
 edits=[('format.go', '\tneedExpand := e.needExpand()\n\tcheckError(w.WriteString("line["))\n', '\tneedExpand := e.needExpand()\n\tif needExpand && len(e.Val) > 1 && e.Val[0] == e.Val[1] {\n\t\te.Val = e.Val[1:]\n\t}\n\tcheckError(w.WriteString("line["))\n')],
 pre='',
 demo='\n\tl := &GeometryLineTyp{}\n\tfor i := 0; i < 40; i++ { l.Val = append(l.Val, [2]float64{1, 1}) }\n\tvar sb strings.Builder\n\t_ = Format(&sb, &Trigger{When: &BinaryExpr{Op: NEARBY, Left: &Selector{Ident: "a"}, Right: l}})\n\tif len(l.Val) != 40 { t.Fatal(len(l.Val)) }\n',
 imports=['strings']),
dict(id='fmt-collection-inline',
 prop='C13',
 needs='a collection of two objects inside the WHEN expression',
 breaks='the comma between the objects of an inline collection is not written',
 edits=[('format.go', '\t\te.Objects[i].format(w, padding, inline)\n\t\tif i+1 < len(e.Objects) {\n', '\t\te.Objects[i].format(w, padding, inline)\n\t\tif i+1 < len(e.Objects) && (!inline || i > 0) {\n')],
 pre='',
 demo='\n\tvar sb strings.Builder\n\tc := &GeometryCollectionTyp{Objects: []Expr{&GeometryPointTyp{}, &GeometryPointTyp{}}}\n\tif err := Format(&sb, &Trigger{When: &BinaryExpr{Op: NEARBY, Left: &Selector{Ident: "a", Wildcard: true}, Right: c}}); err != nil { t.Fatal(err) }\n\tif _, err := Parse(sb.String()); err != nil { t.Fatal(err, sb.String()) }\n'),
dict(id='fmt-percent-exponent',
 prop='C13',
 needs='a percentage of 1e21 or more',
 breaks='large percentages are written with an exponent, which does not read back',
 edits=[('format.go', '\tformatFloat(w, e.Val)\n\tcheckError(w.WriteString("%"))\n', '\tcheckError(w.WriteString(strconv.FormatFloat(e.Val, \'g\', 12, 64) + "%"))\n')],
 pre='',
 demo='\n\ts, err := Parse("trigger when a == 12345678901234567%")\n\tif err != nil { t.Fatal(err) }\n\tvar sb strings.Builder\n\tif err := Format(&sb, s); err != nil { t.Fatal(err) }\n\ts2, err := Parse(sb.String())\n\tif err != nil { t.Fatal(err, sb.String()) }\n\tif s.(*Trigger).When.(*BinaryExpr).Right.(*PercentTyp).Val != s2.(*Trigger).When.(*BinaryExpr).Right.(*PercentTyp).Val { t.Fatal(sb.String()) }\n'),
dict(id='fmt-args-normalised',
 prop='C16',
 needs='a selector with an empty but non-nil argument map',
 breaks='formatting replaces the argument map of the tree',
 edits=[('format.go', '\tcheckError(b.WriteString(e.Ident))\n\tif len(e.Args) > 0 {\n', '\tcheckError(b.WriteString(e.Ident))\n\tif len(e.Args) == 0 {\n\t\te.Args = nil\n\t} else {\n')],
 pre='',
 demo='\n\tvar sb strings.Builder\n\tsel := &Selector{Ident: "a", Args: map[string]struct{}{}}\n\tif err := Format(&sb, &Trigger{When: &BinaryExpr{Op: EQL, Left: sel, Right: &IntTyp{Val: 1}}}); err != nil { t.Fatal(err) }\n\tif sel.Args == nil { t.Fatal("the tree was changed") }\n'),
dict(id='fmt-expand-first-args',
 prop='C14',
 needs='a selector in SET with many arguments of different lengths',
 breaks='whether the arguments are spread over lines depends on which of them the map yields first',
 edits=[('ast.go', '\tvar n int\n\tfor k := range e.Args {\n\t\tn += len(k)\n\t}\n\treturn n > 64\n', '\tvar n, seen int\n\tfor k := range e.Args {\n\t\tif seen++; seen > 8 {\n\t\t\tbreak\n\t\t}\n\t\tn += len(k)\n\t}\n\treturn n > 64\n')],
 pre='',
 demo='\n\tsel := &Selector{Ident: "a", Args: map[string]struct{}{}}\n\tfor i := 0; i < 20; i++ { sel.Args[strings.Repeat("x", 1+i)] = struct{}{} }\n\tseen := map[string]bool{}\n\tfor i := 0; i < 300; i++ {\n\t\tvar sb strings.Builder\n\t\tif err := Format(&sb, &Trigger{Vars: []*Assign{{Left: &Ident{Val: "v"}, Right: sel}}, When: &BooleanTyp{}}); err != nil { t.Fatal(err) }\n\t\tseen[sb.String()] = true\n\t}\n\tif len(seen) != 1 { t.Fatal(len(seen)) }\n'),
]
