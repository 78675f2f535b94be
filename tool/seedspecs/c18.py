pre='''
func verdict(src string, dict Dictionary) error {
	stmt, err := Parse(src)
	if err != nil {
		panic(err)
	}
	return CheckType(stmt, dict)
}
'''
F='typecheck.go'
seeds=[
dict(id='check-notin-float-range', prop='C18', needs='a float on the left of NOT IN and a range of integers on the right', breaks='NOT IN refuses what IN admits', pre=pre,
 edits=[(F,'''	NOT_IN: {
		isInt:      {isArrayInt, isRangeInt, isRangeFloat, isGeometry},
		isFloat:    {isArrayFloat, isRangeFloat, isRangeInt, isGeometry},''','''	NOT_IN: {
		isInt:      {isArrayInt, isRangeInt, isRangeFloat, isGeometry},
		isFloat:    {isArrayFloat, isRangeFloat, isGeometry},''')],
 demo='''
	d := Dict()
	d["speed"] = Float
	in := verdict(`TRIGGER WHEN speed IN 1 .. 5`, d)
	out := verdict(`TRIGGER WHEN speed NOT IN 1 .. 5`, d)
	if in != nil || out != nil { t.Fatal(in, out) }
'''),
dict(id='check-int-times-float', prop='C18', needs='the result of an integer times a float used where only an integer fits', breaks='an integer times a float is taken for an integer', pre=pre,
 edits=[(F,'''		case left == isInt && right == isFloat:
			expr = opFloat
		case left == isInt && right == isInt:
			expr = opInt
		}
	case AND''','''		case left == isInt && (right == isFloat || right == isInt):
			expr = opInt
		}
	case AND''')],
 demo='''
	if err := verdict(`TRIGGER WHEN 2 * 2.5 IN [1, 2, 3]`, Dict()); err == nil { t.Fatal("a float in a list of integers") }
'''),
dict(id='check-or-shortcut', prop='C18', needs='an error in the right operand of OR whose left operand is the literal true', breaks='the right operand of true OR … is not checked', pre=pre,
 edits=[(F,'''		right, err = tc.walk(typ.Right)
		if err != nil {
			return nil, err
		}''','''		if b, isBool := left.(*BooleanTyp); isBool && b.Val && typ.Op == OR {
			return left, nil
		}
		right, err = tc.walk(typ.Right)
		if err != nil {
			return nil, err
		}''')],
 demo='''
	if err := verdict(`TRIGGER WHEN true OR ("a" - 1 == 2)`, Dict()); err == nil { t.Fatal("error in the right operand accepted") }
'''),
dict(id='check-variable-case', prop='C19', needs='two variables whose names differ in case only', breaks='a variable takes the value of another one whose name differs in case', pre=pre,
 edits=[('ast.go','\t\tif t.Vars[i].Left.Val == varname {\n\t\t\treturn t.Vars[i], nil','\t\tif strings.EqualFold(t.Vars[i].Left.Val, varname) {\n\t\t\treturn t.Vars[i], nil'),('ast.go','import (\n\t"fmt"\n','import (\n\t"fmt"\n\t"strings"\n')],
 demo='''
	if err := verdict(`TRIGGER SET A = 1; a = "x"; WHEN @a == "x"`, Dict()); err != nil { t.Fatal(err) }
'''),
dict(id='check-undeclared-args', prop='C19', needs='an undeclared selector with arguments compared with a string', breaks='an undeclared selector that has arguments counts as a string', pre=pre,
 edits=[(F,'''	case *StringTyp:
		ok = true
	case *Ref:
		assign, err := tc.trigger.findAssign(typ.ID)
		if err != nil {
			return
		}
		switch assign.Right.(type) {
		case *StringTyp:
			ok = true
		}

	case *Selector:
		selector, err := tc.getSelectorType(typ.Ident)
		if err != nil {
			return
		}
''','''	case *StringTyp:
		ok = true
	case *Ref:
		assign, err := tc.trigger.findAssign(typ.ID)
		if err != nil {
			return
		}
		switch assign.Right.(type) {
		case *StringTyp:
			ok = true
		}

	case *Selector:
		selector, err := tc.getSelectorType(typ.Ident)
		if err != nil {
			ok = len(typ.Args) > 0
			return
		}
''')],
 demo='''
	if err := verdict(`TRIGGER WHEN name{"a"} == "x"`, Dict()); err == nil { t.Fatal("undeclared selector accepted") }
'''),
]
