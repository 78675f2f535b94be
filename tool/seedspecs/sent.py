pre='''
func when(src string) (Expr, error) {
	stmt, err := Parse(src)
	if err != nil {
		return nil, err
	}
	return stmt.(*Trigger).When, nil
}
'''
seeds=[
dict(id='tok-range-word', prop='C10', needs='the word range between two numbers', breaks='range is a selector', pre=pre,
 edits=[('keyword.go','	"range":          RANGE,','	"..":             RANGE,')],
 demo="""
	if _, err := when("trigger when 1 range 5"); err != nil { t.Fatal(err) }
"""),
dict(id='lex-error-dropped', prop='C24', needs='a string that is not closed at the end of the input', breaks='unclosed strings are accepted', pre=pre,
 edits=[('token.go','		s.err = errors.New(msg)','		if msg != "literal not terminated" {\n			s.err = errors.New(msg)\n		}')],
 demo="""
	if _, err := when("trigger when speed in [1] and \\"abc"); err == nil { t.Fatal("accepted") }
"""),
dict(id='empty-lexeme', prop='C02', needs='a number at the very end of the input', breaks='Parse panics on a number at the end of the input', pre=pre,
 edits=[('primitive.go','		if len(s.lit) > 0 {','		if s.tok != EOF || s.sign == ADD {')],
 demo="""
	when("trigger when speed > +1")
"""),
dict(id='prec-quo-right', prop='C09', needs='two divisions in a row', breaks='a / b / c is grouped to the right', pre=pre,
 edits=[('parser.go','''		right, err := s.parseBinaryExpr(oprec + 1)
''','''		next := oprec + 1
		if op == QUO {
			next = oprec
		}
		right, err := s.parseBinaryExpr(next)
''')],
 demo='''
	e, err := when(`trigger when 8 / 4 / 2`)
	if err != nil { t.Fatal(err) }
	if _, ok := e.(*BinaryExpr).Left.(*BinaryExpr); !ok { t.Fatal("grouped to the right") }
'''),
dict(id='prec-not-nearby', prop='C09', needs='NOT NEARBY next to AND', breaks='not nearby has no precedence', pre=pre,
 edits=[('token.go','		IN, NOT_IN, NEARBY, NOT_NEARBY, NOT_EQ:','		IN, NOT_IN, NEARBY, NOT_EQ:')],
 demo='''
	if _, err := when(`trigger when coords not nearby @home and speed > 1`); err != nil { t.Fatal(err) }
'''),
dict(id='sign-pressure', prop='C07', needs='a minus before a pressure', breaks='negative pressures are accepted', pre=pre,
 edits=[('primitive.go','''	case isPressureUnit(unit):
		if s.isSignMinus() {''','''	case isPressureUnit(unit):
		if s.isSignMinus() && v == 0 {''')],
 demo='''
	if _, err := when(`trigger when pressure > -2bar`); err == nil { t.Fatal("a negative pressure") }
'''),
dict(id='sign-carried', prop='C07', needs='a negative low bound of a range', breaks='the sign of the low bound is carried over to the high bound', pre=pre,
 edits=[('parser.go','''	s.resetSign()
	s.next()

	if s.except(SUB, ADD) {''','''	s.next()

	if s.except(SUB, ADD) {''')],
 demo='''
	e, err := when(`trigger when -5 .. 9`)
	if err != nil { t.Fatal(err) }
	if r := e.(*Range); r.Low.(*IntTyp).Val != -5 || r.High.(*IntTyp).Val != 9 { t.Fatal(r.Low, r.High) }
'''),
dict(id='unit-rm', prop='C11', needs='the unit spelled Rm', breaks='a distance in Rm has an unknown unit', pre=pre,
 edits=[('units.go','	case "rm", "rM", "Rm", "M", "met":','	case "rm", "rM", "M", "met":')],
 demo='''
	e, err := when(`trigger when 5Rm`)
	if err != nil { t.Fatal(err) }
	if d := e.(*DistanceTyp); d.U != Meter { t.Fatal(d.U) }
'''),
dict(id='unit-bar-spelling', prop='C11', needs='formatting a pressure in bar and parsing the result', breaks='Bar is printed in a spelling that is not read back', pre=pre,
 edits=[('units.go','''		s = "Psi"
''','''		s = "pSi"
''')],
 demo='''
	if e, err := when("trigger when 2" + Psi.String()); err != nil { t.Fatal(err) } else if p, ok := e.(*PressureTyp); !ok || p.U != Psi { t.Fatal(e) }
'''),
dict(id='name-nov', prop='C12', needs='the month nov', breaks='nov is read as October', pre=pre,
 edits=[('datetime.go','			month = 11','			month = 10')],
 demo='''
	e, err := when(`trigger when month[Nov]`)
	if err != nil { t.Fatal(err) }
	if m := e.(*MonthTyp); m.Val != 11 { t.Fatal(m.Val) }
'''),
dict(id='vars-third', prop='C20', needs='three assignments, the last two of one name', breaks='only the first assignment is compared', pre=pre,
 edits=[('ast.go','''	for i := 0; i < len(t.Vars); i++ {
		if t.Vars[i].Left.Val == varname {
			return true''','''	for i := 0; i < len(t.Vars) && i < 1; i++ {
		if t.Vars[i].Left.Val == varname {
			return true''')],
 demo='''
	if _, err := when(`trigger set a = 1; b = 2; b = 3; when speed > @b`); err == nil { t.Fatal("assigned twice") }
'''),
dict(id='shape-month-open', prop='C05', needs='a month whose bracket is a brace', breaks='weekday{Mon] is accepted', pre=pre,
 edits=[('datetime.go','''	if !s.except(LBRACK) {
		s.err = fmt.Errorf("invalid month format''','''	if !s.except(LBRACK, LBRACE) {
		s.err = fmt.Errorf("invalid month format''')],
 demo='''
	if _, err := when(`trigger when month{Jan]`); err == nil { t.Fatal("accepted") }
'''),
]
