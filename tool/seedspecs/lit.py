
pre='''
func when(src string) (Expr, error) {
	stmt, err := Parse(src)
	if err != nil {
		return nil, err
	}
	return stmt.(*Trigger).When, nil
}
'''
seeds=[
dict(id='cal-day-in-list', prop='C08', needs='a day out of range in a list of dates', breaks='the days of later dates in a list are not checked', pre=pre,
 edits=[('datetime.go','		if d < 1 || d > 31 {','		if (d < 1 || d > 31) && arrayExpr == nil {')],
 demo='''
	if _, err := when("trigger when date[2023-01-02, 2023-01-45]"); err == nil { t.Fatal("accepted") }
'''),
dict(id='cal-midnight-seconds', prop='C08', needs='a time whose seconds exceed 59 while the hour is 24', breaks='seconds are not checked at 24 hours', pre=pre,
 edits=[('datetime.go','		if c < 0 || c > 59 {','		if (c < 0 || c > 59) && h < 24 {')],
 demo='''
	if _, err := when("trigger when time[24:00:75]"); err == nil { t.Fatal("accepted") }
'''),
dict(id='lit-bar-f32', prop='C23', needs='a pressure with more digits than 32 bits hold', breaks='pressures are rounded', pre=pre,
 edits=[('primitive.go','expr = &PressureTyp{Val: v, U','expr = &PressureTyp{Val: float64(float32(v)), U')],
 demo='''
	e, err := when("trigger when 5000000003bar")
	if err != nil { t.Fatal(err) }
	if e.(*PressureTyp).Val != 5000000003 { t.Fatal(e.(*PressureTyp).Val) }
'''),
dict(id='lit-string-space', prop='C23', needs='a string that begins with a space', breaks='the space is dropped', pre=pre,
 edits=[('parser.go','	lit = strings.TrimPrefix(lit, `"`)','	lit = strings.TrimSpace(strings.TrimPrefix(lit, `"`))')],
 demo='''
	e, err := when(`trigger when " x"`)
	if err != nil { t.Fatal(err) }
	if e.(*StringTyp).Val != " x" { t.Fatal("changed") }
'''),
]
