From e3c162b17393e3042a31d1e19d26eee2dffc268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:49 +0000
Subject: [PATCH 01/38] fix: format months with the month names

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 546d0d4..eda8dca 100644
--- a/format.go
+++ b/format.go
@@ -504,7 +504,7 @@ func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
 	if !inline {
 		checkError(w.WriteString("month["))
 	}
-	checkError(w.WriteString(shortDayNames[e.Val-1]))
+	checkError(w.WriteString(shortMonthNames[e.Val-1]))
 	if !inline {
 		checkError(w.WriteString("]"))
 	}
-- 
2.43.0


From 03e36f33b1e491c2e30f27b3d1a84fa98b41c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 02/38] fix: Parse returns an untyped nil statement with an
 error

---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 892b76a..a025b6e 100644
--- a/parser.go
+++ b/parser.go
@@ -193,7 +193,11 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if s.except(TRIGGER) {
 			s.next()
 		}
-		return s.parseTriggerStmt()
+		trigger, er := s.parseTriggerStmt()
+		if er != nil {
+			return nil, er
+		}
+		return trigger, nil
 	default:
 		err = s.error()
 	}
-- 
2.43.0


From 9d5fbc111357ace2e9f14ce4f7beebceb81b537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 03/38] fix: reject trailing input and lexical errors at the
 end of a statement

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index a025b6e..093ca10 100644
--- a/parser.go
+++ b/parser.go
@@ -57,6 +57,9 @@ func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
 			return nil, err
 		}
 	}
+	if s.err = s.t.Err(); s.err != nil || !s.except(EOF) {
+		return nil, s.error()
+	}
 	stmt.rpos = s.t.Offset()
 	return stmt, nil
 }
-- 
2.43.0


From 61a18ed4be15f9162c58fc6eedf867bc9c47f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 04/38] fix: a parenthesised expression takes operators only
 and must be closed

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 093ca10..66d32fa 100644
--- a/parser.go
+++ b/parser.go
@@ -324,10 +324,13 @@ func (s *parser) isSignPlus() bool {
 
 func (s *parser) parseParenExpr() (expr Expr, err error) {
 	lp := s.t.Offset()
-	expr, err = s.parseBinaryExpr(s.tok.Precedence())
+	expr, err = s.parseBinaryExpr(1)
 	if err != nil {
 		return nil, err
 	}
+	if !s.except(RPAREN) {
+		return nil, s.error()
+	}
 	rp := s.t.Offset()
 	s.next()
 	return &ParenExpr{Expr: expr, lpos: lp, rpos: rp}, nil
-- 
2.43.0


From 6c344facb97944357caad859ed950cad664f5e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:08 +0000
Subject: [PATCH 05/38] fix: reject a selector whose argument list is not
 closed

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index c1520c1..3f127ad 100644
--- a/composite.go
+++ b/composite.go
@@ -126,7 +126,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 		var i int
 		for {
 			s.next()
-			if s.except(EOF, RBRACE) {
+			if s.except(RBRACE) {
 				break
 			}
 			if s.except(COMMA) {
-- 
2.43.0


From 527f701bc98e584f5f37c3bd56dd31ea2c00e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 06/38] fix: reject a geometry radius or margin that is not a
 distance

---
 primitive.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primitive.go b/primitive.go
index ba9d923..13c6574 100644
--- a/primitive.go
+++ b/primitive.go
@@ -147,6 +147,8 @@ func (s *parser) parseDistance() (dist *DistanceTyp, err error) {
 	s.next()
 	var ok bool
 	switch s.tok {
+	default:
+		return nil, s.error()
 	case INT:
 		re, err := s.parseIntTypes()
 		if err != nil {
-- 
2.43.0


From c9fc8a28997c51eebeb5123e39783c9526547436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 07/38] fix: a variable reference needs a name

---
 primitive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive.go b/primitive.go
index 13c6574..c6a2064 100644
--- a/primitive.go
+++ b/primitive.go
@@ -7,6 +7,9 @@ import (
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
 	s.next()
+	if !s.except(SELECTOR) {
+		return nil, s.error()
+	}
 	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
 	s.next()
 	return
-- 
2.43.0


From 7cc4f6a5861bde9e80429df254f47b3ed3acf0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 08/38] fix: a sign belongs to the number that follows it and
 to nothing else

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index 66d32fa..5cc4330 100644
--- a/parser.go
+++ b/parser.go
@@ -247,6 +247,7 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 		return nil, s.error()
 	}
 
+	s.resetSign()
 	s.next()
 
 	if s.except(SUB, ADD) {
@@ -257,6 +258,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 			s.sign = ADD
 		}
 		s.next()
+		if !s.except(INT, FLOAT) {
+			return nil, s.error()
+		}
 	}
 
 	switch s.tok {
-- 
2.43.0


From 28171fc6fdb7643ee5427c529be29ab4a5245f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 09/38] fix: reject a negative pressure instead of dropping its
 sign

---
 primitive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primitive.go b/primitive.go
index c6a2064..a4e398c 100644
--- a/primitive.go
+++ b/primitive.go
@@ -86,6 +86,10 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isPressureUnit(unit):
+		if s.isSignMinus() {
+			s.err = errNegativeValue
+			return nil, s.error()
+		}
 		u := unitFromString(s.lit)
 		s.rpos += litlen + u.size()
 		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
-- 
2.43.0


From eb288649c86a06d897fcd652351d87b57c8b480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 10/38] fix: consume the wildcard token so that it is not read
 again as an operator

---
 parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 5cc4330..148cf94 100644
--- a/parser.go
+++ b/parser.go
@@ -311,7 +311,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 }
 
 func (s *parser) parseWildcardLit() (expr Expr, err error) {
-	return &WildcardTyp{lpos: s.t.Offset()}, nil
+	expr = &WildcardTyp{lpos: s.t.Offset()}
+	s.next()
+	return
 }
 
 func (s *parser) resetSign() {
-- 
2.43.0


From 4916f489885a9ee1e3285b9e23c85d66ed8289d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 11/38] fix: REPEAT and RESET accept only their own words every
 and after

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 148cf94..eec22bc 100644
--- a/parser.go
+++ b/parser.go
@@ -99,7 +99,7 @@ func (s *parser) parseRepeat(stmt *Trigger) (err error) {
 		return
 	}
 
-	if !s.except(SELECTOR) {
+	if !s.except(SELECTOR) || s.lit != "every" {
 		return s.error()
 	}
 	s.next()
@@ -166,6 +166,9 @@ func (s *parser) parseSet(stmt *Trigger) error {
 
 func (s *parser) parseReset(stmt *Trigger) (err error) {
 	s.next()
+	if !s.except(SELECTOR) || s.lit != "after" {
+		return s.error()
+	}
 	s.next()
 	var dur Expr
 	switch s.tok {
-- 
2.43.0


From 0cce21cfb52aa80a1ac1f94f28b1ad09b0d94701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 12/38] fix: report a write error while formatting a boolean

---
 ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index ede9e36..2304a54 100644
--- a/ast.go
+++ b/ast.go
@@ -294,9 +294,9 @@ type BooleanTyp struct {
 func (e *BooleanTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Val {
 	case true:
-		b.WriteString("true")
+		checkError(b.WriteString("true"))
 	case false:
-		b.WriteString("false")
+		checkError(b.WriteString("false"))
 	}
 	return
 }
-- 
2.43.0


From 22f1441c58a1a7975bb1ba10e53ca3ad43c0c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 13/38] fix: format rem as a word of its own

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index eda8dca..ce1981c 100644
--- a/format.go
+++ b/format.go
@@ -366,7 +366,7 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Op {
 	case AND, OR:
 		nl = true
-	case ADD, SUB, MUL, QUO, REM:
+	case ADD, SUB, MUL, QUO:
 		nospace = true
 	}
 	if !nospace {
-- 
2.43.0


From bcb26b2363e15bc731ee9484156c6495f928482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 14/38] fix: format a whole float so that it is read back as a
 float

---
 format.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index ce1981c..83bf348 100644
--- a/format.go
+++ b/format.go
@@ -3,6 +3,7 @@ package geoqlparser
 import (
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -75,7 +76,12 @@ func formatTriggerStmt(t *Trigger, w io.StringWriter) (err error) {
 func (t *Trigger) format(_ io.StringWriter, _ string, _ bool) {}
 
 func formatFloat(w io.StringWriter, v float64) {
-	checkError(w.WriteString(strconv.FormatFloat(v, 'f', -1, 64)))
+	str := strconv.FormatFloat(v, 'f', -1, 64)
+	checkError(w.WriteString(str))
+	// digits alone are read as an int, which must not overflow
+	if math.Abs(v) >= 1<<53 {
+		checkError(w.WriteString(".0"))
+	}
 }
 
 func (e *GeometryMultiObjectTyp) format(w io.StringWriter, padding string, inline bool) {
@@ -242,6 +248,10 @@ func (e *StringTyp) format(w io.StringWriter, _ string, _ bool) {
 
 func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 	formatFloat(w, e.Val)
+	// digits alone are read as an int
+	if e.Val == math.Trunc(e.Val) && math.Abs(e.Val) < 1<<53 {
+		checkError(w.WriteString(".0"))
+	}
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From c2d265a7dbd64a3702385cc86df6fb5b02b26a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 15/38] fix: strip only the delimiting quotes of a string

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index eec22bc..75f9c37 100644
--- a/parser.go
+++ b/parser.go
@@ -391,7 +391,7 @@ func isGeometryToken(tok Token) (ok bool) {
 }
 
 func trim(lit string) string {
-	lit = strings.TrimLeft(lit, `"`)
-	lit = strings.TrimRight(lit, `"`)
+	lit = strings.TrimPrefix(lit, `"`)
+	lit = strings.TrimSuffix(lit, `"`)
 	return lit
 }
-- 
2.43.0


From ac48744fb292826aa522a35cb650777a2e3e44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 16/38] fix: format fractional durations in units the parser
 reads

---
 format.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 83bf348..7714111 100644
--- a/format.go
+++ b/format.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"math"
 	"strconv"
+	"time"
 )
 
 const (
@@ -255,7 +256,12 @@ func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-	checkError(b.WriteString(e.Val.String()))
+	// the parser reads durations with whole numbers only
+	whole := e.Val.Truncate(time.Second)
+	checkError(b.WriteString(whole.String()))
+	if rest := e.Val - whole; rest > 0 {
+		checkError(b.WriteString(strconv.FormatInt(int64(rest), 10) + "ns"))
+	}
 }
 
 func (e *TemperatureTyp) format(w io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From 521ab18c6388fefb073f76fb3fcfe98ed24dbc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 17/38] fix: format selector arguments in a stable order

---
 ast.go    | 11 +----------
 format.go |  6 ++++++
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/ast.go b/ast.go
index 2304a54..bcd9dc6 100644
--- a/ast.go
+++ b/ast.go
@@ -270,19 +270,10 @@ func (e *Selector) calculateEnd(p Pos) {
 
 func (e *Selector) needExpand() (ok bool) {
 	var n int
-	var i int
 	for k := range e.Args {
 		n += len(k)
-		if n > 64 {
-			ok = true
-			break
-		}
-		if i > 3 {
-			break
-		}
-		i++
 	}
-	return
+	return n > 64
 }
 
 type BooleanTyp struct {
diff --git a/format.go b/format.go
index 7714111..cccf3a6 100644
--- a/format.go
+++ b/format.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"math"
+	"sort"
 	"strconv"
 	"time"
 )
@@ -309,7 +310,12 @@ func (e *Selector) format(b io.StringWriter, padding string, inline bool) {
 				checkError(b.WriteString(", "))
 			}
 		}
+		keys := make([]string, 0, len(e.Args))
 		for k := range e.Args {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
+		for _, k := range keys {
 			if !inline && expand {
 				checkError(b.WriteString("\n" + pad2))
 			}
-- 
2.43.0


From 351993220155945aa6ecc907e39ff5d45627b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 18/38] fix: reject a calendar range with more than two bounds

---
 datetime.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/datetime.go b/datetime.go
index 1e49f50..9e0ec1f 100644
--- a/datetime.go
+++ b/datetime.go
@@ -94,12 +94,10 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			}
 			arrayExpr.List = append(arrayExpr.List, date)
 		case RANGE, PERIOD:
-			if arrayExpr != nil {
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = date
 		}
 		if s.except(RBRACK) {
@@ -229,12 +227,10 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			}
 			arrayExpr.List = append(arrayExpr.List, time_)
 		case RANGE, PERIOD:
-			if arrayExpr != nil {
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = time_
 		}
 		if s.except(RBRACK) {
@@ -315,12 +311,10 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
 		case RANGE, PERIOD:
-			if arrayExpr != nil {
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = wd
 		}
 		if s.except(RBRACK) {
@@ -411,12 +405,10 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 			}
 			arrayExpr.List = append(arrayExpr.List, wd)
 		case RANGE, PERIOD:
-			if arrayExpr != nil {
+			if arrayExpr != nil || rangeExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
-			}
+			rangeExpr = &Range{}
 			rangeExpr.Low = wd
 		}
 		if s.except(RBRACK) {
-- 
2.43.0


From 09da5baa782e27a51641284f4569256503ef90ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 19/38] fix: reject calendar values without a separator between
 them

---
 datetime.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/datetime.go b/datetime.go
index 9e0ec1f..6ce1ec1 100644
--- a/datetime.go
+++ b/datetime.go
@@ -99,6 +99,9 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			}
 			rangeExpr = &Range{}
 			rangeExpr.Low = date
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -232,6 +235,9 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			}
 			rangeExpr = &Range{}
 			rangeExpr.Low = time_
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -316,6 +322,9 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 			}
 			rangeExpr = &Range{}
 			rangeExpr.Low = wd
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -410,6 +419,9 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 			}
 			rangeExpr = &Range{}
 			rangeExpr.Low = wd
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
-- 
2.43.0


From d03629057bf49fa176f7ddb22124f726590b69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 20/38] fix: reject misplaced parts in a date or a time

---
 datetime.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/datetime.go b/datetime.go
index 6ce1ec1..ae4d6f0 100644
--- a/datetime.go
+++ b/datetime.go
@@ -39,14 +39,13 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		var sep int
 		for i := 0; i <= 3; i++ {
 			s.next()
-			if s.except(SUB) {
+			if s.except(SUB) && !isMonth(i) && !isDay(i) {
 				sep++
 				continue
 			}
-			if !s.except(SUB, INT) || s.except(EOF) {
-				err = fmt.Errorf("invalid date format: expected date[YYYY-MM-DD]")
-			}
 			switch {
+			default:
+				err = fmt.Errorf("invalid date format: expected date[YYYY-MM-DD]")
 			case isMonth(i):
 				m, err = strconv.Atoi(s.lit)
 			case isDay(i):
@@ -160,18 +159,17 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		var sep int
 		for i := 0; i <= 3; i++ {
 			s.next()
-			if s.except(COLON) {
+			if s.except(COLON) && !isMinutes(i) && !isSeconds(i) {
 				sep++
 				continue
 			}
-			if s.except(RBRACK, COMMA, RANGE, SELECTOR) {
+			if s.except(RBRACK, COMMA, RANGE, SELECTOR) && !isMinutes(i) && !isSeconds(i) {
 				s.t.Reset()
 				break
 			}
-			if !s.except(COLON, INT) || s.except(EOF) {
-				err = fmt.Errorf("invalid time format: expected time[HH:MM:SS]")
-			}
 			switch {
+			default:
+				err = fmt.Errorf("invalid time format: expected time[HH:MM:SS]")
 			case isMinutes(i):
 				m, err = strconv.Atoi(s.lit)
 			case isSeconds(i):
-- 
2.43.0


From 4a0305066003343e23826f0588886df00b9662f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 21/38] fix: objects of a geometry list are separated by commas
 and closed by a bracket

---
 geometry.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/geometry.go b/geometry.go
index d3e0733..6236992 100644
--- a/geometry.go
+++ b/geometry.go
@@ -16,7 +16,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	}
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		object, oer := s.parseGeometryExpr()
 		if oer != nil {
@@ -45,9 +45,10 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 			s.next()
 			break
 		}
-		if s.except(COMMA) {
-			s.next()
+		if !s.except(COMMA) {
+			return nil, s.error()
 		}
+		s.next()
 	}
 	multiobj.rpos = s.t.Offset()
 	if len(multiobj.Val) == 0 {
@@ -68,7 +69,7 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 	s.next()
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		var object Expr
 		var oer error
@@ -86,9 +87,10 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 			s.next()
 			break
 		}
-		if s.except(COMMA) {
-			s.next()
+		if !s.except(COMMA) {
+			return nil, s.error()
 		}
+		s.next()
 	}
 	collection.rpos = s.t.Offset()
 	if len(collection.Objects) == 0 {
-- 
2.43.0


From 7e45fbc7500b01efbbf7bf4286c660616a19fdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 22/38] fix: reject malformed coordinates instead of inventing
 or dropping them

---
 geometry.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/geometry.go b/geometry.go
index 6236992..812c32c 100644
--- a/geometry.go
+++ b/geometry.go
@@ -114,14 +114,28 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	var cc [][][2]float64
 	open := true
 	q := 1
+	depth := coordsDepth(geomtyp)
+	prev := LBRACK
 	for {
 		s.next()
-		if s.except(EOF) {
-			break
-		}
-		if !s.except(LBRACK, SUB, COMMA, FLOAT, INT, RBRACK) {
-			break
+		switch s.tok {
+		case LBRACK, SUB, FLOAT, INT:
+			ok := prev == LBRACK || prev == COMMA
+			if !ok || s.except(LBRACK) == (q == depth) {
+				return nil, s.error()
+			}
+		case COMMA, RBRACK:
+			ok := prev == RBRACK
+			if q == depth {
+				ok = prev == INT && s.except(COMMA) == (pi == 0)
+			}
+			if !ok {
+				return nil, s.error()
+			}
+		default:
+			return nil, s.error()
 		}
+		prev = s.tok
 		if s.except(LBRACK) {
 			path++
 			q++
@@ -210,6 +224,7 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			return nil, s.error()
 		}
 		s.resetSign()
+		prev = INT
 	}
 	switch geomtyp {
 	case GEOMETRY_POINT:
@@ -244,3 +259,16 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	err = s.error()
 	return
 }
+
+// coordsDepth returns how many brackets enclose a coordinate pair.
+func coordsDepth(geomtyp Token) (n int) {
+	switch geomtyp {
+	case GEOMETRY_POINT:
+		n = 1
+	case GEOMETRY_LINE:
+		n = 2
+	case GEOMETRY_POLYGON:
+		n = 3
+	}
+	return
+}
-- 
2.43.0


From de18d77e9784407fb4b4938d45cf590f3a39c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 23/38] fix: array elements are separated by a comma or a
 colon, not by any token

---
 composite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 3f127ad..d983f5c 100644
--- a/composite.go
+++ b/composite.go
@@ -20,8 +20,8 @@ func (s *parser) parseArrayExpr() (expr Expr, err error) {
 			return nil, err
 		}
 
-		if s.except(COMMA) {
-			s.t.Unwind()
+		if !s.except(COMMA, COLON, RBRACK) {
+			return nil, s.error()
 		}
 
 		if arrayExpr == nil {
-- 
2.43.0


From c2d6878ce5ab9dbad7f3ed0e1b3397ceb1a04811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 24/38] fix: a range is not a bound of another range

---
 composite.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index d983f5c..0be8f01 100644
--- a/composite.go
+++ b/composite.go
@@ -91,7 +91,10 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	startPos := s.t.Offset()
 	high, err := s.parseUnaryExpr()
 	if err != nil {
-		return
+		return nil, err
+	}
+	if _, isRangeExpr = high.(*Range); isRangeExpr {
+		return nil, s.error()
 	}
 	return &Range{
 		Low:  low,
-- 
2.43.0


From 62e89122b9f8f7d3f318f3f798771f4f155cc886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 25/38] fix: report the end of booleans, variables, operators
 and parentheses

---
 ast.go       |  4 ++--
 primitive.go | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ast.go b/ast.go
index bcd9dc6..a6c3b41 100644
--- a/ast.go
+++ b/ast.go
@@ -323,9 +323,9 @@ func (e *WeekdayTyp) isExpr()             {}
 func (e *MonthTyp) isExpr()               {}
 
 func (e *BinaryExpr) Pos() Pos             { return e.Left.Pos() }
-func (e *BinaryExpr) End() Pos             { return e.Right.Pos() }
+func (e *BinaryExpr) End() Pos             { return e.Right.End() }
 func (e *ParenExpr) Pos() Pos              { return e.lpos }
-func (e *ParenExpr) End() Pos              { return e.Expr.End() }
+func (e *ParenExpr) End() Pos              { return e.rpos }
 func (e *Selector) Pos() Pos               { return e.lpos }
 func (e *Selector) End() Pos               { return e.rpos }
 func (e *WildcardTyp) Pos() Pos            { return e.lpos }
diff --git a/primitive.go b/primitive.go
index a4e398c..903a5de 100644
--- a/primitive.go
+++ b/primitive.go
@@ -10,7 +10,9 @@ func (s *parser) parseVarExpr() (expr Expr, err error) {
 	if !s.except(SELECTOR) {
 		return nil, s.error()
 	}
-	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
+	ref := &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
+	ref.rpos = ref.lpos + Pos(len(ref.ID)-1)
+	expr = ref
 	s.next()
 	return
 }
@@ -179,13 +181,15 @@ func (s *parser) parseDistance() (dist *DistanceTyp, err error) {
 }
 
 func (s *parser) parseBooleanLit() (expr Expr, err error) {
+	lpos := s.t.Offset()
+	rpos := lpos + Pos(len(s.lit)-1)
 	switch s.lit {
 	default:
 		return nil, s.error()
 	case "true", "up":
-		expr = &BooleanTyp{Val: true, lpos: s.t.Offset()}
+		expr = &BooleanTyp{Val: true, lpos: lpos, rpos: rpos}
 	case "false", "down":
-		expr = &BooleanTyp{Val: false, lpos: s.t.Offset()}
+		expr = &BooleanTyp{Val: false, lpos: lpos, rpos: rpos}
 	}
 	s.next()
 	return
-- 
2.43.0


From 261128ef41d9dc68b958abb3de0c1e2efe7995cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 26/38] fix: Walk visits the children with the visitor that
 Visit returned

---
 walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/walk.go b/walk.go
index bfbde08..71ff5fd 100644
--- a/walk.go
+++ b/walk.go
@@ -5,7 +5,7 @@ type Visitor interface {
 }
 
 func Walk(v Visitor, expr Expr) {
-	if v.Visit(expr) == nil {
+	if v = v.Visit(expr); v == nil {
 		return
 	}
 	switch typ := expr.(type) {
-- 
2.43.0


From fc1dfc1fb61af5b372f9ea314f2d06608668e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 27/38] fix: Walk does not visit absent parts of a trigger

---
 walk.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/walk.go b/walk.go
index 71ff5fd..f55e52d 100644
--- a/walk.go
+++ b/walk.go
@@ -36,10 +36,18 @@ func Walk(v Visitor, expr Expr) {
 				Walk(v, expr)
 			}
 		}
-		Walk(v, typ.When)
-		Walk(v, typ.RepeatCount)
-		Walk(v, typ.RepeatInterval)
-		Walk(v, typ.ResetAfter)
+		if typ.When != nil {
+			Walk(v, typ.When)
+		}
+		if typ.RepeatCount != nil {
+			Walk(v, typ.RepeatCount)
+		}
+		if typ.RepeatInterval != nil {
+			Walk(v, typ.RepeatInterval)
+		}
+		if typ.ResetAfter != nil {
+			Walk(v, typ.ResetAfter)
+		}
 	}
 	v.Visit(nil)
 }
-- 
2.43.0


From 92ab6548e8e96746e872227e1e51674d61d62d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 28/38] fix: Walk visits the parts of geometry objects

---
 walk.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/walk.go b/walk.go
index f55e52d..a2586d4 100644
--- a/walk.go
+++ b/walk.go
@@ -27,6 +27,22 @@ func Walk(v Visitor, expr Expr) {
 		for i := 0; i < len(typ.List); i++ {
 			Walk(v, typ.List[i])
 		}
+	case *GeometryPointTyp:
+		if typ.Radius != nil {
+			Walk(v, typ.Radius)
+		}
+	case *GeometryLineTyp:
+		if typ.Margin != nil {
+			Walk(v, typ.Margin)
+		}
+	case *GeometryMultiObjectTyp:
+		for i := 0; i < len(typ.Val); i++ {
+			Walk(v, typ.Val[i])
+		}
+	case *GeometryCollectionTyp:
+		for i := 0; i < len(typ.Objects); i++ {
+			Walk(v, typ.Objects[i])
+		}
 	case *Assign:
 		Walk(v, typ.Left)
 		Walk(v, typ.Right)
-- 
2.43.0


From f28d3778ae29037adfea27d85e0596e0097c9a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 29/38] fix: a polygon is a geometry for the type checker

---
 typecheck.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 128a260..4b76332 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -446,7 +446,7 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 func (tc *checker) isGeometry(in Expr) (ok bool) {
 	switch typ := in.(type) {
 	case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-		*GeometryMultiObjectTyp:
+		*GeometryMultiObjectTyp, *GeometryPolygonTyp:
 		ok = true
 	case *Ref:
 		assign, err := tc.trigger.findAssign(typ.ID)
@@ -455,7 +455,7 @@ func (tc *checker) isGeometry(in Expr) (ok bool) {
 		}
 		switch assign.Right.(type) {
 		case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-			*GeometryMultiObjectTyp:
+			*GeometryMultiObjectTyp, *GeometryPolygonTyp:
 			ok = true
 		}
 	}
-- 
2.43.0


From b80d3cf394bbf2bdf92592894cf0900aec4313df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 30/38] fix: the type checker checks both bounds of a range

---
 typecheck.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 4b76332..c4170fd 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -393,11 +393,11 @@ func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 	}
 	switch typ {
 	case INT:
-		return tc.isInt(range_.Low)
+		return tc.isInt(range_.Low) && tc.isNumber(range_.High)
 	case FLOAT:
-		return tc.isFloat(range_.Low)
+		return tc.isFloat(range_.Low) && tc.isNumber(range_.High)
 	case STRING:
-		return tc.isString(range_.Low)
+		return tc.isString(range_.Low) && tc.isString(range_.High)
 	}
 	return
 }
-- 
2.43.0


From 11bf316bbac2e5b3700ed0a6a75e7ca918ffe205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:34 +0000
Subject: [PATCH 31/38] fix: a variable has the type of the selector or range
 assigned to it

---
 typecheck.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index c4170fd..b2e643f 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -265,6 +265,13 @@ func (tc *checker) walk(expr Expr) (Expr, error) {
 }
 
 func (tc *checker) is(rt ruleTyp, in Expr) (ok bool) {
+	if ref, isRef := in.(*Ref); isRef {
+		assign, err := tc.trigger.findAssign(ref.ID)
+		if err != nil {
+			return
+		}
+		in = assign.Right
+	}
 	switch rt {
 	case isGeometry:
 		ok = tc.isGeometry(in)
-- 
2.43.0


From c3fcc5098aebba894e9511b820d76e6d46f59bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 32/38] fix: the type checker checks every element of an array

---
 typecheck.go | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index b2e643f..55e42c4 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -410,17 +410,14 @@ func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 }
 
 func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
-	var item Expr
+	var items []Expr
 	switch t := in.(type) {
 	default:
 		return
 	case *Selector:
-		item = t
+		items = []Expr{t}
 	case *ArrayTyp:
-		if len(t.List) == 0 {
-			return
-		}
-		item = t.List[0]
+		items = t.List
 	case *Ref:
 		assign, err := tc.trigger.findAssign(t.ID)
 		if err != nil {
@@ -430,22 +427,24 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 		default:
 			return
 		case *ArrayTyp:
-			if len(tt.List) == 0 {
-				return
-			}
-			item = tt.List[0]
+			items = tt.List
 		}
 	}
 
-	switch typ {
-	case BOOLEAN:
-		return tc.isBoolean(item)
-	case INT:
-		return tc.isInt(item)
-	case FLOAT:
-		return tc.isFloat(item)
-	case STRING:
-		return tc.isString(item)
+	for _, item := range items {
+		switch typ {
+		case BOOLEAN:
+			ok = tc.isBoolean(item)
+		case INT:
+			ok = tc.isInt(item)
+		case FLOAT:
+			ok = tc.isFloat(item)
+		case STRING:
+			ok = tc.isString(item)
+		}
+		if !ok {
+			return
+		}
 	}
 	return
 }
-- 
2.43.0


From 162529f0c5cf23915890fd8486a8bc542c98e0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 33/38] fix: a selector declared as an array is an array of its
 element type

---
 typecheck.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 55e42c4..bc9f3e3 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -381,11 +381,7 @@ func (tc *checker) isString(in Expr) (ok bool) {
 		if err != nil {
 			return
 		}
-		switch t := selector.(type) {
-		case *ArrayTyp:
-			if len(t.List) > 0 {
-				_, ok = t.List[0].(*StringTyp)
-			}
+		switch selector.(type) {
 		case *StringTyp:
 			ok = true
 		}
@@ -416,6 +412,13 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 		return
 	case *Selector:
 		items = []Expr{t}
+		selector, err := tc.getSelectorType(t.Ident)
+		if err != nil {
+			return
+		}
+		if array, isArray := selector.(*ArrayTyp); isArray {
+			items = array.List
+		}
 	case *ArrayTyp:
 		items = t.List
 	case *Ref:
@@ -519,9 +522,6 @@ func (tc *checker) isFloat(in Expr) (ok bool) {
 		if err != nil {
 			return
 		}
-		if array, isArray := selector.(*ArrayTyp); isArray {
-			selector = array.List[0]
-		}
 		switch selector.(type) {
 		case *FloatTyp:
 			ok = true
-- 
2.43.0


From eaadea8316a61864df044b914da85e28a3ac5296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 34/38] fix: bound the height of the syntax tree

---
 parser.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 75f9c37..a62d793 100644
--- a/parser.go
+++ b/parser.go
@@ -7,7 +7,17 @@ import (
 	"strings"
 )
 
-var errNegativeValue = errors.New("value cannot be negative")
+var (
+	errNegativeValue = errors.New("value cannot be negative")
+	errTooComplex    = errors.New("expression is too complex")
+)
+
+// Limits on the height of the syntax tree: everything that
+// descends it is recursive.
+const (
+	maxNesting   = 1000
+	maxOperators = 100000
+)
 
 func Parse(gql string) (Statement, error) {
 	r := strings.NewReader(gql)
@@ -25,6 +35,9 @@ type parser struct {
 	sign Token
 	lpos Pos
 	rpos Pos
+
+	nesting   int // open calls of parseUnaryExpr
+	operators int // binary operators read so far
 }
 
 func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
@@ -236,6 +249,11 @@ func (s *parser) parseBinaryExpr(oprec0 int) (Expr, error) {
 			return left, nil
 		}
 
+		s.operators++
+		if s.operators > maxOperators {
+			s.err = errTooComplex
+			return nil, s.error()
+		}
 		right, err := s.parseBinaryExpr(oprec + 1)
 		if err != nil {
 			return nil, err
@@ -250,6 +268,12 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 		return nil, s.error()
 	}
 
+	s.nesting++
+	if s.nesting > maxNesting {
+		s.err = errTooComplex
+		return nil, s.error()
+	}
+
 	s.resetSign()
 	s.next()
 
@@ -310,6 +334,7 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 		}
 	}
 	s.resetSign()
+	s.nesting--
 	return
 }
 
-- 
2.43.0


From 40b45766b891168f822cbbffef469e7c3b27e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 35/38] fix: indent nested parentheses by one tab per level,
 not by doubling

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index cccf3a6..7fa6675 100644
--- a/format.go
+++ b/format.go
@@ -414,7 +414,7 @@ func (e *ParenExpr) format(w io.StringWriter, padding string, inline bool) {
 			expand = false
 		}
 	}
-	pad2 := padding + padding
+	pad2 := padding + "\t"
 	checkError(w.WriteString("("))
 	if expand {
 		checkError(w.WriteString("\n" + pad2))
-- 
2.43.0


From 7b06885dea039b0e944d53f7e22f6aa20559487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 36/38] fix: calendar values keep their word and brackets
 wherever they stand

A date, time, weekday or month of the WHEN clause was printed bare
(a == 2030-10-02), which reads as arithmetic or not at all, and a range
between two different calendar kinds was printed inside the brackets of
the first.
---
 format.go | 147 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 78 insertions(+), 69 deletions(-)

diff --git a/format.go b/format.go
index 7fa6675..c6f9182 100644
--- a/format.go
+++ b/format.go
@@ -214,27 +214,18 @@ func (e *GeometryCollectionTyp) format(w io.StringWriter, padding string, inline
 }
 
 func (e *Range) format(w io.StringWriter, padding string, inline bool) {
-	switch e.Low.(type) {
-	case *TimeTyp:
-		checkError(w.WriteString("time["))
-		inline = true
-	case *MonthTyp:
-		checkError(w.WriteString("month["))
-		inline = true
-	case *DateTyp:
-		checkError(w.WriteString("date["))
-		inline = true
-	case *WeekdayTyp:
-		checkError(w.WriteString("weekday["))
-		inline = true
+	name := calendarName(e.Low)
+	if len(name) > 0 && name == calendarName(e.High) {
+		checkError(w.WriteString(name + "["))
+		formatCalendar(w, e.Low)
+		checkError(w.WriteString(" .. "))
+		formatCalendar(w, e.High)
+		checkError(w.WriteString("]"))
+		return
 	}
 	e.Low.format(w, padding, inline)
 	checkError(w.WriteString(" .. "))
 	e.High.format(w, padding, inline)
-	switch e.Low.(type) {
-	case *TimeTyp, *MonthTyp, *DateTyp, *WeekdayTyp:
-		checkError(w.WriteString("]"))
-	}
 }
 
 func (e *PercentTyp) format(w io.StringWriter, _ string, _ bool) {
@@ -354,25 +345,30 @@ func (e *GeometryPointTyp) format(w io.StringWriter, padding string, inline bool
 }
 
 func (e *ArrayTyp) format(b io.StringWriter, padding string, inline bool) {
+	var calendar bool
 	switch e.Kind {
 	case TIME:
 		checkError(b.WriteString("time"))
-		inline = true
+		calendar = true
 	case MONTH:
 		checkError(b.WriteString("month"))
-		inline = true
+		calendar = true
 	case DATE:
 		checkError(b.WriteString("date"))
-		inline = true
+		calendar = true
 	case WEEKDAY:
 		checkError(b.WriteString("weekday"))
-		inline = true
+		calendar = true
 	}
 
 	checkError(b.WriteString("["))
 
 	for i, expr := range e.List {
-		expr.format(b, padding, inline)
+		if calendar {
+			formatCalendar(b, expr)
+		} else {
+			expr.format(b, padding, inline)
+		}
 		if i+1 < len(e.List) {
 			checkError(b.WriteString(", "))
 		}
@@ -475,60 +471,73 @@ func (e *IntTyp) format(w io.StringWriter, _ string, _ bool) {
 	checkError(w.WriteString(strconv.Itoa(e.Val)))
 }
 
-func (e *DateTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("date["))
-	}
-	checkError(w.WriteString(d2s(e.Year)))
-	checkError(w.WriteString("-"))
-	checkError(w.WriteString(d2s(e.Month)))
-	checkError(w.WriteString("-"))
-	checkError(w.WriteString(d2s(e.Day)))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
+func (e *DateTyp) format(w io.StringWriter, _ string, _ bool) {
+	checkError(w.WriteString("date["))
+	formatCalendar(w, e)
+	checkError(w.WriteString("]"))
 }
 
-func (e *TimeTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("time["))
-	}
-	if e.U == AM || e.U == PM {
-		checkError(w.WriteString(strconv.Itoa(e.Hours)))
-	} else {
-		checkError(w.WriteString(d2s(e.Hours)))
-	}
-	checkError(w.WriteString(":"))
-	checkError(w.WriteString(d2s(e.Minutes)))
-	if e.Seconds > 0 {
-		checkError(w.WriteString(":"))
-		checkError(w.WriteString(d2s(e.Seconds)))
-	}
-	if e.U == AM || e.U == PM {
-		checkError(w.WriteString(e.U.String()))
-	}
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
+func (e *TimeTyp) format(w io.StringWriter, _ string, _ bool) {
+	checkError(w.WriteString("time["))
+	formatCalendar(w, e)
+	checkError(w.WriteString("]"))
 }
 
-func (e *WeekdayTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("weekday["))
-	}
-	checkError(w.WriteString(shortDayNames[e.Val]))
-	if !inline {
-		checkError(w.WriteString("]"))
-	}
+func (e *WeekdayTyp) format(w io.StringWriter, _ string, _ bool) {
+	checkError(w.WriteString("weekday["))
+	formatCalendar(w, e)
+	checkError(w.WriteString("]"))
+}
+
+func (e *MonthTyp) format(w io.StringWriter, _ string, _ bool) {
+	checkError(w.WriteString("month["))
+	formatCalendar(w, e)
+	checkError(w.WriteString("]"))
 }
 
-func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
-	if !inline {
-		checkError(w.WriteString("month["))
+// calendarName returns the word before the brackets of a calendar value.
+func calendarName(expr Expr) (name string) {
+	switch expr.(type) {
+	case *TimeTyp:
+		name = "time"
+	case *MonthTyp:
+		name = "month"
+	case *DateTyp:
+		name = "date"
+	case *WeekdayTyp:
+		name = "weekday"
 	}
-	checkError(w.WriteString(shortMonthNames[e.Val-1]))
-	if !inline {
-		checkError(w.WriteString("]"))
+	return
+}
+
+// formatCalendar writes a calendar value without its word and brackets.
+func formatCalendar(w io.StringWriter, expr Expr) {
+	switch e := expr.(type) {
+	case *DateTyp:
+		checkError(w.WriteString(d2s(e.Year)))
+		checkError(w.WriteString("-"))
+		checkError(w.WriteString(d2s(e.Month)))
+		checkError(w.WriteString("-"))
+		checkError(w.WriteString(d2s(e.Day)))
+	case *TimeTyp:
+		if e.U == AM || e.U == PM {
+			checkError(w.WriteString(strconv.Itoa(e.Hours)))
+		} else {
+			checkError(w.WriteString(d2s(e.Hours)))
+		}
+		checkError(w.WriteString(":"))
+		checkError(w.WriteString(d2s(e.Minutes)))
+		if e.Seconds > 0 {
+			checkError(w.WriteString(":"))
+			checkError(w.WriteString(d2s(e.Seconds)))
+		}
+		if e.U == AM || e.U == PM {
+			checkError(w.WriteString(e.U.String()))
+		}
+	case *WeekdayTyp:
+		checkError(w.WriteString(shortDayNames[e.Val]))
+	case *MonthTyp:
+		checkError(w.WriteString(shortMonthNames[e.Val-1]))
 	}
 }
 
-- 
2.43.0


From 35dfd6d06297472c9d255cc489c30145a9ac01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 37/38] fix: a range starts where its low bound starts

---
 composite.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 0be8f01..3e0a394 100644
--- a/composite.go
+++ b/composite.go
@@ -88,7 +88,6 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	if isRangeExpr {
 		return nil, s.error()
 	}
-	startPos := s.t.Offset()
 	high, err := s.parseUnaryExpr()
 	if err != nil {
 		return nil, err
@@ -99,7 +98,7 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	return &Range{
 		Low:  low,
 		High: high,
-		lpos: startPos,
+		lpos: low.Pos(),
 		rpos: s.t.Offset(),
 	}, nil
 }
-- 
2.43.0


From deac55a6d68dff2d331f75f6cad43b6e1d124599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 38/38] fix: variables and range bounds have the kind of the
 compound expression they stand for

---
 typecheck.go | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index bc9f3e3..6add99a 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -179,7 +179,7 @@ var rules = map[Token]map[ruleTyp][]ruleTyp{
 func CheckType(stmt Statement, dict Dictionary) (err error) {
 	switch typ := stmt.(type) {
 	case *Trigger:
-		ch := &checker{trigger: typ, dict: dict}
+		ch := &checker{trigger: typ, dict: dict, values: make(map[Expr]Expr)}
 		err = ch.check()
 	}
 	return
@@ -188,6 +188,8 @@ func CheckType(stmt Statement, dict Dictionary) (err error) {
 type checker struct {
 	trigger *Trigger
 	dict    Dictionary
+	values  map[Expr]Expr
+	depth   int
 }
 
 func (tc *checker) check() error {
@@ -264,14 +266,35 @@ func (tc *checker) walk(expr Expr) (Expr, error) {
 	return expr, nil
 }
 
-func (tc *checker) is(rt ruleTyp, in Expr) (ok bool) {
-	if ref, isRef := in.(*Ref); isRef {
-		assign, err := tc.trigger.findAssign(ref.ID)
-		if err != nil {
-			return
+// resolve returns the expression that a variable or a compound expression
+// stands for, nil if it has no value. A variable has none inside its own value.
+func (tc *checker) resolve(in Expr) (out Expr) {
+	switch typ := in.(type) {
+	default:
+		out = in
+	case *Ref:
+		assign, err := tc.trigger.findAssign(typ.ID)
+		if err == nil && tc.depth < maxNesting {
+			tc.depth++
+			out = tc.resolve(assign.Right)
+			tc.depth--
 		}
-		in = assign.Right
+	case *ParenExpr, *BinaryExpr:
+		val, ok := tc.values[in]
+		if ok {
+			return val
+		}
+		tc.values[in] = nil
+		if val, err := tc.walk(in); err == nil {
+			out = tc.resolve(val)
+		}
+		tc.values[in] = out
 	}
+	return
+}
+
+func (tc *checker) is(rt ruleTyp, in Expr) (ok bool) {
+	in = tc.resolve(in)
 	switch rt {
 	case isGeometry:
 		ok = tc.isGeometry(in)
@@ -394,13 +417,14 @@ func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 	if !ok {
 		return
 	}
+	low, high := tc.resolve(range_.Low), tc.resolve(range_.High)
 	switch typ {
 	case INT:
-		return tc.isInt(range_.Low) && tc.isNumber(range_.High)
+		return tc.isInt(low) && tc.isNumber(high)
 	case FLOAT:
-		return tc.isFloat(range_.Low) && tc.isNumber(range_.High)
+		return tc.isFloat(low) && tc.isNumber(high)
 	case STRING:
-		return tc.isString(range_.Low) && tc.isString(range_.High)
+		return tc.isString(low) && tc.isString(high)
 	}
 	return
 }
@@ -435,6 +459,7 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 	}
 
 	for _, item := range items {
+		item = tc.resolve(item)
 		switch typ {
 		case BOOLEAN:
 			ok = tc.isBoolean(item)
-- 
2.43.0

