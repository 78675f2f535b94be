import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
ALLP=["parser.go","composite.go","primitive.go","datetime.go","geometry.go","token.go"]
p("C01","A parse yields exactly one of a statement or an error",
 "For every input text, parsing returns either a usable trigger statement and no error, or no statement at all (the nil interface) and a structured syntax error; never both, never neither, and never a statement value that wraps nothing.",
 ["inputs"],"every input string",
 "The tests check a few dozen texts and only whether the error is nil; they never look at the statement of a failed parse.",
 ALLP,[("error/result protocol of every parse function","parser.go Parse, parse0, parseTriggerStmt, error")],["result pair of Parse"])
p("C02","No input or tree makes the library panic",
 "Parsing any text, and formatting, type-checking, walking or asking positions of any statement obtained from a parse, never panics: no index is out of range, no absent part is dereferenced, no type assertion fails.",
 ["inputs"],"every input string and every statement a parse can return",
 "Panics need an unusual token in an unusual place or an unusual tree (a month after July, an empty list, an absent radius); the samples do not contain them.",
 ALLP+["format.go","typecheck.go","walk.go","ast.go"],[("guards before each index, dereference and assertion","all files")],["Parse, Format, CheckType, Walk, Pos, End"])
p("C03","Parsing always terminates",
 "Parsing finishes on every input, including one that ends in the middle of any construct: every repetition in the parser either consumes a token or counts towards a fixed bound, and the end of the input stops all of them.",
 ["inputs"],"every input string, truncated anywhere",
 "A loop that spins at the end of the input is only seen when the input stops inside that very construct; tests stop in a handful of places.",
 ALLP,[("loops reading tokens","all parse functions")],["Parse returns"])
p("C04","A successful parse covers the whole input",
 "When a parse succeeds, every token of the input up to its end belongs to the returned statement; nothing is left unread after it, and a trailing or unrelated token makes the parse fail.",
 ["inputs"],"every input string",
 "A negative, universally quantified claim: tests try no trailing text.",
 ["parser.go"],[("end-of-input check","parser.go parseTriggerStmt")],["Parse success vs. the token sequence"])
p("C05","Constructs are accepted only with their delimiters, separators and keywords",
 "A successful parse implies that every bracket, brace and parenthesis is matched by its closer, every separator, assignment sign, colon and clause word (every, after, range dots, date dashes, time colons) stands where the grammar puts it, and no construct is accepted truncated.",
 ["inputs"],"every input string",
 "Needs malformed variants of every construct at every position; tests have a few per construct.",
 ALLP,[("expected-token checks","all parse functions")],["Parse success vs. the token sequence"])
p("C06","The tree mirrors the token sequence",
 "In the tree of a successful parse every operand, element, bound, property, argument and clause of the text appears exactly once, at the place and in the order in which it was written, in a node of the kind its tokens denote: nothing is dropped, duplicated, reordered, merged or invented.",
 ["inputs"],"every input string",
 "Tests compare counts or single fields of hand-picked inputs, rarely order or completeness.",
 ALLP,[("construction of nodes from operands","all parse functions")],["tree returned by Parse vs. the token sequence"])
p("C07","A sign applies to the number right after it and to nothing else",
 "A leading plus or minus changes exactly the number literal that immediately follows it, a minus before a value of a unit that cannot be negative (percent, distance, speed, pressure, duration) or before anything that is not a number is an error, and no sign is ever carried over to another operand or lost.",
 ["inputs"],"every input string",
 "The sign is parser state that outlives one token; leaks need a combination of two operands the tests do not write.",
 ["parser.go","primitive.go","geometry.go"],[("sign state","parser.go parseUnaryExpr; geometry.go parseGeometryExpr")],["number values of the tree vs. sign tokens"])
p("C08","Calendar values in a tree are always in range",
 "Every date of an accepted text has year 2022 to 2200, month 1 to 12 and day 1 to 31; every time has hours 0 to 24, minutes and seconds 0 to 59; every weekday is 0 (Sunday) to 6 and every month 1 to 12.",
 ["inputs"],"every input string",
 "Tests sample a few values outside one bound at a time; the claim is over all integers in all fields, including elements of arrays and ranges.",
 ["datetime.go"],[("range checks","datetime.go parseDateExpr, parseTimeExpr, parseWeekdayExpr, parseMonthExpr")],["calendar nodes of the tree"])
p("C09","Operators nest by documented precedence and associate to the left",
 "For every sequence of operands and binary operators, the tree groups them by the documented precedence (or < and < comparisons, in, nearby, intersects and their negations < + - < * / rem), equal precedence grouping to the left, and parentheses override.",
 ["inputs"],"every sequence of operators and operands",
 "Sequences are unbounded, and no test inspects the shape of an operator tree.",
 ["parser.go","token.go"],[("precedence climbing","parser.go parseBinaryExpr"),("precedence table","token.go Precedence")],["operator nodes of the tree"])
p("C10","Words and symbols denote the documented tokens in any letter case",
 "The tokenizer maps every keyword (in any letter case), two-word operator and one- or two-character symbol to its documented token, every other word to a selector, and any other character to an illegal token; the spelling the library prints for an operator is read back as that operator; a token read ahead is never lost or repeated.",
 ["inputs"],"every lexeme and every pair of adjacent lexemes",
 "The table of spellings times letter cases times following lexeme is not sampled; tests read each keyword once, mostly with a space after it.",
 ["token.go","keyword.go"],[("tokenizer switch and lookahead","token.go Scan, next, Reset, Unwind"),("keyword tables","keyword.go")],["Tokenizer.Scan, KeywordString"])
p("C11","Unit spellings, unit values and printed units agree",
 "Every spelling accepted as a unit of some kind denotes a known unit of that same kind, the unit printed for a value is accepted again and denotes the same unit and kind, and no spelling belongs to two kinds.",
 ["inputs"],"every unit spelling and every unit value",
 "A closed table property: each test uses one spelling.",
 ["units.go","primitive.go","datetime.go"],[("unit tables","units.go")],["unit of parsed values, printed units"])
p("C12","Weekday and month names agree between parsing and formatting",
 "The name printed for a weekday or month value is the English short name of that value and is the name that parses to it, for all 7 days and all 12 months.",
 ["inputs"],"all 7 weekdays and 12 months",
 "Tests format January and July only and compare nothing but the absence of an error.",
 ["datetime.go","format.go"],[("name tables","datetime.go, format.go")],["names printed by Format, values stored by Parse"])
p("C13","Formatting writes the whole statement in parsable syntax",
 "For every statement a parse can return, the formatted text is in the input syntax and contains every semantic part of the statement exactly once and in order: all variables, operands, operators, elements, coordinates, units, signs, selector arguments, properties and clauses, with the delimiters and separators that make it parse to the same tree.",
 ["inputs"],"every statement a parse can return, of every size",
 "One formatted document is re-parsed by the tests and nothing of it is compared; lists of any length and optional parts in any combination are out of reach.",
 ["format.go","ast.go"],[("format methods","format.go")],["text written by Format"])
p("C14","Results do not depend on map iteration order",
 "Formatting, type checking, walking and parsing give the same result every time for the same input: no output, verdict or error depends on the iteration order of a map or on any other source of nondeterminism.",
 ["inputs","schedules"],"every input and every iteration order",
 "Map order is chosen by the runtime; a test run sees one order.",
 ["format.go","typecheck.go","keyword.go","ast.go"],[("iterations over maps","Selector.format, checker.eval, keyword init")],["Format output, CheckType verdict, keyword tables"])
p("C15","A failing writer makes formatting fail and stop",
 "If any write fails while formatting, the formatter returns that error and writes nothing more; it never reports success after a failed write.",
 ["fault_sequences"],"every position at which a write can fail",
 "No test formats into a failing writer.",
 ["format.go","ast.go"],[("write-error protocol","format.go checkError, formatTriggerStmt")],["error returned by Format"])
p("C16","Formatting, checking and walking do not modify anything",
 "Formatting, type checking, walking and position queries never modify the statement, the dictionary or any package state, and parsing modifies no package state, so statements can be shared and parses can run concurrently.",
 ["schedules","inputs"],"every statement and every interleaving of concurrent calls",
 "No test compares a statement before and after, or runs two calls concurrently.",
 ["format.go","typecheck.go","walk.go","keyword.go"],[("absence of writes to shared memory","all non-constructor functions")],["stores reachable from the exported API"])
p("C17","Walking visits every part once, in order, with balanced notifications",
 "Walking a tree calls the visitor on the node, then on every part of it exactly once in source order, then once with nil; absent parts are not visited, a visitor that returns nil prunes the parts and the closing nil, and the parts are visited with the visitor returned for the node.",
 ["inputs"],"every statement a parse can return and every visitor",
 "Tests look for a few node kinds below a few parents.",
 ["walk.go"],[("Walk","walk.go")],["sequence of Visit calls"])
p("C18","Operator typing follows one table",
 "The type checker accepts a binary expression exactly when the operator admits the kinds of its two operands by the documented table, where operators and their aliases and negations admit the same kinds, and gives the result the documented kind (boolean for comparisons and logic, int for int arithmetic, float as soon as one side is float, string for string addition); every other combination is an error.",
 ["inputs"],"every operator and every pair of operand kinds, at any nesting depth",
 "21 operators times pairs of about 40 operand forms; the tests cover a few dozen combinations and never the result kind.",
 ["typecheck.go"],[("rules table and toExpr","typecheck.go rules, eval, is, toExpr")],["verdict of CheckType"])
p("C19","Type checking sees through variables, selectors and parentheses",
 "A variable has the kind of the value assigned to it, a selector the kind the dictionary declares, a parenthesised expression the kind of its content; an undeclared selector or unassigned variable has no kind and is an error in every operation, and an error inside any operand is the error of the whole.",
 ["inputs"],"every expression and dictionary",
 "Tests use one variable or selector on the right side only.",
 ["typecheck.go","ast.go"],[("operand classification","typecheck.go is*, getSelectorType, walk; ast.go findAssign")],["verdict of CheckType"])
p("C20","Variables are assigned once and found by their exact name",
 "A statement never holds two assignments of one variable name; a second assignment fails and leaves the first; looking a variable up returns the assignment of exactly that name or an error when there is none; a variable is never assigned another variable or an array of variables.",
 ["inputs","histories"],"every sequence of assignments and lookups",
 "Tests try one duplicate and one alias; the claim is over sequences of any length.",
 ["ast.go","parser.go"],[("SetVar, isAssigned, findAssign","ast.go"),("parseSet","parser.go")],["Trigger.Vars, SetVar, lookup"])
p("C21","Trees are well formed",
 "Every node of the tree of a successful parse has its mandatory parts, lists that must not be empty are not empty, every array holds elements of the single kind it declares, multi-objects hold only objects of their kind, ranges do not nest, and repeat and reset clauses hold an integer and durations.",
 ["inputs"],"every input string",
 "An invariant over all trees; tests look at a few.",
 ALLP,[("node construction","all parse functions")],["tree returned by Parse"])
p("C22","Nodes carry the source positions of their own text",
 "Every node of a parsed tree has a start and an end position taken from the text of that node itself, the start not after the node's first operand and the end not before it; operators and assignments report the start of their left and the end of their right part.",
 ["inputs"],"every node of every tree",
 "Position tests cover some node kinds at one place; unset positions read as zero and go unnoticed.",
 ["ast.go"]+ALLP,[("lpos/rpos assignments and Pos/End methods","ast.go, parse functions")],["Pos and End of nodes"])
p("C23","Literals hold exactly the value written",
 "Every literal of an accepted text is stored as the value of its own token: numbers converted from their digits with conversion failures reported as errors, strings without their delimiting quotes and nothing else, booleans, names, units and the components of dates, times and coordinates each in its own field.",
 ["inputs"],"every literal in every position",
 "Value mix-ups (component order, neighbour token, ignored conversion error) show only for values where the mix-up matters; tests use equal or symmetric samples.",
 ["primitive.go","datetime.go","geometry.go","composite.go"],[("literal conversion","primitive.go, datetime.go, geometry.go, parser.go trim")],["literal fields of the tree"])
p("C24","Lexical errors always fail the parse",
 "An input containing an unterminated string, an invalid escape, an invalid UTF-8 byte, a NUL or an unreadable source never parses successfully, wherever in the text it occurs: the scanner reports each such error and the parser never ignores a reported one.",
 ["inputs","fault_sequences"],"every input string and every position of the error",
 "No test contains a lexical error.",
 ["scanner/scanner.go","token.go","parser.go"],[("error callback","token.go NewTokenizer; scanner error"),("error check","parser.go parseUnaryExpr, parseTriggerStmt")],["Parse error"])
p("C25","Nesting is bounded, so recursion cannot exhaust the stack",
 "Every recursive descent of the parser is limited by a fixed nesting bound, and the number of operators in one expression is bounded, so that an input of any length is either rejected or gives a tree of bounded height that can be formatted, checked and walked.",
 ["inputs"],"every input string of any length",
 "Stack exhaustion kills the process and needs inputs of millions of characters.",
 ["parser.go"],[("nesting and operator limits","parser.go parseUnaryExpr, parseBinaryExpr")],["Parse error on deep input"])
p("C26","Formatting and re-parsing preserve numeric values exactly",
 "For every accepted number, formatting it and parsing the result gives the identical floating point or integer value.",
 ["inputs"],"every number",
 "Numeric round trips range over all float values.",
 ["format.go","primitive.go"],[("formatFloat, ParseFloat","format.go, primitive.go")],["values after a round trip"])
p("C27","Tokenization does not depend on buffer boundaries",
 "The token sequence of a text is the same however the reader splits the text into chunks and wherever tokens fall relative to the scanner's buffer.",
 ["inputs","schedules"],"every text and every chunking of the reader",
 "Tests read short strings through one reader.",
 ["scanner/scanner.go"],[("source and token buffers","scanner/scanner.go next, TokenText")],["Tokenizer.Scan over any reader"])
p("C28","Time and memory are linear in the input",
 "Parsing, formatting and checking take time and memory proportional to the size of the input.",
 ["inputs"],"every input",
 "Asymptotic cost cannot be seen on short samples.",
 ["parser.go","format.go"],[("loops and buffers","all files")],["cost"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
