AI = "abstract interpretation (dataflow fixpoint over go/ssa)"
CLAIMS = {
 "C13": (AI + " against a grammar of the notation per node type",
   "the text every format function writes is derived symbolically for an arbitrary node and matched, on all paths, with the notation the parser reads for that node; parts of nodes by structural induction"),
 "C14": ("dataflow lint of loops over maps and of sources of nondeterminism, " + AI,
   "all functions; loops over maps of the package are interpreted for every key that can come first, other map loops must be commutative, sorted before use or leave early independently of the element"),
 "C15": (AI + " with a typestate of the writer (working, failed)",
   "every write of every path fails once: nothing may be written after it and exactly that error must be returned"),
 "C16": (AI + " with ownership of memory (input, package, own), effect lint for package state",
   "every store, append, copy and map update on all paths of Format and Walk and every store to package state anywhere"),
 "C18": (AI + " with choice-indexed values; the result for every pair of operand forms is compared with the typing relation",
   "CheckType is interpreted for every operator and all pairs of operand forms (244 forms: literals, arrays of any length, ranges, selectors, variables, parentheses, compound expressions), in every iteration order of its rule maps; operands of operands by induction on the value yielded for compound expressions"),
 "C19": (AI + " with choice-indexed values; forms that denote the same kind must be judged alike",
   "the same run: forms that go through variables, declared selectors, parentheses and compound expressions are paired with the plain form of the same kind"),
 "C17": (AI + " against a traversal automaton per node type",
   "the calls of the visitor for an arbitrary node are derived on all paths and matched with pre-order traversal of all present parts; parts of nodes by structural induction"),
}
CLAIMS.update({
 "C01": (AI + " over sentences of symbolic lexemes",
   "bounded: all sequences of up to three lexemes (and of two or three after `trigger when` and `trigger set`), and 46 sentence forms covering every construct with any lexeme, the end of input, failing number conversions or a lexical error in any one place; every alternative of every lexeme at once"),
 "C02": (AI + " over sentences of symbolic lexemes; every index, slice, assertion, dereference and explicit panic on the way is an obligation",
   "bounded as C01; the lexeme classes are all words the program knows in any letter case, unknown words by first letter, all characters, numbers, strings"),
 "C04": (AI + " over sentences of symbolic lexemes",
   "bounded as C01"),
 "C05": (AI + " over sentences of symbolic lexemes, one place at a time open to any lexeme",
   "bounded: 46 sentence forms of all constructs; in every place any lexeme or the end of the input is tried and only the documented alternatives may be accepted"),
 "C07": (AI + " over sentences of symbolic lexemes with symbolic numbers",
   "bounded: 150 sentence forms with signs in every kind of place (operands, lists, ranges, parentheses, coordinates, all units); holds for all values of the numbers"),
 "C08": (AI + " over sentences of symbolic lexemes with interval analysis of the unknown numbers",
   "bounded: 18 forms of dates, times, weekdays and months (alone, two in a list, ranges; thorough: lists of three), any lexeme in each place; holds for all values of the numbers"),
 "C23": (AI + " over sentences of symbolic lexemes with symbolic values",
   "bounded: 80 sentence forms; numbers alone, in lists, ranges, dates, times, coordinates and with the units whose word is decided by its letters, strings, booleans, names of variables and selectors; values of durations (time.ParseDuration) are not followed"),
 "C09": (AI + " over sentences of symbolic operators; the tree is compared with grouping by the documented levels",
   "bounded: up to three operators (thorough: four), with and without parentheses, all operators at once; the level of every token separately"),
 "C10": (AI + " of the tokenizer over a source of unknown lexemes, compared with the documented token table",
   "every lexeme class, alone and before every other, from every state the tokenizer is left in by one or two Scans, Reset or Unwind; spelling of every operator"),
 "C11": (AI + " over sentences of symbolic lexemes; units and kinds compared with the documented table",
   "every word after a number and in a time, in any letter case; the printed form of every unit"),
 "C12": (AI + " over sentences of symbolic lexemes and of the format functions",
   "every word in a weekday or month, alone, in lists of up to three and in ranges; printed names for all values"),
 "C20": (AI + " over sentences of symbolic lexemes",
   "bounded: up to three assignments whose names are equal, differ, or differ in letter case only; variables and lists of variables as values; lookup by exact name is part of C19"),
 "C24": (AI + " over sentences of symbolic lexemes with a scanner that reports an error at any lexeme",
   "bounded: 46 sentence forms of all constructs, the error at any one lexeme"),
})
NA = {
 "C03": "Deciding it for every input needs an invariant of the recursive-descent parser over unbounded lexeme sequences; the abstract interpretation of Parse over such sequences (run parse, kept in the tool) does not converge within a check's budget, because the parser's loops are bounded only by the token queue's contents. The bounded sentence runs end on every form they interpret, which is no proof of termination, so nothing is claimed.",
 "C06": "Deciding it for every input needs an invariant of the recursive-descent parser over unbounded lexeme sequences; the abstract interpretation of Parse over such sequences (run parse, kept in the tool) does not converge within a check's budget, because the parser's loops are bounded only by the token queue's contents. The sentence runs decide the order and nesting only for operators (C09), assignments (C20) and the parts named in C05; that is too little for 'every element exactly once', so nothing is claimed.",
 "C21": "Deciding it for every input needs an invariant of the recursive-descent parser over unbounded lexeme sequences; the abstract interpretation of Parse over such sequences (run parse, kept in the tool) does not converge within a check's budget, because the parser's loops are bounded only by the token queue's contents. The mandatory parts are decided on the bounded sentence forms under C05 and for hand-built trees by the printer, walker and checker runs (C13-C19); the element-kind agreement of arrays of any length is not.",
 "C22": "The positions are runtime offsets produced by text/scanner; comparing them along a parse needs a numeric order invariant over the token queue, which the interpreter's abstract offsets do not carry.",
 "C23": 'The value of a literal is a function of the digits or characters of its lexeme through strconv and slicing; which lexeme reaches which field is followed by the interpreter, the conversion itself is a runtime quantity no static argument in reach bounds.',
 "C25": "Deciding it for every input needs an invariant of the recursive-descent parser over unbounded lexeme sequences; the abstract interpretation of Parse over such sequences (run parse, kept in the tool) does not converge within a check's budget, because the parser's loops are bounded only by the token queue's contents. The depth counter of the parser is a runtime quantity whose bound holds only together with that invariant.",
 "C26": "Numeric round trips quantify over all float values through strconv's rounding; no static argument in reach bounds them (which conversion and format calls the printer uses is covered by C13).",
 "C27": "Needs a relational invariant between buffer offsets and the text over all chunkings of the reader; outside what a sound static analysis in reach can establish for this scanner.",
 "C28": "Asymptotic cost is not decidable by the analyses used here; it would need amortised arguments over the scanner and the token queue.",
}
