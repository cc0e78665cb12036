------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties, as predicates on LaTeX *text* (a string, as observed)   *)
(* and on element trees.  The same predicates are invariants of the model  *)
(* and clauses of the trace specification.                                 *)
(***************************************************************************)
EXTENDS Markup

------------------------------------------------------------------------------
(* C04: one trimmed line with single spaces *)
Hygienic(cs) ==
  /\ cs # <<>> => (cs[1] # Space /\ cs[Len(cs)] # Space)
  /\ \A i \in DOMAIN cs : IsWs(cs[i]) => (cs[i] = Space /\ (i > 1 => cs[i - 1] # Space))

------------------------------------------------------------------------------
(* C19: balanced braces and environments *)

\* Scan: depth of braces and open environments [name, depth at which it began].
\* A command is a backslash and the letters after it, or one other character.
BraceStart == [depth |-> 0, open |-> <<>>, ok |-> TRUE, skip |-> 0]

\* Index of the closing brace of the group that starts at i (a simple name).
CloseOf(cs, i) == CHOOSE j \in i..Len(cs) : cs[j] = "}" /\ \A m \in i..(j - 1) : cs[m] # "}"
HasClose(cs, i) == \E j \in i..Len(cs) : cs[j] = "}"
StartsAt(cs, i, w) == i + Len(w) - 1 <= Len(cs) /\ \A j \in 1..Len(w) : cs[i + j - 1] = SubSeq(w, j, j)

BraceStep(cs, s, i) ==
  IF s.skip > 0 THEN [s EXCEPT !.skip = @ - 1]
  ELSE IF ~s.ok THEN s
  ELSE IF StartsAt(cs, i, "\\begin{") /\ HasClose(cs, i)
  THEN [s EXCEPT !.open = Append(@, [name |-> SubSeq(cs, i + 7, CloseOf(cs, i) - 1), depth |-> s.depth]),
                 !.skip = CloseOf(cs, i) - i]
  ELSE IF StartsAt(cs, i, "\\end{") /\ HasClose(cs, i)
  THEN IF s.open # <<>> /\ s.open[Len(s.open)]
                            = [name |-> SubSeq(cs, i + 5, CloseOf(cs, i) - 1), depth |-> s.depth]
       THEN [s EXCEPT !.open = SubSeq(@, 1, Len(@) - 1), !.skip = CloseOf(cs, i) - i]
       ELSE [s EXCEPT !.ok = FALSE]
  ELSE IF cs[i] = "\\" THEN [s EXCEPT !.skip = 1]
  ELSE IF cs[i] = "{" THEN [s EXCEPT !.depth = @ + 1]
  ELSE IF cs[i] = "}" THEN [s EXCEPT !.depth = @ - 1, !.ok = s.depth > 0]
  ELSE s
Braces(cs) == FoldLeft(LAMBDA s, i : BraceStep(cs, s, i), BraceStart, Indices(cs))
Balanced(cs) == LET s == Braces(cs) IN s.ok /\ s.depth = 0 /\ s.open = <<>>

\* No user-supplied text that ends up in the LaTeX as it is has braces or backslashes.
Bad == {"{", "}", "\\"}
NoBad(cs) == \A i \in DOMAIN cs : cs[i] \notin Bad
RECURSIVE Tame(_)
Tame(n) == /\ n.t \in TokenTags => NoBad(n.x)
           /\ n.t = "mfenced" => \A a \in {"open", "close", "separators"} : NoBad(Attr(n, a))
           /\ \A i \in DOMAIN n.k : Tame(n.k[i])

------------------------------------------------------------------------------
(* C20: order and number of tokens *)

\* The visible token elements of a tree in the order of the LaTeX.
LatexOrder(n) ==
  LET p == Plan(n)
      np == IF n.t = "mmultiscripts" THEN Len(PrePair(n)) ELSE 0
  IN CASE n.t \in {"mroot", "munder", "mover"} -> <<2, 1>>
       [] n.t = "mmultiscripts" ->
            SubSeq(p, 2, np + 1) \o <<1>> \o SubSeq(p, np + 2, Len(p))
       [] OTHER -> p
RECURSIVE VisibleTokens(_)
VisibleTokens(n) ==
  IF n.t \in TokenTags THEN <<n>>
  ELSE LET p == LatexOrder(n) IN Concat([i \in DOMAIN p |-> VisibleTokens(n.k[p[i]])])

\* Marks: characters that no construct of the LaTeX contains by itself.
MarkChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9",
              "A", "C", "D", "E", "F", "G", "H", "I", "J", "K", "M", "N", "O", "P", "Q",
              "R", "S", "T", "U", "W", "X", "Y", "Z"}
Marks(cs) == SelectSeq(cs, LAMBDA c : c \in MarkChars)
\* Tokens made of mark characters (and spaces) only.
IsMarkText(cs) == \A i \in DOMAIN cs : cs[i] \in MarkChars \/ IsWs(cs[i])
RECURSIVE OnlyMarks(_)
OnlyMarks(n) == /\ n.t \in TokenTags => IsMarkText(n.x)
                /\ n.t = "mfenced" => \A a \in {"open", "close", "separators"} : Marks(Attr(n, a)) = <<>>
                /\ \A i \in DOMAIN n.k : OnlyMarks(n.k[i])
MarksOf(n) == LET ts == VisibleTokens(n) IN Concat([i \in DOMAIN ts |-> Marks(ts[i].x)])
\* Every visible mark exactly once, in order, and no hidden one.
KeepsMarks(forest, cs) == Marks(cs) = Concat([i \in DOMAIN forest |-> MarksOf(forest[i])])

\* For arbitrary tokens: their translations occur one after the other.
LeafTex(n) == Template(n, <<>>, FALSE)
\* Position after the first occurrence of w (a sequence of characters) in cs from i on; 0: none.
FindFrom(cs, w, i) ==
  IF w = <<>> THEN i
  ELSE IF \E j \in i..(Len(cs) - Len(w) + 1) : \A m \in DOMAIN w : cs[j + m - 1] = w[m]
  THEN Len(w) + CHOOSE j \in i..(Len(cs) - Len(w) + 1) :
         /\ \A m \in DOMAIN w : cs[j + m - 1] = w[m]
         /\ \A j2 \in i..(j - 1) : \E m \in DOMAIN w : cs[j2 + m - 1] # w[m]
  ELSE 0
OccursInOrder(forest, cs) ==
  LET leaves == Concat([i \in DOMAIN forest |-> VisibleTokens(forest[i])])
      step(at, n) == IF at = 0 THEN 0
                     ELSE FindFrom(cs, TokenChars(Normalise(LeafTex(n))), at)
  IN FoldLeft(step, 1, leaves) # 0

------------------------------------------------------------------------------
(* C21: independence of the context *)

\* The placeholder is an identifier with this content.
PlaceText == <<"Q", "Z">>
Placeholder == Leaf("mi", PlaceText)
RECURSIVE At(_, _), Replace(_, _, _)
At(n, path) == IF path = <<>> THEN n ELSE At(n.k[path[1]], Tail(path))
Replace(n, path, sub) ==
  IF path = <<>> THEN sub
  ELSE [n EXCEPT !.k[path[1]] = Replace(@, Tail(path), sub)]

\* Position i of n, holding c, is converted and n's form does not depend on what
\* c is (the documented context rules): it may be exchanged with a placeholder
\* that is one token of more than one character.
Exchangeable(n, i, c) ==
  /\ ChildCountError(n) = NoError
  /\ \E j \in DOMAIN Plan(n) : Plan(n)[j] = i
  /\ n.t \in ScriptTags => (i # 1 \/ Len(c.k) <= 1)
  /\ n.t = "mfrac" => (AttrStr(n, "bevelled") \in {"", "false"}
                       \/ LongerThanOne(Tex(c, FALSE)))
  /\ n.t = "mmultiscripts" =>
       (c.t # "mprescripts" /\ (i # 1 \/ \A j \in DOMAIN Tex(c, FALSE) : ~IsWs(Tex(c, FALSE)[j])))
  /\ n.t \in {"munder", "mover"} =>
       (i # 2 \/ ~\E a \in Accents : Spells(Tex(c, FALSE), a))
\* Whether the base of a script is empty or ends with a script does not change.
ScriptBases == ScriptTags \cup {"munderover", "mmultiscripts"}
BaseForm(c) == LET ts == Tex(c, FALSE) IN IF Blank(ts) THEN "none" ELSE IF EndsInScript(ts) THEN "scripted" ELSE "plain"
SameBase(n, path) == n.t \in ScriptBases /\ path[1] = 1 => BaseForm(n.k[1]) = BaseForm(Replace(n.k[1], Tail(path), Placeholder))
HasTable(n) == n.t = "mtable" \/ HasBelow(n, "mtable")
\* Replacing the element at path by such a placeholder only replaces its LaTeX.
RECURSIVE ExchangeableAt(_, _)
ExchangeableAt(n, path) ==
  IF path = <<>> THEN TRUE
  ELSE /\ SameBase(n, path)
       /\ IF Len(path) = 1 THEN Exchangeable(n, path[1], n.k[path[1]])
          ELSE /\ \E j \in DOMAIN Plan(n) : Plan(n)[j] = path[1]
               /\ ChildCountError(n) = NoError
               \* the placeholder deeper below must not change n's own decision
               /\ \/ Exchangeable(n, path[1], n.k[path[1]])
                  \/ /\ n.t \in ScriptTags
                     /\ LongerThanOne(Tex(n.k[path[1]], FALSE))
       /\ ExchangeableAt(n.k[path[1]], Tail(path))
ContextFree(n, path) ==
  /\ path # <<>>
  /\ ExchangeableAt(n, path)
  /\ ~HasTable(At(n, path))
  /\ LET ink == SelectSeq(Tex(At(n, path), FALSE), LAMBDA t : t # "")
     IN ink # <<>> => (~IsWs(ink[1]) /\ ~IsWs(ink[Len(ink)]))

\* cs with every placeholder replaced by sub.
PlaceAt(cs, i) == i >= 1 /\ i < Len(cs) /\ cs[i] = PlaceText[1] /\ cs[i + 1] = PlaceText[2]
Places(cs) == Cardinality({i \in DOMAIN cs : PlaceAt(cs, i)})
Substitute(cs, sub) ==
  Concat([i \in DOMAIN cs |-> IF PlaceAt(cs, i) THEN sub
                              ELSE IF PlaceAt(cs, i - 1) THEN <<>> ELSE <<cs[i]>>])

------------------------------------------------------------------------------
(* C22: what the LaTeX may depend on *)

\* The attributes that mean something.
Meaningful(t) ==
  CASE t \in {"mi", "mtext"} -> {"mathvariant"}
    [] t = "mfenced"  -> {"open", "close", "separators"}
    [] t = "menclose" -> {"notation"}
    [] t = "mfrac"    -> {"bevelled"}
    [] t = "maction"  -> {"actiontype"}
    [] OTHER -> {}
\* A tree without anything else: its elements, its token texts, these attributes.
RECURSIVE Essence(_)
Essence(n) ==
  [t |-> n.t, a |-> {<<n.a[i][1], Str(n.a[i][2])>> : i \in {i \in DOMAIN n.a : n.a[i][1] \in Meaningful(n.t)}},
   x |-> IF n.t \in TokenTags THEN n.x ELSE <<>>, k |-> Seq1([i \in DOMAIN n.k |-> Essence(n.k[i])])]
EssenceOf(forest) == Seq1([i \in DOMAIN forest |-> Essence(forest[i])])

------------------------------------------------------------------------------
(* C23: commands stay whole *)

\* The control words of a text: a backslash and all the letters that follow.
WordStep(cs, s, i) ==
  IF s.skip THEN [s EXCEPT !.skip = FALSE, !.word = ""]          \* an escaped character
  ELSE IF cs[i] \in Letters /\ s.word # "" THEN [s EXCEPT !.word = @ \o cs[i]]
  ELSE LET t == [s EXCEPT !.all = IF s.word # "" THEN @ \cup {s.word} ELSE @, !.word = ""]
       IN IF cs[i] # "\\" THEN t
          ELSE IF i < Len(cs) /\ cs[i + 1] \in Letters THEN [t EXCEPT !.word = "\\"]
          ELSE [t EXCEPT !.skip = TRUE]
ControlWords(cs) ==
  LET s == FoldLeft(LAMBDA s, i : WordStep(cs, s, i), [skip |-> FALSE, word |-> "", all |-> {}], Indices(cs))
  IN s.all \cup (IF s.word # "" THEN {s.word} ELSE {})

\* Those that occur in the tables and the templates.
TemplateWords ==
  {"\\frac", "\\left", "\\right", "\\sqrt", "\\underset", "\\overset", "\\overline", "\\underline", "\\boxed", "\\cancel", "\\bcancel",
   "\\cancelto", "\\hcancel", "\\angle", "\\begin", "\\end", "\\color", "\\Longrightarrow", "\\mathbf", "\\mathit", "\\mathbb", "\\mathfrak",
   "\\mathcal", "\\mathsf", "\\mathtt", "\\text", "\\textbf", "\\textit"}
TableWords(z) == UNION {ControlWords(TokenChars(IdTable[k])) : k \in IdKeys} \cup UNION {ControlWords(TokenChars(OpTable[k])) : k \in OpKeys}
                 \cup UNION {ControlWords(TokenChars(NumberTable[k])) : k \in NumKeys}
CommandWords == TLCEval(TemplateWords \cup TableWords(0))
WholeCommands(cs) == ControlWords(cs) \subseteq CommandWords

\* No text of the document brings a command along, or letters that would extend one.
RECURSIVE Wordless(_)
Wordless(n) == /\ n.t \in TokenTags => \A i \in DOMAIN n.x : n.x[i] # "\\"
               /\ n.t = "mfenced" => \A a \in {"open", "close", "separators"} :
                                       \A i \in DOMAIN Attr(n, a) : Attr(n, a)[i] \notin Letters \cup {"\\"}
               /\ \A i \in DOMAIN n.k : Wordless(n.k[i])

------------------------------------------------------------------------------
KnownTags == {"math", "mi", "mo", "mn", "mtext", "msup", "msub", "msubsup", "mfrac",
              "msqrt", "mroot", "munder", "mover", "munderover", "mmultiscripts", "mfenced",
              "mtable", "mtr", "menclose", "merror", "mphantom", "maction"}

(* C25: grouping means nothing *)

\* Elements that do nothing but group, and those whose children form a row.
IsGroup(n) == n.t \notin KnownTags /\ n.k # <<>>
IsRow(n)   == n.t \notin KnownTags \/ n.t \in {"math", "msqrt", "menclose", "merror"}

\* A tree with as few groups as possible.  The base of a script keeps its own
\* children (it matters whether there is more than one), and the children of
\* mmultiscripts stay what they are (it matters which ones are mprescripts).
RECURSIVE Ungrouped(_, _), Flat(_, _)
Ungrouped(n, isBase) ==
  IF IsGroup(n) /\ Len(n.k) = 1 /\ (isBase => Len(n.k[1].k) <= 1) THEN Ungrouped(n.k[1], isBase) ELSE n
Flat(n, isBase) ==
  IF n.t \in TokenTags THEN n
  ELSE LET base(i) == i = 1 /\ n.t \in ScriptTags
           kid(i)  == IF n.t = "mmultiscripts" THEN Flat(n.k[i], FALSE)
                      ELSE IF IsRow(n) THEN Flat(n.k[i], FALSE)
                      ELSE Flat(Ungrouped(n.k[i], base(i)), base(i))
       IN [n EXCEPT !.k = IF IsRow(n) /\ ~isBase
                          THEN Concat([i \in DOMAIN n.k |-> IF IsGroup(n.k[i]) THEN kid(i).k ELSE <<kid(i)>>])
                          ELSE Seq1([i \in DOMAIN n.k |-> kid(i)])]
FlatOf(forest) == Seq1([i \in DOMAIN forest |-> Flat(Essence(forest[i]), FALSE)])

------------------------------------------------------------------------------
(* C26: delimiters pair up *)

\* The control word w, whole, at i.
WordAt(cs, i, w) == StartsAt(cs, i, w) /\ ~(i + Len(w) <= Len(cs) /\ cs[i + Len(w)] \in Letters)
\* Scan: what is open; the character after \left or \right is a delimiter, also if it is a brace.
PairStart == [open |-> <<>>, ok |-> TRUE, skip |-> 0]
Delimiter(cs, i) == IF i <= Len(cs) /\ cs[i] \in {"{", "}"} THEN 1 ELSE 0
Opens(s, what)   == [s EXCEPT !.open = Append(@, what)]
Closes(s, what)  == IF s.open # <<>> /\ s.open[Len(s.open)] = what
                    THEN [s EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)] ELSE [s EXCEPT !.ok = FALSE]
PairStep(cs, s, i) ==
  IF s.skip > 0 THEN [s EXCEPT !.skip = @ - 1]
  ELSE IF ~s.ok THEN s
  ELSE CASE cs[i] = "{" -> Opens(s, "{")
         [] cs[i] = "}" -> Closes(s, "{")
         [] cs[i] # "\\" -> s
         [] WordAt(cs, i, "\\left")  -> [Opens(s, "left") EXCEPT !.skip = 4 + Delimiter(cs, i + 5)]
         [] WordAt(cs, i, "\\right") -> [Closes(s, "left") EXCEPT !.skip = 5 + Delimiter(cs, i + 6)]
         [] WordAt(cs, i, "\\begin") -> [Opens(s, "begin") EXCEPT !.skip = 5]
         [] WordAt(cs, i, "\\end")   -> [Closes(s, "begin") EXCEPT !.skip = 3]
         [] OTHER -> [s EXCEPT !.skip = 1]
Pairs(cs) == LET s == FoldLeft(LAMBDA s, i : PairStep(cs, s, i), PairStart, Indices(cs)) IN s.ok /\ s.open = <<>>

\* Nothing in the document brings in a delimiter or brace without its counterpart.
OneSided == {"left", "right", "madruwb"}
FenceOK(cs)   == (\E c \in {"{", "}"} : cs = <<c>>) \/ \A i \in DOMAIN cs : cs[i] \notin Letters \cup Bad
NormalOp(n)   == n.t = "mo" /\ \E c \in {"{", "}"} : Normalise(n.x) = <<c>>
RECURSIVE Paired(_)
Paired(n) ==
  /\ n.t \in TokenTags => (NoBad(n.x) \/ NormalOp(n))
  /\ n.t = "mfenced" => /\ FenceOK(Attr(n, "open")) /\ FenceOK(Attr(n, "close"))
                        /\ \A i \in DOMAIN Attr(n, "separators") : Attr(n, "separators")[i] \notin Letters \cup Bad
                        \* (\right without a delimiter)
                        /\ HasBelow(n, "mtable") /\ Attr(n, "close") = <<>> => Attr(n, "open") = <<>>
  /\ n.t = "menclose" => AttrStr(n, "notation") \notin OneSided
  /\ \A i \in DOMAIN n.k : Paired(n.k[i])

------------------------------------------------------------------------------
(* C27: every script has its own base *)

\* Scan: what is open, and what the last thing was that a script could be put on:
\* "none", "atom", "_" (an atom with a subscript), "^" (no more scripts).
\* (A row or cell of a bare table may be empty and still get a script.)
BaseStart == [open |-> <<>>, last |-> "none", ok |-> TRUE, skip |-> 0]
BaseStep(cs, s, i) ==
  IF s.skip > 0 THEN [s EXCEPT !.skip = @ - 1]
  ELSE IF ~s.ok THEN s
  ELSE CASE IsWs(cs[i]) -> s
         [] cs[i] = "{" -> [s EXCEPT !.open = Append(@, "atom"), !.last = "none"]
         [] cs[i] \in {"^", "_"} ->
              IF i < Len(cs) /\ cs[i + 1] = "{" /\ s.last \in (IF cs[i] = "^" THEN {"atom", "_"} ELSE {"atom"})
              THEN [s EXCEPT !.open = Append(@, cs[i]), !.last = "none", !.skip = 1]
              ELSE [s EXCEPT !.ok = FALSE]
         [] cs[i] = "}" -> IF s.open = <<>> THEN [s EXCEPT !.ok = FALSE]
                           ELSE [s EXCEPT !.last = s.open[Len(s.open)], !.open = SubSeq(@, 1, Len(@) - 1)]
                  [] cs[i] # "\\" -> [s EXCEPT !.last = "atom"]
         [] WordAt(cs, i, "\\left") -> [s EXCEPT !.last = "none", !.skip = 5]
         [] WordAt(cs, i, "\\begin") /\ HasClose(cs, i) -> [s EXCEPT !.last = "none", !.skip = CloseOf(cs, i) - i]
         [] i < Len(cs) /\ cs[i + 1] = "\\" -> [s EXCEPT !.last = "atom", !.skip = 1]
         [] OTHER -> [s EXCEPT !.last = "atom", !.skip = 1]
ScriptsHaveBases(cs) == FoldLeft(LAMBDA s, i : BaseStep(cs, s, i), BaseStart, Indices(cs)).ok

\* Nothing in the document brings in scripts, primes or braces of its own.
Unscripted(cs) == \A i \in DOMAIN cs : cs[i] \notin {"^", "_", "'"} \/ (i > 1 /\ cs[i - 1] = "\\")
RECURSIVE OwnScripts(_)
OwnScripts(n) ==
  /\ n.t \in TokenTags => NoBad(n.x) /\ Unscripted(TokenChars(LeafTex(n)))
  /\ n.t = "mfenced" => \A a \in {"open", "close", "separators"} : NoBad(Attr(n, a)) /\ Unscripted(Attr(n, a))
  \* (one-sided: \left| and nothing is no base)
  /\ n.t = "menclose" => AttrStr(n, "notation") # "left"
  /\ \A i \in DOMAIN n.k : OwnScripts(n.k[i])

------------------------------------------------------------------------------
(* Which elements a property is about *)
About(prop, n) ==
  CASE prop = "C08" -> n.t \in {"mfrac", "msqrt", "mroot"}
    [] prop = "C09" -> n.t \in ScriptTags
    [] prop = "C10" -> n.t = "mmultiscripts"
    [] prop = "C11" -> n.t \in {"munder", "mover", "munderover"}
    [] prop = "C12" -> n.t = "mfenced" /\ ~HasBelow(n, "mtable")
    [] prop = "C13" -> n.t \in {"mtable", "mtr"}
    [] prop = "C14" -> n.t = "menclose"
    [] prop = "C15" -> n.t \notin (KnownTags \ {"merror", "mphantom", "maction"})
    [] prop = "C16" -> n.t \in {"mi", "mo", "mn"}
    [] prop = "C17" -> HasAttr(n, "mathvariant") /\ n.t # "mtext"
    [] prop = "C18" -> n.t = "mtext"
    [] OTHER -> TRUE
RECURSIVE Concerns(_, _)
Concerns(prop, n) == About(prop, n) \/ \E i \in DOMAIN n.k : Concerns(prop, n.k[i])
=============================================================================
