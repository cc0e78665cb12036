------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* Finite families of documents, one per property: everything there is     *)
(* within small bounds.  MC runs the pipeline and the converter on each    *)
(* document; the behaviours are replayed in the implementation.            *)
(*                                                                         *)
(* A member is [d |-> document, p |-> path of a sub-expression (C21)].     *)
(* (Families take a parameter so that TLC evaluates only the one in use.)  *)
(***************************************************************************)
EXTENDS Props, IOUtils

Deep == IOEnv.MC_TIER = "thorough"

------------------------------------------------------------------------------
(* Writing trees plainly *)
RECURSIVE Plainly(_)
Plainly(n) ==
  [k |-> "e", t |-> n.t, p |-> "",
   a |-> Seq1([i \in DOMAIN n.a |-> [n |-> n.a[i][1], v |-> n.a[i][2], q |-> "d", w |-> <<Space>>]]),
   z |-> <<>>, s |-> FALSE,
   c |-> (IF n.x = <<>> THEN <<>> ELSE <<[k |-> "t", h |-> "plain", x |-> n.x]>>)
         \o Seq1([i \in DOMAIN n.k |-> Plainly(n.k[i])])]
PlainDoc(n) == [b |-> <<>>, r |-> Plainly(n), f |-> <<>>]
Nbsp == CHOOSE c \in WhiteSpace : Len(c) = 1 /\ c = Data.nbsp
Math(k)     == El("math", k)
Of(trees)   == {[d |-> PlainDoc(Math(<<t>>)), p |-> <<>>] : t \in trees}

------------------------------------------------------------------------------
(* Building blocks *)
Id(c)  == Leaf("mi", <<c>>)
Op(c)  == Leaf("mo", <<c>>)
Num(c) == Leaf("mn", <<c>>)
A == Id("a")   B == Id("b")   Z == Id("z")
AB == Leaf("mi", <<"a", "b">>)
Row(k) == El("mrow", k)
Nothing == El("mspace", <<>>)
Frac(x, y) == El("mfrac", <<x, y>>)
Attrd(t, name, v, k) == Node(t, IF v = "absent" THEN <<>> ELSE <<<<name, CharsOf(v)>>>>, <<>>, k)

Table(rows) == El("mtable", rows)
Tr(cells) == El("mtr", cells)
Td(k) == El("mtd", k)
Table1(x) == Table(<<Tr(<<Td(<<x>>)>>)>>)

\* Sequences over S of lengths lo..hi
SeqsOf(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}

Operands(z) ==
  {A, AB, Op("+"), Num("7"), Frac(Num("1"), Num("2")), Leaf("mn", <<"1", "2">>), Leaf("mi", <<"α">>), Leaf("mtext", <<"x", " ", "y">>),
   Leaf("mi", <<>>), Nothing, El("none", <<>>), El("mphantom", <<A>>), Row(<<>>), Row(<<A>>), Row(<<AB>>), Row(<<A, B>>),
   Row(<<A, Nothing>>), Row(<<Nothing, Nothing>>), Row(<<Row(<<A, B>>)>>), El("mstyle", <<A, B>>), Frac(A, B), El("msup", <<A, B>>),
   El("msup", <<Row(<<A, B>>), Z>>), El("msqrt", <<A, B>>), El("mfenced", <<A, B>>), El("menclose", <<A>>),
   Table1(A), Op("^"), El("mover", <<A, Op("^")>>), El("merror", <<A, B>>), El("maction", <<A, B>>),
   Leaf("mtext", <<"é">>), Node("mi", <<<<"mathvariant", CharsOf("bold")>>>>, <<"a">>, <<>>)}
Few(z)  == {A, AB, Nothing, Row(<<>>), Row(<<A, B>>), Op("^")}
Two(z)  == {A, AB}

GroupTags == {"mrow", "mpadded", "mstyle", "mtd", "semantics", "foo", "annotation", "mprescripts",
              "none", "mlabeledtr", "ms", "Mrow", "mglyph", "msup2", "mtables"}
OtherTags == {"msqrt", "mfenced", "menclose", "merror", "maction", "mphantom", "mtable", "mtr"}

------------------------------------------------------------------------------
Fenced(o, c, s, k) ==
  Node("mfenced", (IF o = "absent" THEN <<>> ELSE <<<<"open", CharsOf(o)>>>>)
                  \o (IF c = "absent" THEN <<>> ELSE <<<<"close", CharsOf(c)>>>>)
                  \o (IF s = "absent" THEN <<>> ELSE <<<<"separators", CharsOf(s)>>>>), <<>>, k)
------------------------------------------------------------------------------
(* Contexts: every place of every construct, with a hole.                   *)
Hole == El("hole", <<>>)
Contexts(z) ==
  {Row(<<Hole>>), Row(<<A, Hole, B>>), Row(<<Hole, A>>), El("foo", <<A, Hole>>), El("mpadded", <<Hole, B>>),
   Frac(Hole, A), Frac(A, Hole), Attrd("mfrac", "bevelled", "true", <<Hole, A>>), Attrd("mfrac", "bevelled", "true", <<A, Hole>>),
   El("msqrt", <<Hole>>), El("msqrt", <<A, Hole>>), El("mroot", <<Hole, A>>), El("mroot", <<A, Hole>>),
   El("msup", <<Hole, A>>), El("msup", <<A, Hole>>), El("msub", <<Hole, A>>), El("msub", <<A, Hole>>),
   El("msup", <<Row(<<A, Hole>>), B>>), El("msubsup", <<Hole, A, B>>), El("msubsup", <<A, Hole, B>>), El("msubsup", <<A, B, Hole>>),
   El("munder", <<Hole, A>>), El("munder", <<A, Hole>>), El("mover", <<Hole, A>>), El("mover", <<A, Hole>>),
   El("mover", <<Hole, Op("^")>>), El("munder", <<Hole, Op("⏟")>>),
   El("munderover", <<Hole, A, B>>), El("munderover", <<A, Hole, B>>), El("munderover", <<A, B, Hole>>),
   El("mmultiscripts", <<Hole, A, B>>), El("mmultiscripts", <<A, Hole, B>>), El("mmultiscripts", <<A, B, Hole>>),
   El("mmultiscripts", <<A, B, Z, El("mprescripts", <<>>), Hole, A>>), El("mmultiscripts", <<A, B, Z, El("mprescripts", <<>>), A, Hole>>),
   El("mmultiscripts", <<A, El("mprescripts", <<>>), Hole, B>>), El("mmultiscripts", <<A, El("mprescripts", <<>>), B, Hole>>),
   El("mmultiscripts", <<A, B, Z, B, Hole>>),
   El("mfenced", <<Hole>>), El("mfenced", <<Hole, A>>), Fenced("[", "]", ";", <<A, Hole, B>>), Fenced("", "|", "", <<A, Hole>>),
   Fenced("{", "}", "absent", <<Table1(A), Hole>>), Fenced("(", "]", "absent", <<Hole, Table1(A)>>),
   Table1(Hole), Table(<<Tr(<<Td(<<A>>), Td(<<Hole>>)>>), Tr(<<Td(<<B>>)>>)>>), Table(<<Tr(<<Td(<<>>)>>), Tr(<<Hole, Td(<<B>>)>>)>>),
   Table1(Table1(Hole)), El("mfenced", <<Table1(Hole)>>),
   El("menclose", <<Hole>>), El("menclose", <<A, Hole>>), El("merror", <<Hole>>), El("merror", <<Hole, A>>),
   El("mphantom", <<Hole>>), El("maction", <<A, Hole>>), Attrd("maction", "actiontype", "tooltip", <<Hole, A>>),
   Attrd("maction", "actiontype", "tooltip", <<A, Hole>>), Attrd("mstyle", "mathvariant", "bold", <<Hole>>)}
  \cup {Attrd("menclose", "notation", v, <<A, Hole>>) : v \in {"actuarial", "radical", "box", "left", "right", "top", "bottom",
          "updiagonalstrike", "downdiagonalstrike", "updiagonalarrow", "verticalstrike", "madruwb", "phasorangle"}}

RECURSIVE Plug(_, _), HolePath(_)
Plug(c, n) == IF c.t = "hole" THEN n ELSE [c EXCEPT !.k = Seq1([i \in DOMAIN @ |-> Plug(@[i], n)])]
HasHole(c) == c.t = "hole" \/ HasBelow(c, "hole")
HolePath(c) == IF c.t = "hole" THEN <<>>
               ELSE LET i == CHOOSE i \in DOMAIN c.k : HasHole(c.k[i]) IN <<i>> \o HolePath(c.k[i])

\* What a property is about, everywhere: in every context, all of it in every
\* pair of contexts, next to everything.
Around(core, all) ==
  {Plug(c, x) : c \in Contexts(0), x \in core}
  \cup (IF Deep THEN {Plug(c, Plug(e, x)) : c \in Contexts(0), e \in Contexts(0), x \in core \cup {Row(all)}}
        ELSE {Plug(c, Plug(e, Row(all))) : c \in Contexts(0), e \in Contexts(0)})
  \cup {Row(<<x, y>>) : x \in core, y \in Operands(0)} \cup {Row(<<y, x>>) : x \in core, y \in Operands(0)}
  \cup {El("mfenced", <<y, x, y>>) : x \in core, y \in Operands(0)} \cup {Row(<<x, y, x>>) : x \in core, y \in core}

------------------------------------------------------------------------------
(* C08 *)
Bevels == {"absent", "", "true", "false", "bevelled", "x"}
FracsOver(S) == {Attrd("mfrac", "bevelled", b, <<x, y>>) : b \in {"absent", "true"}, x \in S, y \in S}
RootsOver(S) == {El("mroot", <<x, y>>) : x \in S, y \in S} \cup {El("msqrt", <<x>>) : x \in S}
FamC08(z) ==
  LET ops == Operands(z)
      one == FracsOver(Two(z)) \cup RootsOver(Two(z))
      two == Two(z) \cup one
  IN Of(Around({Frac(A, B), Frac(AB, Row(<<>>)), Attrd("mfrac", "bevelled", "true", <<A, AB>>), El("mroot", <<A, B>>), El("msqrt", <<A, B>>)}, <<Frac(A, B), Attrd("mfrac", "bevelled", "true", <<AB, A>>), El("mroot", <<AB, B>>), El("msqrt", <<A, B>>)>>) \cup {Attrd("mfrac", "bevelled", b, <<x, y>>) : b \in Bevels, x \in Few(z), y \in Few(z)}
        \cup FracsOver(ops) \cup RootsOver(ops)
        \cup {El("msqrt", k) : k \in SeqsOf(Few(z), 0, 3)}
        \cup FracsOver(two) \cup RootsOver(two))

(* C09 *)
Scripts1(S, U) == {El(t, <<x, y>>) : t \in {"msup", "msub"}, x \in S, y \in U}
Scripts2(S, U) == {El("msubsup", <<x, y, u>>) : x \in S, y \in U, u \in U}
FamC09(z) ==
  LET ops  == Operands(z)
      comp == {El(g, k) : g \in GroupTags \cup OtherTags, k \in SeqsOf({A, Nothing, Row(<<>>)}, 0, 2)}
              \cup {El(g, k) : g \in {"mrow", "foo"}, k \in SeqsOf({A, Nothing, Row(<<>>)}, 3, 3)}
      nest == Two(z) \cup Scripts1(Two(z), {B}) \cup Scripts2(Two(z), {B})
  IN Of(Around({El("msup", <<A, B>>), El("msub", <<Row(<<A, B>>), Z>>), El("msubsup", <<Row(<<A, B>>), B, Z>>), El("msubsup", <<A, B, Z>>)}, <<El("msup", <<Row(<<A, B>>), B>>), El("msub", <<A, Z>>), El("msubsup", <<Row(<<A, B>>), B, Z>>)>>) \cup Scripts1(ops, ops) \cup Scripts2(ops, Few(z)) \cup Scripts1(comp, {B}) \cup Scripts2(comp, {B})
        \cup Scripts1(nest, nest) \cup Scripts2(nest, nest))

(* C10: children labelled by their place *)
Letter == <<"p", "q", "r", "s", "t", "u", "v", "w">>
Multi(base, what) ==
  El("mmultiscripts", <<base>> \o Seq1([i \in DOMAIN what |->
     CASE what[i] = "s" -> Id(Letter[i]) [] what[i] = "row" -> Row(<<Id(Letter[i]), B>>)
       [] OTHER -> El(what[i], <<>>)]))
FamC10(z) ==
  LET bases == {A, Row(<<A, B>>), El("none", <<>>), AB, Row(<<Nothing, A>>), Leaf("mtext", <<"x", " ", "y">>)}
  IN Of(Around({Multi(A, <<"s", "s">>), Multi(A, <<"s", "s", "mprescripts", "s", "s">>), Multi(Row(<<A, B>>), <<"mprescripts", "s", "none">>)}, <<Multi(A, <<"s", "s">>), Multi(Row(<<A, B>>), <<"s", "none", "mprescripts", "s", "s">>), Multi(A, <<"mprescripts", "s", "s">>)>>) \cup {Multi(b, w) : b \in bases, w \in SeqsOf({"s", "none", "mprescripts"}, 2, 4)}
        \cup {Multi(A, w) : w \in SeqsOf({"s", "none", "mprescripts"}, 5, 7)}
        \cup {Multi(A, w) : w \in SeqsOf({"s", "row", "none", "mprescripts"}, 2, 5)}
        \cup {El("mmultiscripts", <<b, x, y>>) : b \in Operands(z), x \in Few(z), y \in Few(z)})

(* C11 *)
AccentScripts(z) ==
  {Op(c) : c \in {"^", "ˆ", "¯", "⏞", "⏟", "⏜", "‾", "~", "˙", "→", "_", "-"}}
  \cup {Row(<<Op("^")>>), Row(<<Op("^"), Op("^")>>), Row(<<Op("^"), Nothing>>), Id("^"), Id("¯"), Num("^"), Leaf("mtext", <<"^">>),
        Leaf("mi", CharsOf("\\hat")), Leaf("mo", CharsOf("\\bar")), Leaf("mn", CharsOf("\\underbrace")),
        Leaf("mi", CharsOf("\\overbrace")), Leaf("mi", CharsOf("\\hat ")), El("mstyle", <<Op("⏟")>>), Row(<<Op("^"), B>>),
        Leaf("mtext", CharsOf("hat")), Leaf("mo", CharsOf("hat"))}
FamC11(z) ==
  LET ops == Operands(z)
      acc == AccentScripts(z)
      few == {A, AB, Op("^"), Op("⏞"), Row(<<Op("¯")>>), Row(<<A, B>>), Row(<<>>)}
      nest == {A, Op("^"), Op("→")} \cup {El(t, <<x, y>>) : t \in {"munder", "mover"}, x \in {A, Op("^")}, y \in {Op("^"), Op("⏟"), B}}
  IN Of(Around({El("munder", <<A, B>>), El("mover", <<A, B>>), El("mover", <<A, Op("^")>>), El("munder", <<A, Op("⏟")>>), El("munderover", <<A, B, Z>>)}, <<El("munder", <<A, B>>), El("mover", <<Row(<<A, B>>), Op("¯")>>), El("munderover", <<Row(<<A, B>>), A, Z>>), El("mover", <<A, B>>)>>) \cup {El(t, <<x, y>>) : t \in {"munder", "mover"}, x \in ops \cup acc, y \in acc}
        \cup {El(t, <<x, y>>) : t \in {"munder", "mover"}, x \in Few(z), y \in ops}
        \cup {El("munderover", <<x, y, u>>) : x \in few, y \in few, u \in few}
        \cup {El("munderover", <<A, x, y>>) : x \in acc, y \in acc}
        \cup {El(t, <<x, y>>) : t \in {"munder", "mover"}, x \in nest, y \in nest})

(* C12 *)
FenceSet == {"absent", "", "(", ")", "[", "]", "{", "}", "|", "||", "<", "open", "close", ".", "ab", " "}
SepSet   == {"absent", "", ",", ";", ";,", ";;,", ",;.:!", ",,", " ", ", ", "|", "abc", "separators", "&", "+-+-+"}
\* Items: labelled ones and empty ones.
Items(w) == Seq1([i \in DOMAIN w |-> IF w[i] = 0 THEN Row(<<>>) ELSE IF w[i] = 1 THEN Id(Letter[i]) ELSE A])
FamC12(z) ==
  Of(Around({Fenced("absent", "absent", "absent", <<A, B>>), Fenced("[", "]", ";:", <<A, B, Z, A>>), Fenced("", "|", "", <<A, Row(<<>>), B>>), El("mfenced", <<>>)}, <<Fenced("{", "", ";:", <<A, B, Z, A>>), Fenced("absent", ")", "absent", <<A, B>>)>>) \cup {Fenced(o, c, s, Items(w)) : o \in FenceSet, c \in FenceSet, s \in {"absent", ";,"}, w \in {<<>>, <<1>>, <<1, 1, 1>>}}
     \cup {Fenced("absent", "absent", s, Items(w)) : s \in SepSet, w \in SeqsOf({0, 1}, 0, 6)}
     \cup {Fenced("[", "]", s, Items(w)) : s \in SepSet, w \in SeqsOf({0, 1, 2}, 2, 4)}
     \cup {Fenced("(", "]", ";", <<x, y>>) : x \in Operands(z), y \in Operands(z)}
     \cup {Fenced("absent", "absent", ",;", <<Fenced(o, c, s, Items(w)), B>>)
             : o \in {"absent", "[", ""}, c \in {"absent", "]"}, s \in {"absent", "", ";"}, w \in SeqsOf({0, 1}, 0, 3)})

(* C13 *)
FamC13(z) ==
  LET one1  == Table1(B)
      cells == {Td(<<A>>), Td(<<>>), Td(<<one1>>), Td(<<Frac(A, one1)>>), A}
      rows  == {Tr(k) : k \in SeqsOf(cells, 0, 2)}
      tabs  == {Table(k) : k \in SeqsOf(rows, 0, 2)}
      some  == {Table(k) : k \in SeqsOf({Tr(<<>>), Tr(<<Td(<<A>>)>>), Tr(<<Td(<<>>), Td(<<B>>)>>), Td(<<A>>), A, one1,
                                         El("mlabeledtr", <<A, Td(<<B>>)>>)}, 0, 2)}
      kinds == FenceSet
      holes == {Table1(A), Row(<<Table1(A)>>), Row(<<A, El("msqrt", <<Table1(A)>>), Table1(B)>>)}
      deep  == {Table1(El("msqrt", <<El("mrow", <<El("mfenced", <<El("msup", <<Table1(Table1(A)), B>>)>>)>>)>>)),
                El("mfenced", <<El("msqrt", <<Row(<<El("mstyle", <<Frac(B, El("msup", <<A, Table1(A)>>))>>)>>)>>)>>),
                El("mphantom", <<Table1(A)>>), Row(<<Table1(A), Table1(B)>>), El("mfenced", <<El("mphantom", <<Table1(A)>>)>>),
                Table1(El("mphantom", <<Table1(A)>>)), El("mfenced", <<A, El("mi", <<Table1(B)>>)>>),
                El("mtr", <<Td(<<A>>), Td(<<B>>)>>), Table(<<Tr(<<Td(<<A>>)>>), Table(<<Tr(<<Td(<<B>>), Td(<<>>)>>)>>)>>)}
      within == {Table1(t) : t \in some} \cup {El("mfenced", <<t>>) : t \in some}
               \cup {Table1(El("mfenced", <<t>>)) : t \in some} \cup {El("mfenced", <<Table1(t)>>) : t \in some}
               \cup {Table1(Frac(t, A)) : t \in some} \cup {Table1(Table1(t)) : t \in some}
  IN Of(Around({Table1(A), Table(<<Tr(<<Td(<<A>>), Td(<<>>)>>), Tr(<<Td(<<B>>), Td(<<Z>>)>>)>>), Fenced("[", "]", "absent", <<Table1(A)>>), Fenced("{", "", "absent", <<Table1(A), Table1(B)>>)}, <<Fenced("{", "}", "absent", <<Table1(A)>>), Table(<<Tr(<<Td(<<A>>), Td(<<>>)>>), Tr(<<Td(<<Table1(B)>>), Td(<<Z>>)>>)>>)>>) \cup tabs \cup some \cup deep \cup within
        \cup {Fenced(o, c, "absent", <<h>>) : o \in kinds, c \in kinds, h \in holes}
        \cup {Fenced("[", "]", s, <<x, Table1(A), y>>) : s \in {"absent", ";"}, x \in Few(z), y \in Few(z)})

(* C14 *)
Notations == {"actuarial", "radical", "box", "roundedbox", "circle", "left", "right", "top", "bottom", "updiagonalstrike",
              "downdiagonalstrike", "updiagonalarrow", "verticalstrike", "horizontalstrike", "madruwb", "phasorangle",
              "longdiv", "absent", "", "notation", "Box", "left right", "box ", " box", "box circle", "foo", "diagonalstrike"}
FamC14(z) ==
  Of(Around({Attrd("menclose", "notation", v, <<A, B>>) : v \in {"absent", "left", "box", "phasorangle", "updiagonalarrow", "madruwb", "actuarial"}}, <<Attrd("menclose", "notation", "horizontalstrike", <<A, B>>), Attrd("menclose", "notation", "right", <<A>>), Attrd("menclose", "notation", "top", <<A>>), El("menclose", <<A, Nothing>>)>>) \cup {Attrd("menclose", "notation", v, k) : v \in Notations, k \in SeqsOf(Few(z), 0, 2)}
     \cup {Attrd("menclose", "notation", v, <<x>>) : v \in Notations, x \in Operands(z)}
     \cup {Attrd("menclose", "notation", v, <<Attrd("menclose", "notation", w, <<A, B>>), Z>>) : v \in Notations, w \in Notations}
     \cup {Attrd("menclose", "notation", v, <<A, B, Nothing, Z>>) : v \in Notations})

(* C15 *)
Actions == {"absent", "", "toggle", "Toggle", "statusline", "tooltip", "input", "actiontype", "highlight", "toggle ", "toggletip"}
WithText(n) == [n EXCEPT !.x = <<"t">>]
FamC15(z) ==
  LET kids == {A, Row(<<>>), El("mphantom", <<A>>), Op("+")}
      groups == {El(g, k) : g \in GroupTags \cup {"merror", "mphantom"}, k \in SeqsOf(kids, 0, 3)}
      acts == {Attrd("maction", "actiontype", v, k) : v \in Actions, k \in SeqsOf({A, B, Row(<<>>)}, 0, 3)}
  IN Of(Around({Row(<<A, B>>), El("foo", <<A, Row(<<>>), B>>), El("merror", <<A, B>>), El("mphantom", <<A, B>>), El("maction", <<A, B>>), Attrd("maction", "actiontype", "tooltip", <<A, B>>), WithText(El("mstyle", <<A>>))}, <<El("merror", <<A, B>>), El("mphantom", <<A>>), El("maction", <<A, B>>), Attrd("maction", "actiontype", "statusline", <<A, B>>), WithText(El("semantics", <<A, B>>))>>) \cup groups \cup acts \cup {WithText(El(g, k)) : g \in GroupTags \cup {"merror", "mphantom"}, k \in SeqsOf({A, B}, 0, 2)}
        \cup {El(g, <<El(h, <<A, B>>), Z>>) : g \in GroupTags \cup {"merror", "mphantom"}, h \in GroupTags \cup {"merror", "mphantom"}}
        \cup {El(g, <<x>>) : g \in GroupTags \cup {"merror", "mphantom"}, x \in Operands(z)}
        \cup {Node("maction", <<<<"actiontype", CharsOf(v)>>, <<"selection", <<s>>>>>>, <<>>, <<A, B, Z>>)
                : v \in {"toggle", "tooltip", "statusline"}, s \in {"1", "2", "3", "0", "x"}}
        \cup {Attrd("maction", "actiontype", v, <<Attrd("maction", "actiontype", w, <<A, B>>), Z>>) : v \in Actions, w \in Actions})

(* C16: every entry of the tables (the keys are whole strings: one per token) *)
Keys == IdKeys \cup OpKeys \cup NumKeys
KeyText(k) == IF \A i \in 1..Len(k) : SubSeq(k, i, i) \in Ascii THEN CharsOf(k) ELSE <<k>>
\* One character (of one or two UTF-16 units)
Combining == {"̸", "⃒", "̱"}
IsGlyph(k) == Len(k) = 1 \/ (Len(k) = 2 /\ SubSeq(k, 2, 2) \notin Ascii \cup Combining)
FamC16(z) ==
  Of(Around({Leaf("mi", <<"α">>), Leaf("mo", <<"→">>), Leaf("mn", <<"½">>), Leaf("mi", <<"é">>), Leaf("mo", <<"ℝ">>)}, <<Leaf("mi", <<"α">>), Leaf("mo", <<"→">>), Leaf("mn", <<"½">>), Leaf("mi", <<"é">>), Leaf("mo", <<"ℝ">>)>>) \cup {Leaf(t, KeyText(k)) : t \in {"mi", "mo", "mn"}, k \in Keys}
     \cup {Leaf(t, cs) : t \in {"mi", "mo", "mn"}, cs \in SeqsOf({"a", "1", "α", " ", "+", "é"}, 0, 3)})

(* C17 *)
Variants == {"absent", "", "bold", "italic", "bold-italic", "double-struck", "bold-fraktur", "script", "bold-script", "fraktur",
             "sans-serif", "bold-sans-serif", "sans-serif-italic", "sans-serif-bold-italic", "monospace", "normal", "mathvariant",
             "Bold", "bold ", " bold", "BOLD", "italic-bold", "initial", "tailed", "boldface", "bold italic"}
Contents == {<<"a">>, <<"a", "b">>, <<"α">>, CharsOf("sin"), <<"é">>, <<>>, <<"1">>, <<"+">>, <<"∞">>, <<"a", " ", "b">>, CharsOf("\\alpha"),
             <<"漢">>, CharsOf("alpha"), <<"ℝ">>, <<"½">>}
Var(t, v, x) == Node(t, IF v = "absent" THEN <<>> ELSE <<<<"mathvariant", CharsOf(v)>>>>, x, <<>>)
FamC17(z) ==
  Of(Around({Var("mi", v, <<"a">>) : v \in {"bold", "sans-serif-bold-italic", "normal"}} \cup {Var("mo", "bold", <<"+">>), Var("mn", "bold", <<"1">>)}, <<Var("mi", "script", <<"a">>), Id("b"), Var("mo", "bold", <<"+">>), Var("mn", "italic", <<"1">>), Var("mi", "bold-italic", <<"a", "b">>)>>) \cup {Var(t, v, x) : t \in {"mi", "mo", "mn"}, v \in Variants, x \in Contents}
     \cup {Attrd(g, "mathvariant", v, <<Id("x"), Op("+"), Num("2"), Var("mi", w, <<"y">>)>>)
             : g \in {"mrow", "mstyle", "mpadded", "foo", "msqrt", "merror", "menclose", "mphantom", "mtd", "maction", "mfenced", "mtr", "mtable"},
               v \in {"bold", "italic", "script"}, w \in {"absent", "italic", "normal"}}
     \cup {Attrd(g, "mathvariant", v, <<Id("x"), Var("mi", w, <<"y">>)>>)
             : g \in {"mfrac", "msup", "msub", "mover", "munder", "mroot"}, v \in Variants, w \in {"absent", "bold"}}
     \cup {Row(<<Var("mi", v, <<"x">>), Id("y"), Var("mi", w, <<"x">>)>>) : v \in Variants, w \in Variants})

(* C18 *)
FamC18(z) ==
  LET cs == {"a", "1", " ", "-", "é", "α"}
      hi == {"a", " ", "-", "_"}
  IN Of(Around({Leaf("mtext", CharsOf("a b")), Var("mtext", "bold", CharsOf("a-b é c")), Leaf("mtext", <<"α">>)}, <<Leaf("mtext", CharsOf("a, b")), Var("mtext", "bold-italic", CharsOf("x é y"))>>) \cup {Var("mtext", v, Strip(x)) : v \in {"absent", "bold"}, x \in SeqsOf(cs, 0, 3)}
        \cup {Var("mtext", v, Strip(x)) : v \in Variants, x \in SeqsOf({"b", " ", "-"}, 0, 3)}
        \cup {Leaf("mtext", Strip(x)) : x \in SeqsOf(hi, 4, 5)}
        \cup {Var("mtext", v, <<c>>) : v \in {"absent", "italic"}, c \in Ascii \ {" "}}
        \cup {Leaf("mtext", <<"a", c, "b">>) : c \in Ascii})

(* C05: every list of up to four children, right or wrong, themselves right or wrong *)
Bad1 == El("mfrac", <<Z>>)
FamC05(z) ==
  LET kids == {A, Nothing, Bad1, El("mphantom", <<Bad1>>)}
      tags == Exactly2 \cup Exactly3 \cup {"mmultiscripts"}
      ctx  == {"mrow", "msqrt", "mfenced", "menclose", "merror", "mphantom", "mtr", "mtable", "maction", "foo", "mi", "mtext", "mspace"}
  IN Of({El(t, k) : t \in tags, k \in SeqsOf(kids, 0, 3)}
        \cup {El(t, k) : t \in tags, k \in SeqsOf({A, Nothing, Bad1}, 4, 4)}
        \cup {El(t, k) : t \in tags, k \in SeqsOf({A, El("none", <<>>), El("mprescripts", <<>>), Row(<<>>)}, 0, 4)}
        \cup {El("mmultiscripts", k) : k \in SeqsOf({A, El("mprescripts", <<>>), Bad1}, 5, 7)}
        \cup {El(g, <<x, y, u>>) : g \in ctx, x \in {A, Bad1, El("msubsup", <<A, B>>)}, y \in {A, Bad1}, u \in {B, El("mroot", <<>>)}}
        \cup {Attrd("maction", "actiontype", v, <<x, y, u>>) : v \in Actions, x \in {A, Bad1}, y \in {A, El("msup", <<A>>)}, u \in {A, Bad1}}
        \cup {El(t, Seq1([i \in 1..n |-> A])) : t \in tags, n \in 0..12})
     \cup {[d |-> [b |-> <<>>, r |-> Plainly(El("div", k)), f |-> <<>>], p |-> <<>>]
             : k \in SeqsOf({Math(<<A>>), Math(<<Bad1>>), Math(<<El("msup", <<A>>)>>), Math(<<>>)}, 0, 3)}

\* Constructs within constructs
Nested(z) == {Plug(c, Plug(e, Id("x"))) : c \in Contexts(z), e \in Contexts(z)}
Filled(z) == {Plug(c, x) : c \in Contexts(z), x \in Operands(z)}

(* C19: no braces in the contents *)
FamC19(z) == Of(Nested(z) \cup Filled(z)
   \cup {Attrd("menclose", "notation", v, k) : v \in Notations, k \in SeqsOf({A, Row(<<>>)}, 0, 2)}
   \cup {Fenced(o, c, "absent", k) : o \in FenceSet \ {"{", "}"}, c \in FenceSet \ {"{", "}"}, k \in {<<>>, <<A>>, <<A, B>>, <<Table1(A)>>, <<A, Table1(Table1(B))>>}}
   \cup {Var(t, v, x) : t \in {"mi", "mtext"}, v \in Variants, x \in {<<"a">>, <<"-">>, <<>>, <<"a", "-", "b">>}}
   \cup {Leaf(t, KeyText(k)) : t \in {"mi", "mo", "mn", "mtext"}, k \in {k \in Keys : IsGlyph(k) /\ k \notin Bad}})

(* C20: tokens are marks, numbered in document order *)
MarkSeq == <<"A", "C", "D", "E", "F", "G", "H", "I", "J", "K", "M", "N", "O", "P", "R", "S", "T", "U", "W", "X", "Y", "Z">>
RECURSIVE Relabel(_, _)
\* [n |-> relabelled tree, next |-> next mark]
Relabel(n, next) ==
  IF n.t \in TokenTags THEN [n |-> [n EXCEPT !.x = <<MarkSeq[next]>>], next |-> next + 1]
  ELSE LET step(acc, c) == LET r == Relabel(c, acc.next) IN [k |-> Append(acc.k, r.n), next |-> r.next]
           all == FoldLeft(step, [k |-> <<>>, next |-> next], n.k)
       IN [n |-> [n EXCEPT !.k = all.k], next |-> all.next]
FamC20(z) ==
  LET lists == SeqsOf({A, Row(<<>>), El("mphantom", <<A>>)}, 0, 3)
      wide  == {Seq1([i \in 1..n |-> A]) : n \in 4..20}
      tags  == {"mrow", "msqrt", "mfenced", "menclose", "merror", "mphantom", "mtr", "mtable", "maction", "foo", "mi", "mtext", "mstyle"}
      twins == {Row(<<A, A, A>>), El("mfenced", <<A, A, A, A>>), Frac(A, A), El("msubsup", <<A, A, A>>), Tr(<<A, A>>), El("mroot", <<A, A>>),
                El("munderover", <<A, A, A>>), El("mmultiscripts", <<A, A, A, El("mprescripts", <<>>), A, A>>)}
  IN Of({Relabel(t, 1).n : t \in Nested(z)}
        \cup {Relabel(El(g, k), 1).n : g \in tags, k \in lists \cup wide}
        \cup {Relabel(Multi(A, w), 1).n : w \in SeqsOf({"s", "none", "mprescripts"}, 2, 6)}
        \cup {Relabel(Attrd("maction", "actiontype", v, <<A, B, Z>>), 1).n : v \in Actions}
        \cup {[t EXCEPT !.k = [i \in DOMAIN @ |-> IF @[i].t \in TokenTags THEN Leaf(x, <<"7">>) ELSE @[i]]] : t \in twins, x \in TokenTags})

(* C21: a sub-expression, and where it stands *)
FamC21(z) ==
  {[d |-> PlainDoc(Math(<<Plug(c, x)>>)), p |-> <<1>> \o HolePath(c)] : c \in Contexts(z), x \in Operands(z)}
  \cup {[d |-> PlainDoc(Math(<<Plug(c, Plug(e, x))>>)), p |-> <<1>> \o HolePath(c) \o HolePath(e)]
          : c \in Contexts(z), e \in Contexts(z), x \in {Frac(A, B), Leaf("mtext", <<"x", " ", "y">>)}}

(* C07: contents of all kinds where elements are expected *)
RECURSIVE Chain(_, _, _)
Chain(c, n, x) == IF n = 0 THEN x ELSE Plug(c, Chain(c, n - 1, x))
CtxDepth(c) == Len(HolePath(c))
FamC07(z) ==
  LET odd == {Leaf(t, x) : t \in {"mi", "mo", "mn", "mtext"}, x \in {<<>>, <<"&">>, <<"<">>, <<"]", "]", ">">>, <<"é">>, <<"漢", "字">>, <<"0">>}}
             \cup {El(t, <<>>) : t \in GroupTags \cup OtherTags}
             \cup {WithText(El(t, k)) : t \in GroupTags \cup OtherTags, k \in {<<>>, <<A>>}}
             \cup {El(t, <<A, B>>) : t \in TokenTags}
      names == {"mathvariant", "notation", "open", "close", "separators", "actiontype", "bevelled", "id", "xlink", "name", "innerTable"}
      vals  == {"", " ", "x", "0", "none", "a b", "<", "&", "\\", "{", "%s"}
      tags  == {"mi", "mtext", "menclose", "mfenced", "maction", "mrow", "mtable", "math", "foo"}
  IN Of({Plug(c, x) : c \in Contexts(z), x \in odd}
        \cup {Node(t, <<<<n, CharsOf(v)>>>>, IF t \in TokenTags THEN <<"a">> ELSE <<>>, k)
                : t \in tags, n \in names, v \in vals, k \in {<<>>, <<A>>}}
        \cup {Node(t, <<<<n, CharsOf(n)>>>>, <<"a">>, <<A>>) : t \in tags, n \in names})
     \cup {[d |-> PlainDoc(Math(<<Chain(c, 78 \div CtxDepth(c), A)>>)), p |-> <<>>]
             : c \in {Row(<<Hole>>), Frac(Hole, A), El("msup", <<A, Hole>>), El("mfenced", <<Hole>>), El("mroot", <<A, Hole>>), Table1(Hole)}}

(* C04 *)
FamC04(z) ==
  LET blanks == {" ", "\t", "\n", Nbsp}
      texts == {x \in SeqsOf({"a", "-"} \cup blanks, 0, 3) : x = Strip(x)}
      none  == {Row(<<>>), Nothing, El("mphantom", <<A>>), A, Leaf("mo", <<Nbsp>>)}
      tags  == {"mrow", "msqrt", "mfenced", "mtr", "mtable", "merror", "menclose", "maction", "mstyle", "mphantom"}
  IN Of({Leaf(t, x) : t \in TokenTags, x \in texts}
        \cup {El(t, k) : t \in tags, k \in SeqsOf(none, 0, 3)}
        \cup {Row(<<A, Leaf(t, x), B>>) : t \in TokenTags, x \in texts}
        \cup {Fenced(o, c, s, <<A, B>>) : o \in {" ", "( ", " ("}, c \in {" ", ") ", Nbsp}, s \in {" ", "  ", ", ", Nbsp}}
        \cup {Var("mtext", "bold", x) : x \in texts})
     \cup {[d |-> PlainDoc(Math(k)), p |-> <<>>] : k \in SeqsOf(none, 0, 3)}
     \cup {[d |-> PlainDoc(El("div", k)), p |-> <<>>]
             : k \in SeqsOf({Math(<<>>), Math(<<A>>), Math(<<Nothing, Nothing>>), Math(<<Nothing, B, Row(<<>>)>>)}, 0, 3)}

------------------------------------------------------------------------------
(* C02: one tree, written in all ways *)
Txt(h, x) == [k |-> "t", h |-> h, x |-> x]
RefOf(c) == CASE c = "a" -> "&#97;" [] c = "<" -> "&lt;" [] c = "b" -> "&#x62;" [] c = "&" -> "&#38;" [] OTHER -> c
RefTxt(x) == [k |-> "t", h |-> "ref", x |-> x, y |-> Seq1([i \in DOMAIN x |-> RefOf(x[i])])]
Hows(x) == {Txt("plain", x), Txt("cdata", x), RefTxt(x)}
Cmt(x) == [k |-> "c", x |-> x]
Pin(x) == [k |-> "p", x |-> x]
Dtd(x) == [k |-> "d", x |-> x]
Seps(z) == {<<>>, <<Cmt(<<"c">>)>>, <<Pin(<<"p", "i">>)>>, <<Cmt(<<"<", "m", "i", ">">>), Pin(<<"x">>)>>}
Edge(z) == {<<>>, <<Txt("plain", <<Data.linebreaks[1]>>)>>, <<Txt("plain", <<Data.linebreaks[2], Data.linebreaks[1], " ">>)>>, <<Cmt(<<"c">>)>>,
            <<Txt("cdata", <<" ">>)>>, <<Pin(<<"q">>), Txt("plain", <<"\t">>)>>}
Elem(t, a, c) == [k |-> "e", t |-> t, p |-> "", a |-> a, z |-> <<>>, s |-> FALSE, c |-> c]
DocOf(r) == [b |-> <<>>, r |-> r, f |-> <<>>]
At1(n, v, q, w) == [n |-> n, v |-> v, q |-> q, w |-> w]
Prologs(z) ==
  LET decl == Pin(CharsOf("xml version=\"1.0\""))  nl == Txt("plain", <<Data.linebreaks[1]>>)
  IN {<<>>, <<decl>>, <<decl, nl>>, <<nl, decl>>, <<nl, nl>>, <<Cmt(<<"c">>)>>, <<decl, Cmt(<<"c">>), nl>>, <<Pin(<<"p">>), nl>>,
      <<Dtd(CharsOf("math"))>>, <<decl, nl, Dtd(CharsOf("math")), nl, Cmt(<<"c">>)>>}
FamC02(z) ==
  LET tokens == {Elem(t, <<>>, e1 \o <<p>> \o s \o <<q>> \o e2)
                   : t \in {"mi", "mtext"}, e1 \in Edge(z), e2 \in Edge(z), s \in Seps(z), p \in Hows(<<"a", "<">>), q \in Hows(<<"b">>)}
      pieces == {Elem(t, <<>>, <<p>> \o s \o <<Txt("plain", <<lb>>)>> \o u \o <<q>>)
                   : t \in TokenTags, lb \in {Data.linebreaks[1], Data.linebreaks[2], " "}, s \in Seps(z), u \in Seps(z),
                     p \in Hows(<<"a">>), q \in Hows(<<"b">>)}
      blanks == {<<Space>>, <<Data.linebreaks[1]>>, <<"\t", Space>>, <<Data.linebreaks[2], Data.linebreaks[1], Space>>}
      fence  == {Elem("mfenced", as, body)
                   : as \in {<<x, y, u>> : x \in {At1("open", <<"[">>, q, w) : q \in GoodQuotes, w \in blanks},
                                           y \in {At1("close", <<"\"">>, q, <<Space>>) : q \in GoodQuotes},
                                           u \in {At1("separators", <<";", "'">>, q, w) : q \in GoodQuotes, w \in blanks}},
                     body \in {<<Plainly(A), Plainly(B)>>, <<Txt("plain", <<Data.linebreaks[1], " ">>), Plainly(A), Cmt(<<"c">>), Plainly(B), Txt("plain", <<" ">>)>>}}
      orders == {[f EXCEPT !.a = <<@[o[1]], @[o[2]], @[o[3]]>>] : f \in fence, o \in {<<1, 2, 3>>, <<3, 1, 2>>, <<3, 2, 1>>, <<2, 1, 3>>}}
      closed == {[Elem(t, <<>>, <<>>) EXCEPT !.s = s, !.z = w] : t \in {"mspace", "mrow", "mi", "mtext", "msqrt", "foo"},
                   s \in BOOLEAN, w \in {<<>>, <<Space>>, <<Data.linebreaks[1]>>}}
      roots  == {Elem("math", <<>>, e1 \o <<Plainly(Frac(A, B))>> \o e2) : e1 \in Edge(z), e2 \in Edge(z)}
      ends   == {<<>>, <<Txt("plain", <<Data.linebreaks[1]>>)>>, <<Cmt(<<"c">>)>>, <<Pin(<<"p">>), Txt("plain", <<" ">>)>>}
      wrap(e) == DocOf(Elem("math", <<>>, <<e>>))
      tree(e) == IF e.t = "mfenced"
                 THEN Node("mfenced", <<<<"open", <<"[">>>>, <<"close", <<"\"">>>>, <<"separators", <<";", "'">>>>>>, <<>>, <<A, B>>)
                 ELSE Leaf(e.t, <<"a", "<", "b">>)
      made(e, t) == [d |-> wrap(e), p |-> <<>>, g |-> <<Math(<<t>>)>>]
      \* entities that the document declares: characters, and markup in rows
      ent(x)  == [k |-> "r", x |-> CharsOf("&e;"), c |-> x]
      says(t) == <<Dtd(CharsOf("math [<!ENTITY e \"" \o t \o "\">]"))>>
      refs    == {<<"ab", <<Txt("plain", <<"a", "b">>)>>>>, <<"", <<>>>>, <<"&#60;", <<Txt("plain", <<"<">>)>>>>}
      around(x) == {<<x>>, <<Txt("plain", <<"c">>), x>>, <<x, Txt("plain", <<"c">>)>>, <<x, x>>, <<Cmt(<<"c">>), x, Txt("cdata", <<"d">>)>>}
      mark    == {<<"<mi>a</mi>", <<Plainly(A)>>>>, <<"<mi>a</mi><mi>b</mi>", <<Plainly(A), Plainly(B)>>>>}
      whole(b, e, t) == [d |-> [b |-> b, r |-> Elem("math", <<>>, e), f |-> <<>>], p |-> <<>>, g |-> <<t>>]
      attred(q, y) == [n |-> "open", v |-> <<"[">>, q |-> q, w |-> <<Space>>, y |-> y]
  IN {made(e, tree(e)) : e \in tokens}
     \cup UNION {{whole(says(x[1]), <<Elem(t, <<>>, c)>>, Math(<<Read(Elem(t, <<>>, c))>>)) : c \in around(ent(x[2])), t \in TokenTags} : x \in {x \in refs : x[1] # "&#60;"}}
     \cup {whole(says(x[1]), <<Plainly(A), ent(x[2]), Plainly(B)>>, Math(<<A>> \o Seq1([i \in DOMAIN x[2] |-> Read(x[2][i])]) \o <<B>>)) : x \in mark}
     \cup {whole(says("["), <<Elem("mfenced", <<attred(q, y)>>, <<Plainly(A)>>)>>, Math(<<Fenced("[", "absent", "absent", <<A>>)>>))
             : q \in {"d", "s"}, y \in {CharsOf("["), CharsOf("&#91;"), CharsOf("&#x5b;"), CharsOf("&e;")}}
     \cup {made(e, Leaf(e.t, <<"a", " ", "b">>)) : e \in pieces}
     \cup {[made(e, tree(e)) EXCEPT !.g[1].k[1].a = [i \in 1..3 |-> <<e.a[i].n, e.a[i].v>>]] : e \in orders}
     \cup {[d |-> DocOf(Elem("math", <<>>, <<Plainly(A), e, Plainly(B)>>)), p |-> <<>>, g |-> <<Math(<<A, El(e.t, <<>>), B>>)>>] : e \in closed}
     \cup {[d |-> [b |-> b, r |-> r, f |-> f], p |-> <<>>, g |-> <<Math(<<Frac(A, B)>>)>>] : b \in Prologs(z), r \in roots, f \in ends}

(* C03: formulas anywhere in a document, with and without the prefix *)
RECURSIVE Prefixed(_, _)
Prefixed(e, how) ==      \* how: "all", "none", "inner" (not the outermost), "outer"
  IF ~IsElem(e) THEN e
  ELSE [e EXCEPT !.p = IF how \in {"all", "outer"} THEN "mml:" ELSE "",
                 !.c = Seq1([i \in DOMAIN @ |-> Prefixed(@[i], IF how = "inner" THEN "all" ELSE IF how = "outer" THEN "none" ELSE how)])]
FamC03(z) ==
  LET forms  == {Math(<<>>), Math(<<A>>), Math(<<Frac(A, B)>>), Math(<<Nothing>>)}
      inDoc  == {<<0, f>> : f \in forms} \cup {<<1, f>> : f \in forms} \cup {<<2, Math(<<A>>)>>, <<2, Math(<<B>>)>>}
      place(x, how) == LET e == Prefixed(Plainly(x[2]), how)
                       IN IF x[1] = 0 THEN e ELSE IF x[1] = 1 THEN Elem("p", <<>>, <<Txt("plain", <<"t">>), e>>)
                          ELSE Elem("p", <<At1("math", <<"m">>, "d", <<Space>>)>>, <<Elem("mi", <<>>, <<Txt("plain", <<"t">>)>>), Elem("td", <<>>, <<e>>)>>)
      lists  == SeqsOf(inDoc, 0, 2) \cup SeqsOf({<<0, Math(<<A>>)>>, <<1, Math(<<B>>)>>, <<1, Math(<<>>)>>, <<2, Math(<<A>>)>>}, 3, 4)
      glue   == {<<>>, <<Txt("plain", <<"t", " ">>)>>}
  IN {[d |-> DocOf(Elem(r, <<>>, Concat([i \in DOMAIN l |-> g \o <<place(l[i], how)>>]))), p |-> <<>>,
       g |-> [i \in DOMAIN l |-> l[i][2]]]
        : r \in {"div", "mrow"}, l \in lists, g \in glue, how \in {"none", "all", "inner", "outer"}}
     \cup {[d |-> DocOf(Prefixed(Plainly(Math(<<t>>)), how)), p |-> <<>>, g |-> <<Math(<<t>>)>>]
             : t \in Operands(z), how \in {"none", "all", "inner", "outer"}}

(* C06: malformed attributes at two or three elements, repeated or not *)
FamC06(z) ==
  LET good == At1("a", <<"1">>, "d", <<Space>>)
      one(n, v) == {At1(n, <<v>>, "s", <<Space>>), At1(n, <<>>, "n", <<Space>>), At1(n, <<>>, "e", <<Space>>), At1(n, <<v>>, "u", <<Space>>)}
      atts == {<<>>} \cup {<<x>> : x \in one("a", "1") \cup one("b", "2")}
              \cup {<<x, y>> : x \in one("a", "1"), y \in one("b", "2")}
      inner(as, x) == [Elem("mi", as, <<Txt("plain", x)>>) EXCEPT !.z = <<>>]
      two  == {DocOf(Elem("math", r, <<inner(i, x)>>)) : r \in atts, i \in atts, x \in {<<"x">>, <<"b", "=", "2">>, <<"a">>}}
      u(n) == At1(n, <<"1">>, "u", <<Space>>)
      names == <<"a", "b", "c", "d", "f", "g">>
      rows == {DocOf(Elem("math", <<>>, Seq1([i \in DOMAIN l |-> inner(IF l[i] = 0 THEN <<>> ELSE <<u(names[l[i]])>>, <<"x">>)])))
                 : l \in SeqsOf(0..3, 1, 4) \cup {<<1, 2, 3, 4>>, <<4, 3, 2, 1>>, <<1, 2, 3, 4, 4, 3>>, <<1, 2, 3, 4, 5>>, <<1, 2, 3, 4, 5, 6>>, <<1, 1, 2, 2, 3, 3, 4, 4>>}}
      closed == {DocOf(Elem("math", <<>>, <<[Elem("mspace", as, <<>>) EXCEPT !.s = TRUE, !.z = w], Plainly(A)>>)) : as \in atts, w \in {<<>>, <<Space>>}}
      trash == {DocOf(Elem("math", r, <<[k |-> "j", x |-> CharsOf(j)], inner(i, <<"x">>)>>))
                  : r \in {<<>>, <<u("a")>>}, i \in {<<>>, <<u("b")>>}, j \in {"<", "<mi>", "</mo>", "&", "&foo;", "<mi", "<1>"}}
  IN {[d |-> x, p |-> <<>>] : x \in two \cup rows \cup closed \cup trash}

(* C22: things that mean nothing, at each element of each context.  Member: h is
   the tree without them. *)
RECURSIVE PathsOf(_), NoteAt(_, _, _, _), NoteAll(_, _, _)
PathsOf(n) == {<<>>} \cup UNION {{<<i>> \o q : q \in PathsOf(n.k[i])} : i \in DOMAIN n.k}
NotedNode(n, name, v) ==
  IF name = "" THEN (IF n.t \in TokenTags THEN n ELSE [n EXCEPT !.x = v])
  ELSE IF name \in Meaningful(n.t) \/ HasAttr(n, name) THEN n ELSE [n EXCEPT !.a = Append(@, <<name, v>>)]
NoteAt(n, path, name, v) ==
  IF path = <<>> THEN NotedNode(n, name, v) ELSE [n EXCEPT !.k[path[1]] = NoteAt(@, Tail(path), name, v)]
NoteAll(n, name, v) ==
  LET m == NotedNode(n, name, v) IN [m EXCEPT !.k = Seq1([i \in DOMAIN @ |-> NoteAll(@[i], name, v)])]
NoteNames == {"mathvariant", "open", "close", "separators", "notation", "bevelled", "actiontype", "id", "columnalign", "displaystyle",
              "fontweight", "stretchy", "innerTable", "accent", "selection", "linethickness", "form", "fence", "rowlines", "dir"}
Notes == {<<"", <<"t">>>>, <<"", <<"α">>>>} \cup {<<n, CharsOf(IF n = "mathvariant" THEN "bold" ELSE IF n \in {"open", "close", "separators"} THEN "|" ELSE "true")>> : n \in NoteNames}
FamC22(z) ==
  LET bases == {Math(<<Plug(c, x)>>) : c \in Contexts(z), x \in {A} \cup (IF Deep THEN {Row(<<A, B>>), Leaf("mo", <<"+">>), Frac(A, B)} ELSE {})}
      made(b, t) == [d |-> PlainDoc(t), p |-> <<>>, h |-> b]
      some == {n \in Notes : n[1] \in {"", "mathvariant", "open", "notation", "bevelled", "actiontype", "displaystyle", "innerTable", "fontweight"}}
  IN UNION {{made(b, NoteAt(b, q, n[1], n[2])) : q \in PathsOf(b) \ {<<>>}, n \in IF Deep THEN Notes ELSE some} : b \in bases}
     \cup {made(b, NoteAll(b, n[1], n[2])) : b \in bases, n \in Notes}

(* C23: commands next to one another and next to letters; no backslashes *)
FamC23(z) ==
  LET ends == {Leaf("mi", <<"α">>), Leaf("mo", <<"→">>), A, Num("1"), Leaf("mtext", <<"α", "b">>), Leaf("mi", CharsOf("sin")), Leaf("mi", <<"é">>)}
  IN Of({Plug(c, x) : c \in Contexts(z), x \in Operands(z) \cup ends}
        \cup {Plug(c, Plug(e, Leaf("mi", <<"α">>))) : c \in Contexts(z), e \in Contexts(z)}
        \cup {El(t, k) : t \in {"mrow", "msqrt", "mfenced", "mtr", "mtable", "menclose", "merror", "maction", "mtd", "foo"}, k \in SeqsOf(ends, 2, 2)}
        \cup {Frac(x, y) : x \in ends, y \in ends} \cup {Attrd("mfrac", "bevelled", "true", <<x, y>>) : x \in ends, y \in ends}
        \cup {Fenced("absent", "absent", s, <<x, y, x>>) : s \in {" ", ";", ""}, x \in ends, y \in ends}
        \cup {Attrd("menclose", "notation", v, <<x, y>>) : v \in Notations, x \in ends, y \in ends}
        \cup {Leaf("mtext", w) : w \in SeqsOf({"α", "b", " ", "→", "é", "½"}, 1, 4)}
        \cup {Leaf(t, KeyText(k)) : t \in {"mi", "mo", "mn", "mtext"}, k \in {k \in Keys : IsGlyph(k) /\ k \notin Bad}})

(* C24: constructs nested in themselves and in each other, rows that get longer,
   and damaged documents *)
RECURSIVE Tower(_, _, _)
Tower(c, d, n) == IF d = 0 THEN n ELSE Plug(c, Tower(c, d - 1, n))
FamC24(z) ==
  Of({Tower(c, d, x) : c \in Contexts(z), d \in {1, 2, 4} \cup (IF Deep THEN {8, 16} ELSE {8}), x \in {A}}
     \cup {El(t, [i \in 1..w |-> A]) : w \in {0, 1, 2, 4, 8, 16, 32}, t \in {"mrow", "mfenced", "mtable", "mtr", "maction", "menclose", "mmultiscripts"}}
     \cup {Plug(c, Plug(e, Plug(c, Plug(e, A)))) : c \in Contexts(z), e \in IF Deep THEN Contexts(z) ELSE {Frac(Hole, A), El("msup", <<Hole, A>>), El("mfenced", <<Hole>>), Table1(Hole)}})
  \cup {f \in FamC06(z) : Len(f.d.r.c) = 1}

(* C25: groups around any run of children, in every context.  Member: h is the
   tree without them. *)
RECURSIVE ChangeAt(_, _, _)
Wrapped(n, i, j, g) == [n EXCEPT !.k = SubSeq(@, 1, i - 1) \o <<El(g, SubSeq(@, i, j))>> \o SubSeq(@, j + 1, Len(@))]
ChangeAt(n, path, m) == IF path = <<>> THEN m ELSE [n EXCEPT !.k[path[1]] = ChangeAt(@, Tail(path), m)]
RunsOf(n) == {<<i, j>> \in (DOMAIN n.k) \X (DOMAIN n.k) : i <= j /\ (i = j \/ IsRow(n))}
FamC25(z) ==
  LET some  == {A, Row(<<A, B>>), El("msup", <<Row(<<A, B>>), B>>)} \cup (IF Deep THEN Operands(z) ELSE {})
      bases == {Math(<<Plug(c, x)>>) : c \in Contexts(z), x \in some} \cup {Math(k) : k \in SeqsOf({A, Op("("), Nothing, Frac(A, B)}, 2, 3)}
               \cup {Math(<<El(t, k)>>) : t \in {"mrow", "msqrt", "menclose", "merror", "foo", "mtd"}, k \in SeqsOf({A, Op("("), Nothing, Row(<<B, A>>)}, 1, 3)}
      tags  == {"mrow", "mpadded", "foo", "semantics"}
      changes(b) == UNION {{ChangeAt(b, q, Wrapped(At(b, q), r[1], r[2], g)) : r \in RunsOf(At(b, q)),
                            g \in IF Deep THEN tags ELSE {IF Len(q) = 1 THEN "mrow" ELSE IF Len(q) = 2 THEN "foo" ELSE "mstyle"}} : q \in PathsOf(b)}
      made(b, t) == [d |-> PlainDoc(t), p |-> <<>>, h |-> b]
  IN UNION {{made(b, t) : t \in {t \in changes(b) : FlatOf(<<t>>) = FlatOf(<<b>>)}} : b \in bases}

(* C26: delimiters *)
FamC26(z) ==
  LET ops == {Op(c) : c \in {"(", ")", "[", "]", "{", "}", "|", "⟮", "⟦"}} \cup {Leaf("mo", <<"|", "|">>)}
      fences == {"absent", "(", ")", "[", "]", "{", "}", "|", "||", ".", "<", " ", ""}
      inner == {Leaf("mo", <<"{">>), Fenced("{", "}", "absent", <<A>>), Fenced("{", ")", "absent", <<Table1(A)>>), Fenced("|", "|", "absent", <<Table1(A)>>)}
  IN Of({Plug(c, x) : c \in Contexts(z), x \in Operands(z) \cup ops \cup inner}
        \cup {Plug(c, Plug(e, x)) : c \in Contexts(z), e \in Contexts(z), x \in IF Deep THEN inner ELSE {Fenced("{", "]", "absent", <<Table1(A)>>)}}
        \cup {Fenced(o, c, s, k) : o \in fences, c \in fences, s \in {"absent", ";", "| "}, k \in {<<A, B>>, <<Op("{"), Op(")")>>, <<Table1(A)>>, <<Row(<<Table1(Op("}"))>>), A>>}}
        \cup {Attrd("menclose", "notation", v, k) : v \in Notations, k \in SeqsOf({A, Op("{"), Fenced("(", "]", "absent", <<A, B>>)}, 0, 2)}
        \cup {El(t, <<Row(<<x, y>>), Z>>) : t \in {"msup", "msub", "mfrac", "mroot", "munder", "mover"}, x \in ops, y \in ops}
        \cup {Attrd("mfrac", "bevelled", "true", <<Row(<<x, y>>), AB>>) : x \in ops, y \in ops}
        \cup {Leaf(t, KeyText(k)) : t \in {"mi", "mo", "mn", "mtext"}, k \in {k \in Keys : IsGlyph(k)}})

(* C27: scripts on everything, next to everything *)
FamC27(z) ==
  LET scripted == {El("msup", <<A, B>>), El("msub", <<A, B>>), El("msubsup", <<A, B, Z>>), El("munderover", <<A, B, Z>>), El("mmultiscripts", <<A, B, Z>>),
                   El("mmultiscripts", <<A, El("mprescripts", <<>>), B, Z>>)}
      empties  == {Row(<<>>), Nothing, El("none", <<>>), El("mphantom", <<A>>), Leaf("mi", <<>>), El("mtable", <<>>), Row(<<Nothing, Nothing>>), Row(<<Row(<<>>), Nothing, Nothing>>)}
      bases    == scripted \cup empties \cup {A, Row(<<A, B>>), El("mfenced", <<>>), Frac(A, B), Op("^"), Op("("), Leaf("mtext", <<"x", " ">>)}
      over(b)  == {El("msup", <<b, Z>>), El("msub", <<b, Z>>), El("msubsup", <<b, Z, A>>), El("munderover", <<b, Z, A>>), El("mmultiscripts", <<b, Z, A>>),
                   El("mmultiscripts", <<b, Z, A, El("mprescripts", <<>>), A, B>>), El("mmultiscripts", <<b, El("mprescripts", <<>>), A, B>>)}
      ends     == {Row(<<b>>) : b \in bases} \cup {Row(<<A, b>>) : b \in bases} \cup {Row(<<b, Nothing>>) : b \in bases} \cup {Plug(c, b) : c \in Contexts(z), b \in IF Deep THEN bases ELSE {A, El("msup", <<A, B>>), Row(<<>>)}}
      few      == {El("msup", <<A, B>>), El("msub", <<Row(<<>>), B>>), El("mmultiscripts", <<Row(<<>>), B, Z>>)}
  IN Of(UNION {over(b) : b \in bases} \cup UNION {over(b) : b \in ends}
        \cup {Row(<<x, y>>) : x \in UNION {over(b) : b \in scripted \cup {A}}, y \in UNION {over(b) : b \in empties \cup {Row(<<Row(<<Nothing>>)>>)}}}
        \cup {Plug(c, Plug(e, x)) : c \in Contexts(z), e \in Contexts(z), x \in IF Deep THEN few \cup bases ELSE {Row(SetToSeq(few))}}
        \cup {El("msubsup", <<Plug(c, x), A, B>>) : c \in Contexts(z), x \in UNION {over(b) : b \in {El("msup", <<A, B>>), Row(<<>>)}}})

------------------------------------------------------------------------------
Family(p) ==
  CASE p = "C02" -> FamC02(0) [] p = "C03" -> FamC03(0) [] p = "C04" -> FamC04(0) [] p = "C05" -> FamC05(0)
    [] p = "C06" -> FamC06(0) [] p = "C07" -> FamC07(0) [] p = "C08" -> FamC08(0) [] p = "C09" -> FamC09(0)
    [] p = "C10" -> FamC10(0) [] p = "C11" -> FamC11(0) [] p = "C12" -> FamC12(0) [] p = "C13" -> FamC13(0)
    [] p = "C14" -> FamC14(0) [] p = "C15" -> FamC15(0) [] p = "C16" -> FamC16(0) [] p = "C17" -> FamC17(0)
    [] p = "C18" -> FamC18(0) [] p = "C19" -> FamC19(0) [] p = "C20" -> FamC20(0) [] p = "C21" -> FamC21(0)
    [] p = "C22" -> FamC22(0) [] p = "C23" -> FamC23(0) [] p = "C24" -> FamC24(0) [] p = "C25" -> FamC25(0) [] p = "C26" -> FamC26(0) [] p = "C27" -> FamC27(0)
=============================================================================
