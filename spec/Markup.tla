------------------------------- MODULE Markup -------------------------------
(***************************************************************************)
(* Documents as they are written, and what they mean as element trees.     *)
(*                                                                         *)
(* An item is one of                                                       *)
(*   element  [k |-> "e", t |-> tag, p |-> "" or "mml:",                   *)
(*             a |-> <<[n |-> name, v |-> value, q |-> how, w |-> spaces]>>,*)
(*               (optionally e |-> <<spaces before =, spaces after =>>, and *)
(*               y |-> the value as written with references)               *)
(*             z |-> spaces before the end of the start tag,               *)
(*             s |-> self-closing?, c |-> items]                           *)
(*   text     [k |-> "t", h |-> how, x |-> characters]                     *)
(*   comment  [k |-> "c", x |-> characters]                                *)
(*   process. instruction  [k |-> "p", x |-> characters]                   *)
(*   document type declaration  [k |-> "d", x |-> characters]               *)
(*   entity reference  [k |-> "r", x |-> characters, c |-> items]: stands   *)
(*            for items (as the document type declaration says)            *)
(*   junk     [k |-> "j", x |-> characters]: markup that is never          *)
(*            well-formed where it stands (a stray <, an unclosed tag, ...) *)
(* Text is written plain, as CDATA or as decimal/hexadecimal references.   *)
(* Attributes are written in double ("d") or single ("s") quotes or are    *)
(* malformed: no value ("n"), no value after = ("e"), unquoted ("u").       *)
(* A document is [b |-> prolog items (an XML declaration is a processing   *)
(* instruction), r |-> root element, f |-> items after it].                *)
(***************************************************************************)
EXTENDS Layout

GoodQuotes == {"d", "s"}
IsElem(i) == i.k = "e"

------------------------------------------------------------------------------
(* Writing a document *)

EscText(c)  == CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] OTHER -> c
EscAttr(c, quote) == CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;"
                       [] c = quote -> (IF quote = "'" THEN "&apos;" ELSE "&quot;")
                       [] OTHER -> c
Equals(a) == IF "e" \in DOMAIN a THEN a.e[1] \o <<"=">> \o a.e[2] ELSE <<"=">>
WriteAttr(a) ==
  a.w \o <<a.n>> \o
  CASE a.q \in GoodQuotes /\ "y" \in DOMAIN a ->
         LET quote == IF a.q = "d" THEN "\"" ELSE "'" IN Equals(a) \o <<quote>> \o a.y \o <<quote>>
    [] a.q = "d" -> Equals(a) \o <<"\"">> \o [i \in DOMAIN a.v |-> EscAttr(a.v[i], "\"")] \o <<"\"">>
    [] a.q = "s" -> Equals(a) \o <<"'">> \o [i \in DOMAIN a.v |-> EscAttr(a.v[i], "'")] \o <<"'">>
    [] a.q = "n" -> <<>>
    [] a.q = "e" -> <<"=">>
    [] a.q = "u" -> <<"=">> \o a.v

\* References are written by the driver (it knows the code points): the
\* characters come with their reference in the field y.
WriteText(i) ==
  CASE i.h = "plain" -> [j \in DOMAIN i.x |-> EscText(i.x[j])]
    [] i.h = "cdata" -> <<"<![CDATA[">> \o i.x \o <<"]]>">>
    [] i.h = "ref"   -> i.y

RECURSIVE Write(_)
Write(i) ==
  CASE i.k = "t" -> WriteText(i)
    [] i.k = "c" -> <<"<!--">> \o i.x \o <<"-->">>
    [] i.k = "p" -> <<"<?">> \o i.x \o <<"?>">>
    [] i.k = "d" -> <<"<!DOCTYPE ">> \o i.x \o <<">">>
    [] i.k \in {"j", "r"} -> i.x
    [] i.k = "e" -> <<"<", i.p, i.t>> \o Concat([j \in DOMAIN i.a |-> WriteAttr(i.a[j])]) \o i.z
                    \o (IF i.s /\ i.c = <<>> THEN <<"/>">>
                        ELSE <<">">> \o Concat([j \in DOMAIN i.c |-> Write(i.c[j])])
                             \o <<"</", i.p, i.t, ">">>)
WriteAll(is) == Concat([j \in DOMAIN is |-> Write(is[j])])
WriteDoc(d) == WriteAll(d.b) \o Write(d.r) \o WriteAll(d.f)

------------------------------------------------------------------------------
(* Reading: what the markup means *)

\* A literal line break (LF, CR or CR LF) is a space.
Literal(cs) ==
  LET one == SelectSeq(Indices(cs), LAMBDA i : ~(cs[i] = CR /\ i < Len(cs) /\ cs[i + 1] = LF))
  IN Seq1([j \in DOMAIN one |-> IF cs[one[j]] \in LineBreaks THEN Space ELSE cs[one[j]]])
TextOf(i)   == IF i.h = "ref" THEN i.x ELSE Literal(i.x)

\* What entities stand for, in their place.
RECURSIVE Expanded(_)
Expanded(is) == IF \A j \in DOMAIN is : is[j].k # "r" THEN is
                ELSE Concat([j \in DOMAIN is |-> IF is[j].k = "r" THEN Expanded(is[j].c) ELSE <<is[j]>>])

RECURSIVE Read(_)
Read(e) ==
  LET good  == SelectSeq(e.a, LAMBDA a : a.q \in GoodQuotes)
      items == Expanded(e.c)
      texts == SelectSeq(items, LAMBDA i : i.k = "t")
      elems == SelectSeq(items, LAMBDA i : i.k = "e")
      value(a) == IF "y" \in DOMAIN a THEN a.v ELSE Literal(a.v)
  IN Node(e.t, Seq1([i \in DOMAIN good |-> <<good[i].n, value(good[i])>>]),
          IF texts = <<>> THEN <<>>
          ELSE Strip(Concat([i \in DOMAIN texts |-> TextOf(texts[i])])),
          Seq1([i \in DOMAIN elems |-> Read(elems[i])]))

\* The math elements of a document, in document order.
RECURSIVE FormulasOf(_)
FormulasOf(n) == IF n.t = "math" THEN <<n>>
                 ELSE Concat([i \in DOMAIN n.k |-> FormulasOf(n.k[i])])
Formulas(d) == FormulasOf(Read(d.r))

------------------------------------------------------------------------------
(* Malformed attributes *)

\* As written, without surrounding spaces
Written(a) == CASE a.q = "n" -> <<a.n>>
                [] a.q = "e" -> <<a.n, "=">>
                [] a.q = "u" -> <<a.n, "=">> \o a.v

RECURSIVE Malformed(_)      \* all malformed attributes below an item, in order
Malformed(i) ==
  IF ~IsElem(i) THEN <<>>
  ELSE SelectSeq(i.a, LAMBDA a : a.q \notin GoodQuotes)
       \o Concat([j \in DOMAIN i.c |-> Malformed(i.c[j])])
MalformedWords(d) == {Written(Malformed(d.r)[j]) : j \in DOMAIN Malformed(d.r)}
RECURSIVE HasJunk(_)
HasJunk(i) == i.k = "j" \/ (IsElem(i) /\ \E j \in DOMAIN i.c : HasJunk(i.c[j]))
WellFormed(d) == Malformed(d.r) = <<>> /\ ~HasJunk(d.r)
ParsesAsIs(d) == WellFormed(d)

\* Every malformed attribute is of a kind that has to be repaired.
RECURSIVE Repairable(_)
Repairable(i) ==
  IsElem(i) =>
    /\ \A j \in DOMAIN i.a :
         i.a[j].q \in GoodQuotes \/ (~(i.s /\ i.c = <<>>) /\ (i.a[j].q = "u" \/ j = Len(i.a)))
    /\ \A j \in DOMAIN i.c : Repairable(i.c[j])
RepairLimit == 4
MustBeRepaired(d) == ~HasJunk(d.r) /\ Repairable(d.r) /\ Cardinality(MalformedWords(d)) <= RepairLimit

\* The document without the malformed attributes Written as word.
RECURSIVE Without(_, _)
Without(i, word) ==
  IF ~IsElem(i) THEN i
  ELSE [i EXCEPT !.a = SelectSeq(@, LAMBDA a : a.q \in GoodQuotes \/ Written(a) # word),
                 !.c = Seq1([j \in DOMAIN @ |-> Without(@[j], word)])]

\* The document without any malformed attribute.
RECURSIVE Clean(_)
Clean(i) == IF ~IsElem(i) THEN i
            ELSE [i EXCEPT !.a = SelectSeq(@, LAMBDA a : a.q \in GoodQuotes),
                           !.c = Seq1([j \in DOMAIN @ |-> Clean(@[j])])]
Repaired(d) == [d EXCEPT !.r = Clean(@)]

------------------------------------------------------------------------------
(* The outcome of converting a document that is well-formed up to malformed *)
(* attributes: what a repair that is exact leads to.                        *)
Outcome(d) ==
  LET fs == Formulas(d)
      e  == FormulasError(fs)
  IN IF e # NoError THEN [kind |-> "count", err |-> e, tex |-> <<>>]
     ELSE [kind |-> "tex", err |-> NoError, tex |-> FormulasTex(fs)]
=============================================================================
