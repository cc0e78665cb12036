------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* What each element converts to.                                          *)
(*                                                                         *)
(*   ChildCountError(n)      the child-count rule of n's tag, if violated  *)
(*   Plan(n)                 which children are converted, in which order  *)
(*   Template(n, r, inTab)   n's LaTeX from the LaTeX r of these children  *)
(*                                                                         *)
(* inTab: a table encloses n.  Everything else about the context of n is   *)
(* irrelevant, which is what makes the converter compositional.            *)
(***************************************************************************)
EXTENDS Tree, Leaves

TokenTags == {"mi", "mo", "mn", "mtext"}
ScriptTags == {"msup", "msub", "msubsup"}
Exactly2 == {"mfrac", "mroot", "msup", "msub", "munder", "mover"}
Exactly3 == {"msubsup", "munderover"}

NoError == [tag |-> "", rule |-> "", need |-> 0, got |-> 0]
ChildCountError(n) ==
  LET e(rule, need) == [tag |-> n.t, rule |-> rule, need |-> need, got |-> Len(n.k)]
  IN CASE n.t \in Exactly2 /\ Len(n.k) # 2 -> e("exactly", 2)
       [] n.t \in Exactly3 /\ Len(n.k) # 3 -> e("exactly", 3)
       [] n.t = "mmultiscripts" /\ Len(n.k) < 3 -> e("at least", 3)
       [] OTHER -> NoError

------------------------------------------------------------------------------
(* mmultiscripts: the pairs of scripts that are shown *)

IsPre(n, i) == i <= Len(n.k) /\ n.k[i].t = "mprescripts"
PrePair(n)  == CASE Len(n.k) >= 4 /\ IsPre(n, 2) -> <<3, 4>>
                 [] Len(n.k) >= 6 /\ ~IsPre(n, 2) /\ IsPre(n, 4) -> <<5, 6>>
                 [] OTHER -> <<>>
PostPair(n) == IF IsPre(n, 2) THEN <<>> ELSE <<2, 3>>

(* maction *)
Toggles(n) == LET ty == AttrStr(n, "actiontype") IN ty = "toggle" \/ ty = ""

Plan(n) ==
  CASE n.t \in TokenTags \cup {"mphantom"} -> <<>>
    [] n.t = "maction" /\ ~Toggles(n) -> IF n.k = <<>> THEN <<>> ELSE <<1>>
    [] n.t = "mmultiscripts" -> <<1>> \o PrePair(n) \o PostPair(n)
    [] OTHER -> Indices(n.k)

------------------------------------------------------------------------------
Group(ts)     == <<"{">> \o ts \o <<"}">>
Cmd(c, ts)    == <<"\\" \o c \o "{">> \o ts \o <<"}">>
Parens(ts)    == <<"\\left(">> \o ts \o <<"\\right)">>
ParensIfLong(ts) == IF LongerThanOne(ts) THEN Parens(ts) ELSE ts
Sp(r)         == JoinWith(r, <<Space>>)
Spaces(cs)    == Seq1([i \in DOMAIN cs |-> IF IsWs(cs[i]) THEN Space ELSE cs[i]])

\* The base of a script must be something, and not end with a script itself
\* (it would get two of a kind, which is not LaTeX).
Blank(ts)     == \A i \in DOMAIN ts : ts[i] = "" \/ IsWs(ts[i])
TokenChars(ts) == Concat([i \in DOMAIN ts |-> CharsOf(ts[i])])
EndStep(s, c) ==
  LET t == [s EXCEPT !.closed = "", !.prev = ""]
  IN IF s.esc THEN [t EXCEPT !.esc = FALSE]
     ELSE CASE c = "\\" -> [t EXCEPT !.esc = TRUE]
            [] c = "{" -> [t EXCEPT !.open = Append(@, s.prev)]
            [] c = "}" /\ s.open # <<>> -> [t EXCEPT !.closed = s.open[Len(s.open)], !.open = SubSeq(@, 1, Len(@) - 1)]
            [] OTHER -> [t EXCEPT !.prev = c]
EndsInScript(ts) ==
  LET cs == Strip(TokenChars(ts))
  IN /\ cs # <<>> /\ cs[Len(cs)] = "}"
     /\ FoldLeft(EndStep, [open |-> <<>>, closed |-> "", esc |-> FALSE, prev |-> ""], cs).closed \in {"^", "_"}
Nucleus(ts) == IF Blank(ts) THEN <<"{}">> ELSE IF EndsInScript(ts) THEN Parens(ts) ELSE ts

\* Base of msup, msub, msubsup
ScriptBase(base, ts) == IF Len(base.k) <= 1 \/ Blank(ts) THEN Nucleus(ts) ELSE ParensIfLong(ts)

Enclose(notation, ts) ==
  CASE notation = "actuarial" -> <<"\\overline{\\left.">> \o ts \o <<"\\right|}">>
    [] notation = "radical"   -> Cmd("sqrt", ts)
    [] notation \in {"box", "roundedbox", "circle"} -> Cmd("boxed", ts)
    [] notation = "left"      -> <<"\\left|">> \o ts
    [] notation = "right"     -> ts \o <<"\\right|">>
    [] notation = "top"       -> Cmd("overline", ts)
    [] notation = "bottom"    -> Cmd("underline", ts)
    [] notation = "updiagonalstrike"   -> Cmd("cancel", ts)
    [] notation = "downdiagonalstrike" -> Cmd("bcancel", ts)
    [] notation = "updiagonalarrow"    -> <<"\\cancelto{}{">> \o ts \o <<"}">>
    [] notation \in {"verticalstrike", "horizontalstrike"} -> Cmd("hcancel", ts)
    [] notation = "madruwb"     -> <<"\\underline{">> \o ts \o <<"\\right|}">>
    [] notation = "phasorangle" -> <<"{\\angle", Space, "\\underline{">> \o ts \o <<"}}">>
    [] OTHER -> <<"\\overline{\\left.\\right)">> \o ts \o <<"}">>

Accents == {"\\hat", "\\bar", "\\underbrace", "\\overbrace"}
UnderOver(command, base, script) ==
  IF \E a \in Accents : Spells(script, a) THEN script \o Group(base)
  ELSE Cmd(command, script) \o Group(base)

\* Fenced list: separators in order, the last one repeated, commas by default.
FenceSep(seps, i) == IF seps = <<>> THEN <<",">>
                     ELSE <<Spaces(seps)[IF i <= Len(seps) THEN i ELSE Len(seps)]>>
FencedList(open, close, seps, r) ==
  <<"\\left">> \o (IF open = <<>> THEN <<"(">> ELSE Spaces(open))
  \o Concat([i \in DOMAIN r |-> IF i = Len(r) THEN r[i] ELSE r[i] \o FenceSep(seps, i)])
  \o <<"\\right">> \o (IF close = <<>> THEN <<")">> ELSE Spaces(close))

\* Fenced table
MatrixKind(open, close) ==
  LET o == Str(open)  c == Str(close)
  IN CASE o = "(" /\ c = ")"   -> "pmatrix"
       [] o = "[" /\ c = "]"   -> "bmatrix"
       [] o = "{" /\ c = "}"   -> "Bmatrix"
       [] o = "|" /\ c = "|"   -> "vmatrix"
       [] o = "||" /\ c = "||" -> "Vmatrix"
       [] o # c                -> "matrix"
       [] OTHER                -> "bmatrix"
Environment(kind, ts) == <<"\\begin{" \o kind \o "}">> \o ts \o <<"\\end{" \o kind \o "}">>
FencedTable(open, close, r) ==
  LET kind == MatrixKind(open, close)
      env  == Environment(kind, <<Space>> \o Sp(r) \o <<Space>>)
  IN IF kind = "matrix"
     THEN <<"\\left">> \o Spaces(open) \o env \o <<"\\right">> \o Spaces(close)
     ELSE env

RowSep == <<Space, "\\\\", Space>>
CellSep == <<Space, "&", Space>>

MultiScripts(n, r) ==
  LET np == Len(PrePair(n))
      script(i, lead) == <<lead \o "{">> \o r[i] \o <<"}^{">> \o r[i + 1] \o <<"}">>
      spaced == \E i \in DOMAIN r[1] : IsWs(r[1][i])
  IN (IF np = 0 THEN <<>> ELSE script(2, "\\_"))
     \o (IF spaced THEN Parens(r[1]) ELSE Nucleus(r[1]))
     \o (IF PostPair(n) = <<>> THEN <<>> ELSE script(np + 2, "_"))

Template(n, r, inTab) ==
  CASE n.t = "mi" -> WrapFonts(VariantFonts(AttrStr(n, "mathvariant")), Identifier(n.x))
    [] n.t = "mo" -> Operator(n.x)
    [] n.t = "mn" -> Number(n.x)
    [] n.t = "mtext" -> Text(n.x, AttrStr(n, "mathvariant"))
    [] n.t = "msup" -> ScriptBase(n.k[1], r[1]) \o <<"^">> \o Group(r[2])
    [] n.t = "msub" -> ScriptBase(n.k[1], r[1]) \o <<"_">> \o Group(r[2])
    [] n.t = "msubsup" -> ScriptBase(n.k[1], r[1]) \o <<"_">> \o Group(r[2]) \o <<"^">> \o Group(r[3])
    [] n.t = "mfrac" -> IF AttrStr(n, "bevelled") \in {"", "false"}
                        THEN <<"\\frac">> \o Group(r[1]) \o Group(r[2])
                        ELSE ParensIfLong(r[1]) \o <<"/">> \o ParensIfLong(r[2])
    [] n.t = "msqrt" -> Cmd("sqrt", Sp(r))
    [] n.t = "mroot" -> <<"\\sqrt[">> \o r[2] \o <<"]{">> \o r[1] \o <<"}">>
    [] n.t = "munderover" -> Nucleus(r[1]) \o <<"_">> \o Group(r[2]) \o <<"^">> \o Group(r[3])
    [] n.t = "munder" -> UnderOver("underset", r[1], r[2])
    [] n.t = "mover" -> UnderOver("overset", r[1], r[2])
    [] n.t = "mmultiscripts" -> MultiScripts(n, r)
    [] n.t = "mfenced" -> IF HasBelow(n, "mtable")
                          THEN FencedTable(Attr(n, "open"), Attr(n, "close"), r)
                          ELSE FencedList(Attr(n, "open"), Attr(n, "close"), Attr(n, "separators"), r)
    [] n.t = "mtable" -> LET rows == JoinWith(r, RowSep)
                         IN IF inTab THEN Environment("matrix", rows) ELSE rows
    [] n.t = "mtr" -> JoinWith(r, CellSep)
    [] n.t = "menclose" -> Enclose(AttrStr(n, "notation"), Sp(r))
    [] n.t = "merror" -> <<"\\color{red}{">> \o Sp(r) \o <<"}">>
    [] n.t = "mphantom" -> <<>>
    [] n.t = "maction" -> IF Toggles(n) THEN JoinWith(r, <<Space, "\\Longrightarrow", Space>>)
                          ELSE IF r = <<>> THEN <<>> ELSE r[1]
    [] OTHER -> Sp(r)      \* math, mrow, mpadded, mtd, ... and every unknown element

------------------------------------------------------------------------------
(* The meaning of a whole tree, by structural recursion.                    *)

Below(n, inTab) == inTab \/ n.t = "mtable"

RECURSIVE Tex(_, _)
Tex(n, inTab) ==
  LET p == Plan(n)
  IN Template(n, Seq1([i \in DOMAIN p |-> Tex(n.k[p[i]], Below(n, inTab))]), inTab)

RECURSIVE FirstError(_)
FirstError(n) ==
  IF ChildCountError(n) # NoError THEN ChildCountError(n)
  ELSE LET p == Plan(n)
           es == Seq1([i \in DOMAIN p |-> FirstError(n.k[p[i]])])
           bad == SelectSeq(es, LAMBDA e : e # NoError)
       IN IF bad = <<>> THEN NoError ELSE bad[1]

\* A sequence of formulas (math elements): their LaTeX, empty ones skipped.
FormulasTex(fs) ==
  JoinWith(SelectSeq(Seq1([i \in DOMAIN fs |-> Normalise(Tex(fs[i], FALSE))]), LAMBDA ts : ts # <<>>),
           <<Space>>)
FormulasError(fs) ==
  LET bad == SelectSeq(Seq1([i \in DOMAIN fs |-> FirstError(fs[i])]), LAMBDA e : e # NoError)
  IN IF bad = <<>> THEN NoError ELSE bad[1]
=============================================================================
