------------------------------ MODULE Scanner ------------------------------
(***************************************************************************)
(* Reading a text, character by character.                                 *)
(*                                                                         *)
(* Markup says what a document that somebody wrote means; this module says *)
(* what an arbitrary text is: well-formed, well-formed but for malformed   *)
(* attributes, or broken.  It is a machine with one transition per         *)
(* character, ScanStep; its state is                                       *)
(*   m       mode (in which kind of construct the next character stands)   *)
(*   buf     what has been read of the current piece                       *)
(*   tag, an, q, back   current tag, attribute name, quote, mode to return *)
(*   attrs   attributes of the current tag; nattr: how many were written   *)
(*   tagmal  malformed ones of the current tag: <<kind, number, spelling>> *)
(*   stack   open elements; roots: elements at the top level               *)
(*   toks    what has been read: start tags, end tags, texts               *)
(*   mal     spellings of all malformed attributes; must: all are of a     *)
(*           kind that has to be repaired                                  *)
(*   bad     broken: must be rejected                                      *)
(*   odd     a reading is not determined (nothing is claimed)              *)
(***************************************************************************)
EXTENDS Chars

ScanSpace == {" ", "\t"} \cup LineBreaks
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Dec   == {"0","1","2","3","4","5","6","7","8","9"}
NameStart == (AsciiWord \ Dec) \cup {"_"}
NameChar  == AsciiWord \cup {"_", "-", "."}
Foreign(c) == c \notin Ascii /\ c \notin ScanSpace     \* may or may not be allowed in a name
Quote == {"\"", "'"}

KnownRefs == {"amp", "lt", "gt", "quot", "apos"}
KnownDecls == {"xml version=\"1.0\"", "xml version=\"1.0\" encoding=\"UTF-8\"",
               "xml version='1.0' encoding='utf-8' standalone='yes'"}
KnownTypes == {"math", "html",
               "math PUBLIC \"-//W3C//DTD MathML 2.0//EN\" \"http://www.w3.org/Math/DTD/mathml2/mathml2.dtd\""}

EndsWith(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
StartsWith(s, e) == Len(s) >= Len(e) /\ SubSeq(s, 1, Len(e)) = e
DropLast(s, n) == SubSeq(s, 1, Len(s) - n)
AllSpace(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in ScanSpace

HexDigit(c) ==
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
    [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
    [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15 [] OTHER -> 99
NumberIn(cs, base) ==   \* 0 if it is none
  FoldLeft(LAMBDA v, c : IF v < 0 \/ HexDigit(c) >= base THEN 0 - 1
                         ELSE IF v > 2000000 THEN v ELSE v * base + HexDigit(c), 0, cs)
RefKind(r) ==
  LET cs == CharsOf(r)
      num == CASE Len(r) > 2 /\ StartsWith(r, "#x") -> NumberIn(SubSeq(cs, 3, Len(r)), 16)
               [] Len(r) > 1 /\ StartsWith(r, "#") /\ cs[2] # "x" -> NumberIn(SubSeq(cs, 2, Len(r)), 10)
               [] OTHER -> 0 - 1
  IN CASE r \in KnownRefs -> "good"
       [] num \in 32..55295 \cup {9, 10, 13} -> "good"
       [] num >= 0 -> "odd"
       [] OTHER -> "bad"

ScanStart ==
  [m |-> "text", buf |-> "", tag |-> "", an |-> "", q |-> "", ref |-> "", back |-> "",
   attrs |-> <<>>, nattr |-> 0, tagmal |-> <<>>, stack |-> <<>>, roots |-> 0, toks |-> <<>>,
   mal |-> {}, must |-> TRUE, bad |-> FALSE, odd |-> FALSE, seen |-> 0]

Broken(s)   == [s EXCEPT !.bad = TRUE]
Strange(s)  == [s EXCEPT !.odd = TRUE]
To(s, mode) == [s EXCEPT !.m = mode, !.buf = ""]
More(s, c)  == [s EXCEPT !.buf = @ \o c]

AddText(s, x) ==
  IF x = "" THEN s
  ELSE IF s.stack = <<>> THEN (IF AllSpace(x) THEN s ELSE Broken(s))
  ELSE [s EXCEPT !.toks = Append(@, <<"text", x>>)]

\* An attribute without a quoted value, spelt w, of a kind, read in full.
Malformed1(s, kind, w) ==
  [s EXCEPT !.nattr = @ + 1, !.tagmal = Append(@, <<kind, s.nattr + 1, w>>)]
Good1(s) ==
  IF \E i \in DOMAIN s.attrs : s.attrs[i][1] = s.an THEN Broken(s)
  ELSE [s EXCEPT !.nattr = @ + 1, !.attrs = Append(@, <<s.an, s.buf>>)]

EndTag(s, tag) ==
  IF s.stack = <<>> \/ s.stack[Len(s.stack)] # tag THEN Broken(s)
  ELSE [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.toks = Append(@, <<"end", tag>>)]
StartTag(s, closed) ==
  LET t == [s EXCEPT !.stack = Append(@, s.tag), !.toks = Append(@, <<"start", s.tag, s.attrs>>),
                     !.roots = IF s.stack = <<>> THEN @ + 1 ELSE @,
                     !.bad = s.bad \/ (s.stack = <<>> /\ s.roots > 0),
                     !.mal = @ \cup {s.tagmal[i][3] : i \in DOMAIN s.tagmal},
                     !.must = @ /\ \A i \in DOMAIN s.tagmal :
                                     ~closed /\ (s.tagmal[i][1] = "u" \/
                                                 (s.tagmal[i][1] # "w" /\ s.tagmal[i][2] = s.nattr)),
                     !.attrs = <<>>, !.nattr = 0, !.tagmal = <<>>, !.m = "text", !.buf = ""]
  IN IF closed THEN EndTag(t, s.tag) ELSE t

\* The character c where an attribute, or the end of the tag, may stand.
InTag(s, c) ==
  CASE c \in ScanSpace -> To(s, "in")
    [] c = ">" -> StartTag(s, FALSE)
    [] c = "/" -> To(s, "slash")
    [] c \in Quote \cup {"<"} -> Broken(s)
    [] c \in NameStart -> [To(s, "aname") EXCEPT !.an = c]
    [] Foreign(c) \/ c = "=" -> More(To(Strange(s), "word"), c)
    [] OTHER -> More(To(s, "word"), c)

Instruction(s, x) ==
  LET words == SelectSeq(CharsOf(x), LAMBDA c : TRUE)
      stop  == {i \in DOMAIN words : words[i] \in ScanSpace}
      n     == IF stop = {} THEN Len(x) ELSE (CHOOSE i \in stop : \A j \in stop : i <= j) - 1
      name  == SubSeq(x, 1, n)
      cs    == SubSeq(words, 1, n)
  IN IF n = 0 THEN Broken(s)
     ELSE IF StartsWith(x, "xml") /\ n = 3
     THEN IF s.seen # 2 THEN Broken(s) ELSE IF x \in KnownDecls THEN s ELSE Strange(s)
     ELSE IF \E i \in 1..n : Foreign(cs[i]) \/ cs[i] = ":" THEN Strange(s)
     ELSE IF n = 3 /\ cs[1] \in {"x", "X"} /\ cs[2] \in {"m", "M"} /\ cs[3] \in {"l", "L"} THEN Broken(s)
     ELSE IF cs[1] \notin NameStart \/ \E i \in 1..n : cs[i] \notin NameChar THEN Broken(s)
     ELSE s

Bangs == {"--", "[CDATA[", "DOCTYPE "}

\* Transition on the character c.
ScanStep(s0, c) ==
  IF s0.bad THEN s0
  ELSE LET s == [s0 EXCEPT !.seen = IF s0.m = "pi" THEN @ ELSE @ + 1] IN
  CASE s.m = "text" ->
         (CASE c = "<" -> To(AddText(s, s.buf), "lt")
            [] c = "&" -> [s EXCEPT !.m = "ref", !.back = "text", !.ref = ""]
            [] c = ">" /\ EndsWith(s.buf, "]]") -> Broken(s)
            [] OTHER -> More(s, c))
    [] s.m = "ref" ->
         (CASE c = ";" /\ RefKind(s.ref) = "bad" -> Broken(s)
            [] c = ";" -> [s EXCEPT !.m = s.back, !.odd = @ \/ RefKind(s.ref) = "odd",
                                    !.buf = @ \o "&" \o s.ref \o ";"]
            [] c \in AsciiWord \cup {"#"} -> [s EXCEPT !.ref = @ \o c]
            [] OTHER -> Broken(s))
    [] s.m = "lt" ->
         (CASE c = "/" -> To(s, "etag")
            [] c = "!" -> To(s, "bang")
            [] c = "?" -> To(s, "pi")
            [] c \in NameStart -> More(To(s, "name"), c)
            [] Foreign(c) \/ c = ":" -> More(To(Strange(s), "name"), c)
            [] OTHER -> Broken(s))
    [] s.m = "name" ->
         (CASE c \in NameChar -> More(s, c)
            [] Foreign(c) \/ c = ":" -> More(Strange(s), c)
            [] c \in ScanSpace \cup {">", "/"} -> InTag([s EXCEPT !.tag = s.buf], c)
            [] OTHER -> Broken(s))
    [] s.m = "in" -> InTag(s, c)
    [] s.m = "aname" ->
         (CASE c \in NameChar -> [s EXCEPT !.an = @ \o c]
            [] c = ":" /\ s.an = "xml" -> [s EXCEPT !.an = @ \o c]
            [] Foreign(c) \/ c = ":" -> [Strange(s) EXCEPT !.an = @ \o c]
            [] c \in ScanSpace -> To(s, "aft")
            [] c = "=" -> To(s, "eq")
            [] c = ">" -> StartTag(Malformed1(s, "n", s.an), FALSE)
            [] c = "/" -> [s EXCEPT !.m = "word", !.buf = s.an \o c]
            [] c = "<" -> Broken(s)
            [] c \in Quote -> Strange(To(s, "in"))
            [] OTHER -> [s EXCEPT !.m = "word", !.buf = s.an \o c])
    [] s.m = "aft" ->
         (CASE c \in ScanSpace -> s
            [] c = "=" -> To(s, "eqsp")
            [] OTHER -> InTag(Malformed1(s, "n", s.an), c))
    [] s.m = "eq" ->
         (CASE c \in ScanSpace -> To(s, "eqws")
            [] c \in Quote -> [To(s, "val") EXCEPT !.q = c]
            [] c = ">" -> StartTag(Malformed1(s, "e", s.an \o "="), FALSE)
            [] c = "<" -> Broken(s)
            [] OTHER -> More(To(s, "uq"), c))
    [] s.m \in {"eqws", "eqsp"} ->
         (CASE c \in ScanSpace -> s
            [] c \in Quote -> [To(s, "val") EXCEPT !.q = c]
            [] c = ">" /\ s.m = "eqws" -> StartTag(Malformed1(s, "e", s.an \o "="), FALSE)
            [] OTHER -> InTag([Malformed1(s, "w", s.an \o "=") EXCEPT !.odd = @ \/ c = "/"], c))
    [] s.m \in {"uq", "word"} ->
         LET done == IF s.m = "uq" THEN Malformed1(s, "u", s.an \o "=" \o s.buf)
                     ELSE Malformed1(s, "w", s.buf)
         IN (CASE c \in ScanSpace -> To([done EXCEPT !.odd = @ \/ EndsWith(s.buf, "=")], "in")
               [] c = ">" /\ EndsWith(s.buf, "/") -> Strange(StartTag(done, FALSE))
               [] c = ">" -> StartTag(done, FALSE)
               [] c = "<" -> Broken(s)
               [] c \in Quote -> Strange(To(s, "in"))
               [] OTHER -> More(s, c))
    [] s.m = "val" ->
         (CASE c = s.q -> To(Good1(s), "aftval")
            [] c = "<" -> Broken(s)
            [] c = "&" -> [s EXCEPT !.m = "ref", !.back = "val", !.ref = ""]
            [] OTHER -> More(s, c))
    [] s.m = "aftval" -> (IF c \in ScanSpace \cup {">", "/"} THEN InTag(s, c) ELSE Broken(s))
    [] s.m = "slash"  -> (IF c = ">" THEN StartTag(s, TRUE) ELSE Strange(InTag(s, c)))
    [] s.m = "etag" ->
         (CASE c \in NameChar -> More(s, c)
            [] Foreign(c) \/ c = ":" -> More(Strange(s), c)
            [] c \in ScanSpace /\ s.buf # "" -> [s EXCEPT !.m = "etagws"]
            [] c = ">" -> To(EndTag(s, s.buf), "text")
            [] OTHER -> Broken(s))
    [] s.m = "etagws" ->
         (CASE c \in ScanSpace -> s
            [] c = ">" -> To(EndTag(s, s.buf), "text")
            [] c = "<" -> Broken(s)
            [] OTHER -> Strange(s))
    [] s.m = "bang" ->
         LET b == s.buf \o c
         IN (CASE b = "--" -> To(s, "comment")
               [] b = "[CDATA[" -> (IF s.stack = <<>> THEN Broken(s) ELSE To(s, "cdata"))
               [] b = "DOCTYPE " -> (IF s.roots > 0 \/ s.stack # <<>> THEN Broken(s) ELSE To(s, "doctype"))
               [] \E x \in Bangs : StartsWith(x, b) -> More(s, c)
               [] OTHER -> Broken(s))
    [] s.m = "comment" ->
         (CASE EndsWith(s.buf, "--") -> (IF c = ">" THEN To(s, "text") ELSE Broken(s))
            [] OTHER -> More(s, c))
    [] s.m = "cdata" ->
         (CASE c = ">" /\ EndsWith(s.buf, "]]") -> To(AddText(s, "<![" \o s.buf), "text")
            [] OTHER -> More(s, c))
    [] s.m = "pi" ->
         (CASE c = ">" /\ EndsWith(s.buf, "?") -> To(Instruction(s, DropLast(s.buf, 1)), "text")
            [] OTHER -> More(s, c))
    [] s.m = "doctype" ->
         (CASE c = ">" /\ s.buf \in KnownTypes -> To(s, "text")
            [] c = ">" -> Strange(To(s, "text"))
            [] OTHER -> More(s, c))

\* The text as it is read: line breaks are spaces, no name prefix mml:, no
\* white space before it.
Prefix == <<"m", "m", "l", ":">>
PrefixAt(cs, i) == i >= 1 /\ i + 3 <= Len(cs) /\ SubSeq(cs, i, i + 3) = Prefix
Plainly(cs) ==
  LET kept == SelectSeq(Indices(cs), LAMBDA i : \A j \in 0..3 : ~PrefixAt(cs, i - j))
      flat == Seq1([k \in DOMAIN kept |-> IF cs[kept[k]] \in LineBreaks THEN " " ELSE cs[kept[k]]])
  IN IF FirstInk(flat) = 0 THEN <<>> ELSE SubSeq(flat, FirstInk(flat), Len(flat))

ScanEnd(s) ==
  IF s.bad THEN s
  ELSE LET t == IF s.m = "text" THEN AddText(s, s.buf) ELSE s
       IN [t EXCEPT !.bad = @ \/ t.m # "text" \/ t.stack # <<>> \/ t.roots # 1]

ScanText(x) == ScanEnd(FoldLeft(ScanStep, ScanStart, Plainly(CharsOf(x))))

\* What a text is.
ScanKind(s) == IF s.odd THEN "odd" ELSE IF s.bad THEN "broken"
               ELSE IF s.mal = {} THEN "good" ELSE "malformed"
ScanMust(s) == s.must /\ Cardinality(s.mal) <= 4
=============================================================================
