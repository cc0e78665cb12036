------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Text primitives.                                                        *)
(*                                                                         *)
(* Input text is a sequence of characters; a character is a string holding *)
(* one Unicode code point.  LaTeX is a sequence of *tokens* (strings); the *)
(* LaTeX text is their concatenation.  Every white space character of the  *)
(* LaTeX is a token of its own, the token " ": white space is only ever    *)
(* observed after normalisation, which makes all of it alike.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, TLC

\* Symbol tables and character classes: data of the specification.
Data == JsonDeserialize("symbols.json")

Space == " "
WhiteSpace == Range(Data.whitespace)      \* Unicode white space
Ascii      == Range(Data.ascii)           \* printable ASCII
AsciiWord  == Range(Data.asciiword)       \* a-z A-Z 0-9
Letters    == AsciiWord \ {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LineBreaks == Range(Data.linebreaks)      \* LF, CR
LF == Data.linebreaks[1]
CR == Data.linebreaks[2]

Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Str(cs)    == FoldLeft(LAMBDA a, b : a \o b, "", cs)

\* Sequences ss[1], sep, ss[2], sep, ..., ss[n] concatenated.
JoinWith(ss, sep) ==
  IF ss = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))

\* Sequences are built as values (TLC would otherwise evaluate an element anew
\* at each access, which is exponential for nested ones).
Seq1(f) == TLCEval(f)

Indices(s) == [i \in 1..Len(s) |-> i]

IsWs(c) == c \in WhiteSpace

\* Index of the first / last character that is not white space (0: none).
FirstInk(cs) == IF \E i \in DOMAIN cs : ~IsWs(cs[i])
                THEN CHOOSE i \in DOMAIN cs : ~IsWs(cs[i]) /\ \A j \in 1..(i-1) : IsWs(cs[j])
                ELSE 0
LastInk(cs)  == IF \E i \in DOMAIN cs : ~IsWs(cs[i])
                THEN CHOOSE i \in DOMAIN cs : ~IsWs(cs[i]) /\ \A j \in (i+1)..Len(cs) : IsWs(cs[j])
                ELSE 0
Strip(cs) == IF cs = <<>> THEN cs
             ELSE IF ~IsWs(cs[1]) /\ ~IsWs(cs[Len(cs)]) THEN cs
             ELSE IF FirstInk(cs) = 0 THEN <<>> ELSE SubSeq(cs, FirstInk(cs), LastInk(cs))

\* Runs of white space become one space; none is left at the ends.  Works on
\* characters and on LaTeX tokens alike (empty tokens vanish).
Normalise(cs) ==
  LET ink == SelectSeq(cs, LAMBDA c : c # "")
      kp  == SelectSeq(Indices(ink),
                       LAMBDA i : ~IsWs(ink[i]) \/ (i > 1 /\ ~IsWs(ink[i-1])))
      ws  == Seq1([k \in DOMAIN kp |-> IF IsWs(ink[kp[k]]) THEN Space ELSE ink[kp[k]]])
  IN IF ws # <<>> /\ ws[Len(ws)] = Space THEN SubSeq(ws, 1, Len(ws) - 1) ELSE ws

\* The LaTeX has more than one character.  (TLC counts a character outside the
\* BMP as two; only single characters of the input can be such tokens.)
OneChar(t) == \/ Len(t) = 1
              \/ Len(t) = 2 /\ SubSeq(t, 1, 1) \notin Ascii
LongerThanOne(ts) ==
  LET ink == SelectSeq(ts, LAMBDA t : t # "")
  IN Len(ink) > 1 \/ (Len(ink) = 1 /\ ~OneChar(ink[1]))

\* The characters of a (BMP) string.
CharsOf(s) == Seq1([i \in 1..Len(s) |-> SubSeq(s, i, i)])

\* ts, concatenated, is exactly the string s (compared token by token).
Spells(ts, s) ==
  LET step(a, t) == IF a = 0 THEN 0
                    ELSE LET n == Len(t)
                         IN IF n = 0 THEN a
                            ELSE IF a + n - 1 > Len(s) THEN 0
                            ELSE IF SubSeq(s, a, a + n - 1) = t THEN a + n ELSE 0
  IN FoldLeft(step, 1, ts) = Len(s) + 1
=============================================================================
