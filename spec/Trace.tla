------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: what the implementation was observed to do, checked   *)
(* against the specification.                                              *)
(*                                                                         *)
(* An event is one observation for one clause of a property:               *)
(*   [id, clause, prop, cases |-> <<[doc, xml, out], ...>>, args]          *)
(* A case is one call: doc is the abstract document (see Markup), xml the  *)
(* text that was passed to convert, out what came back:                    *)
(*   [ok |-> a string was returned, tex |-> that string,                   *)
(*    count |-> InvalidNumberOfChildrenError was raised, msg |-> message]  *)
(*                                                                         *)
(* The verdict of an event is total:                                       *)
(*   "ok"         the observation is allowed by the specification          *)
(*   "violation"  it is not                                                *)
(*   "unrelated"  it is not, but nothing the property is about is involved *)
(*   "skip"       the precondition of the clause is not met                *)
(*   "unbound"    the text is not the one the document stands for          *)
(***************************************************************************)
EXTENDS Props, Scanner, IOUtils

Log    == JsonDeserialize(IOEnv.TRACE_FILE)
Shards == 32

Ok(b)     == IF b THEN "ok" ELSE "violation"
Out(c)    == CharsOf(c.out.tex)
Forest(c) == Formulas(c.doc)

\* Of some texts no document is known.
Known(c) == "raw" \notin DOMAIN c.doc
Bound(c) == Known(c) => Spells(WriteDoc(c.doc), c.xml)

------------------------------------------------------------------------------
(* The message of a child count error: its words and numbers *)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == c \in Range(Digits)
Value(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
Words(cs) ==
  LET step(acc, c) ==
        IF c \in AsciiWord
        THEN [ws |-> IF acc.in THEN [acc.ws EXCEPT ![Len(acc.ws)] = Append(@, c)]
                     ELSE Append(acc.ws, <<c>>), in |-> TRUE]
        ELSE [ws |-> acc.ws, in |-> FALSE]
  IN FoldLeft(step, [ws |-> <<>>, in |-> FALSE], cs).ws
IsNumeral(w) == \A i \in DOMAIN w : IsDigit(w[i])
ValueOf(w) == FoldLeft(LAMBDA v, c : 10 * v + Value(c), 0, w)
Numbers(ws) == [i \in DOMAIN SelectSeq(ws, IsNumeral) |-> ValueOf(SelectSeq(ws, IsNumeral)[i])]
CountTags == Exactly2 \cup Exactly3 \cup {"mmultiscripts"}
Names(msg, e) ==
  LET ws == Words(CharsOf(msg))
  IN /\ {t \in CountTags : \E i \in DOMAIN ws : ws[i] = CharsOf(t)} = {e.tag}
     /\ Numbers(ws) = <<e.need, e.got>>

\* The observed outcome is the one the specification gives.
Expected(c) ==
  LET o == Outcome(c.doc)
  IN IF o.kind = "tex" THEN c.out.ok /\ Spells(o.tex, c.out.tex)
     ELSE ~c.out.ok /\ c.out.count

SameOut(a, b) == a.ok = b.ok /\ a.count = b.count /\ a.tex = b.tex

\* Trees with their attributes as sets.
RECURSIVE Canon(_)
Canon(n) == [t |-> n.t, a |-> {<<n.a[i][1], Str(n.a[i][2])>> : i \in DOMAIN n.a}, x |-> n.x,
             k |-> Seq1([i \in DOMAIN n.k |-> Canon(n.k[i])])]
SameForest(f, g) == [i \in DOMAIN f |-> Canon(f[i])] = [i \in DOMAIN g |-> Canon(g[i])]

------------------------------------------------------------------------------
(* Clauses *)

\* C17 is also about identifiers without mathvariant: no font command is theirs.
RECURSIVE FontFree(_)
HasTag(n, tag) == n.t = tag \/ HasBelow(n, tag)
HasFont(cs) == \E i \in DOMAIN cs : StartsAt(cs, i, "\\math")
FontFree(n) == /\ ~HasAttr(n, "mathvariant")
               /\ n.t \in TokenTags => ~HasFont(TokenChars(Template(n, <<>>, FALSE)))
               /\ \A i \in DOMAIN n.k : FontFree(n.k[i])
Unstyled(forest) == /\ \E i \in DOMAIN forest : HasTag(forest[i], "mi")
                    /\ \A i \in DOMAIN forest : FontFree(forest[i])

\* C08-C18: the LaTeX is what the templates and tables say.
Full(ev) ==
  LET c == ev.cases[1]
      forest == Forest(c)
  IN IF Expected(c) THEN "ok"
     ELSE IF \E i \in DOMAIN forest : Concerns(ev.prop, forest[i]) THEN "violation"
     ELSE IF ev.prop = "C17" /\ c.out.ok /\ Unstyled(forest) /\ HasFont(Out(c)) THEN "violation"
     ELSE "unrelated"

\* C02: the same formulas, written differently, convert to the same.
Same(ev) ==
  LET a == ev.cases[1]
  IN IF \E i \in DOMAIN ev.cases : ~SameForest(Forest(ev.cases[i]), Forest(a)) THEN "skip"
     ELSE Ok(\A i \in DOMAIN ev.cases : SameOut(ev.cases[i].out, a.out))

\* C03: the first case holds exactly the formulas of the others, in order.
Join(ev) ==
  LET whole == ev.cases[1]
      parts == Tail(ev.cases)
      outs  == SelectSeq(Seq1([i \in DOMAIN parts |-> Out(parts[i])]), LAMBDA cs : cs # <<>>)
  IN IF ~SameForest(Forest(whole), Concat([i \in DOMAIN parts |-> Forest(parts[i])])) THEN "skip"
     ELSE IF \E i \in DOMAIN parts : ~parts[i].out.ok THEN Ok(~whole.out.ok)
     ELSE Ok(whole.out.ok /\ Out(whole) = JoinWith(outs, <<Space>>))

\* C04
Hygiene(ev) == Ok(\A i \in DOMAIN ev.cases : ev.cases[i].out.ok => Hygienic(Out(ev.cases[i])))

\* C05
Arity(ev) ==
  LET c == ev.cases[1]
      o == Outcome(c.doc)
  IN Ok(IF o.kind = "count" THEN ~c.out.ok /\ c.out.count /\ Names(c.out.msg, o.err)
        ELSE ~c.out.count)

\* C06: rejected, or exactly the document without its malformed attributes.
\* Where the documents are known, the texts are read accordingly.
AsWritten(d, scan) ==
  CASE HasJunk(d.r) -> ScanKind(scan) \in {"broken", "odd"}
    [] WellFormed(d) -> ScanKind(scan) \in {"good", "odd"}
    [] OTHER -> \/ ScanKind(scan) = "odd"
                \/ /\ ScanKind(scan) = "malformed"
                   /\ scan.mal = {Str(w) : w \in MalformedWords(d)}
                   /\ ScanMust(scan) <=> MustBeRepaired(d)
RepairedOrNot(ev) ==
  LET bad == ev.cases[1]  clean == ev.cases[2]
      scan == TLCEval(ScanText(bad.xml))
      goal == TLCEval(ScanText(clean.xml))
  IN CASE \/ Known(bad) /\ ~AsWritten(bad.doc, scan)
          \/ Known(clean) /\ ~AsWritten(clean.doc, goal)
          \/ /\ Known(bad) /\ Known(clean) /\ ~HasJunk(bad.doc.r)
             /\ ~SameForest(Formulas(Repaired(bad.doc)), Forest(clean)) -> "unbound"
       [] ScanKind(scan) \in {"odd", "good"} -> "skip"
       [] ScanKind(scan) = "broken" -> Ok(~bad.out.ok)
       [] ScanKind(goal) # "good" \/ goal.toks # scan.toks -> "skip"
       [] OTHER -> Ok(/\ bad.out.ok => clean.out.ok /\ bad.out.tex = clean.out.tex
                      /\ ScanMust(scan) => SameOut(bad.out, clean.out))

\* C07
Total(ev) ==
  LET c == ev.cases[1]
  IN IF Outcome(c.doc).kind # "tex" THEN "skip" ELSE Ok(c.out.ok)

\* C19
Balance(ev) ==
  LET c == ev.cases[1]
      forest == Forest(c)
  IN IF \E i \in DOMAIN forest : ~Tame(forest[i]) THEN "skip"
     ELSE Ok(c.out.ok => Balanced(Out(c)))

\* C22: documents that differ in nothing that matters.
Essential(ev) ==
  LET a == ev.cases[1]
      essence == TLCEval(EssenceOf(Forest(a)))
  IN IF \E i \in DOMAIN ev.cases : EssenceOf(Forest(ev.cases[i])) # essence THEN "skip"
     ELSE Ok(\A i \in DOMAIN ev.cases : SameOut(ev.cases[i].out, a.out))

\* C23
Commands(ev) ==
  LET c == ev.cases[1]
      forest == Forest(c)
  IN IF \E i \in DOMAIN forest : ~Wordless(forest[i]) THEN "skip"
     ELSE Ok(c.out.ok => WholeCommands(Out(c)))

\* C24: on documents that double in size, effort (lines of the library that were
\* executed) grows no faster than a polynomial; every conversion ends.
Ends(c) == c.out.cls \notin {"Hang", "TooMuch"}
Effort(ev) ==
  LET size(i) == Len(ev.cases[i].xml)
      steps(i) == ev.cases[i].out.steps
      next == 1..(Len(ev.cases) - 1)
  IN IF \E i \in next : size(i + 1) <= size(i) \/ size(i + 1) > 3 * size(i) THEN "skip"
     ELSE Ok(/\ \A i \in DOMAIN ev.cases : Ends(ev.cases[i])
             /\ \A i \in next : steps(i + 1) <= 16 * steps(i))
Ending(ev) == Ok(\A i \in DOMAIN ev.cases : Ends(ev.cases[i]))

\* C25: the same but for groups; a formula and its parts.
Regroup(ev) ==
  LET a == ev.cases[1]
      flat == TLCEval(FlatOf(Forest(a)))
  IN IF \E i \in DOMAIN ev.cases : FlatOf(Forest(ev.cases[i])) # flat THEN "skip"
     ELSE Ok(\A i \in DOMAIN ev.cases : SameOut(ev.cases[i].out, a.out))
Parts(ev) ==
  LET whole == ev.cases[1]
      parts == Tail(ev.cases)
      outs  == SelectSeq(Seq1([i \in DOMAIN parts |-> Out(parts[i])]), LAMBDA cs : cs # <<>>)
      kids(c) == EssenceOf(Forest(c))[1].k
  IN IF \/ \E i \in DOMAIN ev.cases : Len(Forest(ev.cases[i])) # 1
        \/ kids(whole) # Concat([i \in DOMAIN parts |-> kids(parts[i])]) THEN "skip"
     ELSE IF \E i \in DOMAIN parts : ~parts[i].out.ok THEN Ok(~whole.out.ok)
     ELSE Ok(whole.out.ok /\ Out(whole) = JoinWith(outs, <<Space>>))

\* C26
Delimiters(ev) ==
  LET c == ev.cases[1]
      forest == Forest(c)
  IN IF \E i \in DOMAIN forest : ~Paired(forest[i]) THEN "skip" ELSE Ok(c.out.ok => Pairs(Out(c)))

\* C27
Scripts(ev) ==
  LET c == ev.cases[1]
      forest == Forest(c)
  IN IF \E i \in DOMAIN forest : ~OwnScripts(forest[i]) THEN "skip" ELSE Ok(c.out.ok => ScriptsHaveBases(Out(c)))

\* C20, for tokens that consist of mark characters, and for any tokens.
MarksKept(ev) ==
  LET c == ev.cases[1]
      forest == Forest(c)
  IN IF ~(\A i \in DOMAIN forest : OnlyMarks(forest[i])) \/ FormulasError(forest) # NoError
     THEN "skip" ELSE Ok(c.out.ok => KeepsMarks(forest, Out(c)))
LeavesKept(ev) ==
  LET c == ev.cases[1]
      forest == Forest(c)
  IN IF FormulasError(forest) # NoError THEN "skip"
     ELSE Ok(c.out.ok => OccursInOrder(forest, Out(c)))

\* C21: whole, whole with a placeholder, and the sub-expression on its own.
Plug(ev) ==
  LET whole == ev.cases[1]  holed == ev.cases[2]  sub == ev.cases[3]
      path  == ev.args.path
      tree  == Forest(whole)[1]
  IN IF \/ Len(Forest(whole)) # 1 \/ Len(Forest(holed)) # 1 \/ Len(Forest(sub)) # 1
        \/ ~ContextFree(tree, path)
        \/ Forest(holed)[1] # Replace(tree, path, Placeholder)
        \/ Forest(sub)[1] # El("math", <<At(tree, path)>>)
        \/ FormulasError(Forest(whole)) # NoError
        \/ FormulasError(Forest(sub)) # NoError
        \/ Places(TokenChars(Outcome(holed.doc).tex)) # 1   \* nothing else looks like it
     THEN "skip"
     ELSE Ok(/\ whole.out.ok = (holed.out.ok /\ sub.out.ok)
             /\ whole.out.ok =>
                  /\ Places(Out(holed)) = 1
                  /\ Out(whole) = Normalise(Substitute(Out(holed), Out(sub))))

\* C01: a log of calls and returns, on threads and converters, is one of the
\* behaviours of Session: a thread has one call at a time, and what it returns
\* is the meaning of its document.  The cases hold the documents and what they
\* convert to in a process of their own.
SameKind(a, b) == a.ok = b.ok /\ a.tex = b.tex /\ a.cls = b.cls
SessionStep(ev, s, x) ==
  IF x.e = "call"
  THEN [s EXCEPT !.ok = @ /\ s.cur[x.t] = 0, !.cur[x.t] = x.d]
  ELSE [s EXCEPT !.ok = @ /\ s.cur[x.t] = x.d /\ SameKind(x.out, ev.cases[x.d].out),
                 !.cur[x.t] = 0]
SessionLog(ev) ==
  LET threads == {ev.args.log[i].t : i \in DOMAIN ev.args.log}
      start   == [cur |-> [t \in threads |-> 0], ok |-> TRUE]
      end     == FoldLeft(LAMBDA s, x : SessionStep(ev, s, x), start, ev.args.log)
  IN Ok(end.ok /\ \A t \in threads : end.cur[t] = 0)

\* C28: a log of calls, the world around them changing: a behaviour of World
\* (no call has an effect, or gives anything else than in an empty world).
WorldLog(ev) ==
  Ok(\A i \in DOMAIN ev.args.log :
       LET x == ev.args.log[i]
       IN x.e = "return" => x.effects = <<>> /\ SameKind(x.out, ev.cases[x.d].out))

Judge(ev) ==
  IF \E i \in DOMAIN ev.cases : ~Bound(ev.cases[i]) THEN "unbound"
  ELSE CASE ev.clause = "full"    -> Full(ev)
         [] ev.clause = "same"    -> Same(ev)
         [] ev.clause = "join"    -> Join(ev)
         [] ev.clause = "hygiene" -> Hygiene(ev)
         [] ev.clause = "arity"   -> Arity(ev)
         [] ev.clause = "repair"  -> RepairedOrNot(ev)
         [] ev.clause = "total"   -> Total(ev)
         [] ev.clause = "balance" -> Balance(ev)
         [] ev.clause = "essence" -> Essential(ev)
         [] ev.clause = "commands" -> Commands(ev)
         [] ev.clause = "effort"  -> Effort(ev)
         [] ev.clause = "ends"    -> Ending(ev)
         [] ev.clause = "regroup" -> Regroup(ev)
         [] ev.clause = "parts"   -> Parts(ev)
         [] ev.clause = "pairs"   -> Delimiters(ev)
         [] ev.clause = "scripts" -> Scripts(ev)
         [] ev.clause = "marks"   -> MarksKept(ev)
         [] ev.clause = "leaves"  -> LeavesKept(ev)
         [] ev.clause = "plug"    -> Plug(ev)
         [] ev.clause = "session" -> SessionLog(ev)
         [] ev.clause = "world"   -> WorldLog(ev)

------------------------------------------------------------------------------
VARIABLES at, verdict
Init == at \in 1..Shards /\ verdict = "start"
Next ==
  /\ at <= Len(Log)
  /\ verdict' = Judge(Log[at])
  /\ at' = at + Shards
  /\ verdict' # "ok" => PrintT(<<"VERDICT", Log[at].id, verdict'>>)
Spec == Init /\ [][Next]_<<at, verdict>>
=============================================================================
