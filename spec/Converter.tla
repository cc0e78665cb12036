----------------------------- MODULE Converter -----------------------------
(***************************************************************************)
(* The converter as a machine: a depth-first walk over the element trees   *)
(* of the formulas with an explicit stack, one frame per element that is   *)
(* being converted, left to right.                                         *)
(*                                                                         *)
(*   Begin    start the next formula                                       *)
(*   Enter    start the next planned child of the element on top           *)
(*   Reduce   all planned children done: the element's LaTeX is complete    *)
(*   Raise    the element on top has a wrong number of children            *)
(*   Finish   all formulas done: the document's LaTeX is complete           *)
(***************************************************************************)
EXTENDS Layout

VARIABLES fs,      \* the formulas: a sequence of math elements
          done,    \* LaTeX (tokens, normalised) of the formulas converted so far
          stack,   \* frames [n |-> element, r |-> results so far, tab |-> in a table?]
          result   \* [kind |-> "none"/"tex"/"count", tex |-> tokens, err |-> error]

vars == <<fs, done, stack, result>>

NoResult == [kind |-> "none", tex |-> <<>>, err |-> NoError]
Frame(n, tab) == [n |-> n, r |-> <<>>, tab |-> tab]

Running == result.kind = "none"
Top     == stack[Len(stack)]
Ready   == Running /\ stack # <<>>
Faulty  == ChildCountError(Top.n) # NoError
Complete == Len(Top.r) = Len(Plan(Top.n))

StartWith(formulas) ==
  /\ fs = formulas /\ done = <<>> /\ stack = <<>> /\ result = NoResult

Begin ==
  /\ Running /\ stack = <<>> /\ Len(done) < Len(fs)
  /\ stack' = <<Frame(fs[Len(done) + 1], FALSE)>>
  /\ UNCHANGED <<fs, done, result>>

Raise ==
  /\ Ready /\ Faulty
  /\ result' = [kind |-> "count", tex |-> <<>>, err |-> ChildCountError(Top.n)]
  /\ stack' = <<>>
  /\ UNCHANGED <<fs, done>>

Enter ==
  /\ Ready /\ ~Faulty /\ ~Complete
  /\ stack' = Append(stack, Frame(Top.n.k[Plan(Top.n)[Len(Top.r) + 1]], Below(Top.n, Top.tab)))
  /\ UNCHANGED <<fs, done, result>>

Reduce ==
  /\ Ready /\ ~Faulty /\ Complete
  /\ LET tex  == Template(Top.n, Top.r, Top.tab)
         rest == SubSeq(stack, 1, Len(stack) - 1)
     IN IF rest = <<>>
        THEN /\ done' = Append(done, Normalise(tex))
             /\ stack' = <<>>
        ELSE /\ stack' = [rest EXCEPT ![Len(rest)].r = Append(@, tex)]
             /\ UNCHANGED done
  /\ UNCHANGED <<fs, result>>

Finish ==
  /\ Running /\ stack = <<>> /\ Len(done) = Len(fs)
  /\ result' = [kind |-> "tex", err |-> NoError,
                tex |-> JoinWith(SelectSeq(done, LAMBDA ts : ts # <<>>), <<Space>>)]
  /\ UNCHANGED <<fs, done, stack>>

Step == Begin \/ Raise \/ Enter \/ Reduce \/ Finish

------------------------------------------------------------------------------
(* What the machine guarantees *)

TypeOK ==
  /\ result.kind \in {"none", "tex", "count"}
  /\ Len(done) <= Len(fs)
  /\ \A i \in DOMAIN stack : Len(stack[i].r) <= Len(Plan(stack[i].n))

\* The stack is a path of the tree: each frame is the child its parent waits for.
\* (Each step changes the top only: it suffices to look there.)
StackIsPath ==
  Len(stack) >= 2 =>
    LET p == stack[Len(stack) - 1]
    IN /\ Top.n = p.n.k[Plan(p.n)[Len(p.r) + 1]]
       /\ Top.tab = Below(p.n, p.tab)

\* Every intermediate result is the meaning of the element it stands for.
PartialResults ==
  stack # <<>> /\ Top.r # <<>> =>
    Top.r[Len(Top.r)] = Tex(Top.n.k[Plan(Top.n)[Len(Top.r)]], Below(Top.n, Top.tab))

\* The result is the meaning of the formulas; failure exactly for a bad child count.
Agrees ==
  /\ result.kind = "tex"   => /\ result.tex = FormulasTex(fs)
                              /\ FormulasError(fs) = NoError
  /\ result.kind = "count" => /\ result.err = FormulasError(fs)
                              /\ result.err # NoError

\* No partial LaTeX next to an error.
NoPartial == result.kind = "count" => result.tex = <<>>

\* The walk visits every planned element twice and nothing else: it terminates.
RECURSIVE Work(_)
Work(n) == IF ChildCountError(n) # NoError THEN 2
           ELSE 2 + FoldLeft(LAMBDA acc, j : acc + Work(n.k[j]), 0, Plan(n))
\* (the child a frame waits for has a frame of its own)
StackWork == FoldLeft(LAMBDA acc, d :
               LET f    == stack[d]
                   done1 == Len(f.r) + (IF d < Len(stack) THEN 1 ELSE 0)
                   left == IF ChildCountError(f.n) # NoError THEN <<>>
                           ELSE SubSeq(Plan(f.n), done1 + 1, Len(Plan(f.n)))
               IN acc + FoldLeft(LAMBDA a, j : a + Work(f.n.k[j]), 1, left),
               0, Indices(stack))
Pending == FoldLeft(LAMBDA acc, i : acc + Work(fs[i]) + 1, 0,
                    [i \in 1..(Len(fs) - Len(done)) |-> i + Len(done)])
\* (while a formula is on the stack it is still pending, hence the difference)
Measure == IF result.kind # "none" THEN 0
           ELSE 1 + (IF stack = <<>> THEN Pending
                     ELSE Pending - Work(fs[Len(done) + 1]) - 1 + StackWork)
Decreases == [][Measure' < Measure]_vars
=============================================================================
