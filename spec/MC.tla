--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Model checking of one property: the pipeline and the converter on every *)
(* document of the property's family.  Complete behaviours are printed,    *)
(* for replay in the implementation.                                       *)
(***************************************************************************)
EXTENDS Pipeline, Families, IOUtils

VARIABLE at         \* the number of the document this behaviour is about
                    \* (TLC's fingerprints do not tell all characters apart)
Prop    == IOEnv.MC_PROP
Members == SetToSeq(Family(Prop))
m       == Members[at]
mcvars  == <<at, fs, done, stack, result, doc0, doc, tries, phase>>

Init == \E i \in DOMAIN Members : at = i /\ StartDoc(Members[i].d)
Next == PNext /\ UNCHANGED at
Spec == Init /\ [][Next]_mcvars

------------------------------------------------------------------------------
Chosen == result.kind = "tex"
Chars  == TokenChars(result.tex)

\* C02, C03: the document holds just the formulas it was made of.
Intended == "g" \in DOMAIN m => Formulas(doc0) = m.g
\* C04
Clean1 == Chosen => Hygienic(Chars)
\* C19
Balances == Chosen /\ (\A i \in DOMAIN fs : Tame(fs[i])) => Balanced(Chars)
\* C20
KeepsTokens ==
  Chosen => /\ (\A i \in DOMAIN fs : OnlyMarks(fs[i])) => KeepsMarks(fs, Chars)
            /\ Prop = "C20" => OccursInOrder(fs, Chars)
\* C21
OutOf(t) == TokenChars(Normalise(Tex(t, FALSE)))
Composes ==
  Chosen /\ m.p # <<>> /\ ContextFree(fs[1], m.p) =>
    LET holed == OutOf(Replace(fs[1], m.p, Placeholder))
    IN Places(holed) = 1 => Chars = Normalise(Substitute(holed, OutOf(At(fs[1], m.p))))
\* C22: what means nothing changes nothing.
Intangible == Prop = "C22" /\ Chosen =>
  EssenceOf(fs) = <<Essence(m.h)>> /\ result.tex = FormulasTex(<<m.h>>)
\* C23
WholeOnly == Prop \in {"C19", "C23"} /\ Chosen /\ (\A i \in DOMAIN fs : Wordless(fs[i])) => WholeCommands(Chars)
\* C24: the number of steps is linear in the size of the document.
SizeOf(forest) == FoldLeft(LAMBDA acc, n : acc + Size(n), 0, forest)
LinearWork == /\ Prop = "C24" => Measure <= 1 + 2 * SizeOf(fs) + Len(fs)
              /\ Prop = "C24" => PMeasure <= MaxTries + 2 /\ SizeOf(fs) < Len(WriteDoc(doc0))
\* C25: groups mean nothing, and neither does where a formula is cut.
Regroups == Prop = "C25" /\ Chosen =>
  FlatOf(fs) = FlatOf(<<m.h>>) /\ result.tex = FormulasTex(<<m.h>>)
Splits == Prop \in {"C20", "C25"} /\ Chosen /\ Len(fs) = 1 =>
  \A i \in DOMAIN fs[1].k :
    result.tex = FormulasTex(<<Math(SubSeq(fs[1].k, 1, i)), Math(SubSeq(fs[1].k, i + 1, Len(fs[1].k)))>>)
\* C26
PairsUp == Prop \in {"C12", "C14", "C19", "C26"} /\ Chosen /\ (\A i \in DOMAIN fs : Paired(fs[i])) => Pairs(Chars)
\* C27
OwnBases == Prop \in {"C09", "C10", "C11", "C27"} /\ Chosen /\ (\A i \in DOMAIN fs : OwnScripts(fs[i])) => ScriptsHaveBases(Chars)
\* C07, C05: it fails for a wrong child count only
FailsOnlyForCounts ==
  Ended /\ WellFormed(doc0) => (phase = "converting" /\ (result.kind = "count" <=> FormulasError(Formulas(doc0)) # NoError))

\* Every behaviour ends, and each of its steps makes progress.
StepsDecrease == [][ \/ PMeasure' < PMeasure
                     \/ UNCHANGED pvars /\ Measure' < Measure ]_mcvars
EndsProperly == ~ENABLED Next => Ended

TexOf(forest) == Str(FormulasTex(forest))
\* What else has to be converted to replay the behaviour, and to what.
Also == CASE Prop = "C21" /\ Chosen ->
                 <<[t |-> Replace(fs[1], m.p, Placeholder), tex |-> TexOf(<<Replace(fs[1], m.p, Placeholder)>>)],
                   [t |-> El("math", <<At(fs[1], m.p)>>), tex |-> TexOf(<<El("math", <<At(fs[1], m.p)>>)>>)]>>
          [] "g" \in DOMAIN m -> Seq1([i \in DOMAIN m.g |-> [t |-> m.g[i], tex |-> TexOf(<<m.g[i]>>)]])
          [] "h" \in DOMAIN m -> <<[t |-> m.h, tex |-> TexOf(<<m.h>>)]>>
          [] OTHER -> <<>>

Emit == Ended =>
  PrintT(<<"BEHAVIOUR", ToJson([i |-> at, x |-> Str(WriteDoc(doc0)), d |-> doc0, p |-> m.p, also |-> Also,
                                kind |-> IF phase = "rejected" THEN phase ELSE result.kind,
                                tex |-> Str(result.tex)])>>)
=============================================================================
