------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* One call of convert: the surface document is parsed, in at most five    *)
(* attempts with a repair after each failure, and the formulas found in it *)
(* are handed to the Converter.                                            *)
(*                                                                         *)
(*   Parse    the document is well-formed: read its formulas               *)
(*   Repair   the parser stumbled over a malformed attribute: remove all   *)
(*            attributes written exactly like it, and nothing else         *)
(*   GiveUp   out of attempts, or a defect that is no malformed attribute  *)
(*            of a kind that has to be repaired: reject the document       *)
(*                                                                         *)
(* Which malformed attribute is found first is left open.                  *)
(***************************************************************************)
EXTENDS Markup, Converter

CONSTANT Sloppy     \* TRUE: a repair that is not exact (to show that it is caught)

VARIABLES doc0,     \* the document as received
          doc,      \* the document as repaired so far
          tries,    \* parse attempts so far
          phase     \* "parsing", "converting", "rejected"

pvars == <<doc0, doc, tries, phase>>
allvars == <<fs, done, stack, result, doc0, doc, tries, phase>>

MaxTries == 5

StartDoc(d) ==
  /\ doc0 = d /\ doc = d /\ tries = 0 /\ phase = "parsing"
  /\ StartWith(<<>>)

Parse ==
  /\ phase = "parsing" /\ tries < MaxTries /\ ParsesAsIs(doc)
  /\ phase' = "converting" /\ tries' = tries + 1
  /\ fs' = Formulas(doc)
  /\ UNCHANGED <<doc0, doc, done, stack, result>>

\* (the sloppy repair also removes a text that is spelt like the attribute)
RECURSIVE ScrubText(_, _)
ScrubText(i, word) ==
  IF i.k = "t" THEN (IF i.x = word THEN [i EXCEPT !.x = <<>>] ELSE i)
  ELSE IF IsElem(i) THEN [i EXCEPT !.c = [j \in DOMAIN @ |-> ScrubText(@[j], word)]]
  ELSE i

Repair ==
  /\ phase = "parsing" /\ tries < MaxTries /\ ~ParsesAsIs(doc)
  /\ \E word \in MalformedWords(doc) :
       doc' = [doc EXCEPT !.r = IF Sloppy THEN ScrubText(Without(@, word), word)
                                ELSE Without(@, word)]
  /\ tries' = tries + 1
  /\ UNCHANGED <<doc0, phase, fs, done, stack, result>>

GiveUp ==
  /\ phase = "parsing"
  /\ \/ tries = MaxTries
     \/ ~ParsesAsIs(doc) /\ ~MustBeRepaired(doc0)
  /\ phase' = "rejected"
  /\ UNCHANGED <<doc0, doc, tries, fs, done, stack, result>>

Convert ==
  /\ phase = "converting" /\ Step
  /\ UNCHANGED pvars

PNext == Parse \/ Repair \/ GiveUp \/ Convert

------------------------------------------------------------------------------
Ended == phase = "rejected" \/ result.kind # "none"

\* Never misread: what is converted is the document minus its malformed attributes.
Exact ==
  result.kind # "none" =>
    LET o == Outcome(Repaired(doc0))
    IN result.kind = o.kind /\ result.err = o.err /\ result.tex = o.tex
\* Nothing that has to be repaired is rejected; junk always is.
NotRejected == MustBeRepaired(doc0) => phase # "rejected"
JunkRejected == result.kind # "none" => ~HasJunk(doc0.r)
AttemptsBounded == tries <= MaxTries

PMeasure == (MaxTries - tries) + (IF phase = "parsing" THEN 2 ELSE 0)
\* Every step makes progress: towards the end of parsing, or in the converter.
PDecreases == [][ \/ PMeasure' < PMeasure
                  \/ UNCHANGED pvars /\ Measure' < Measure ]_allvars
=============================================================================
