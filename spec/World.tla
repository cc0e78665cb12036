------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* Conversions and the world around them: files that documents refer to,   *)
(* the settings of the process.  The world may change between the calls.   *)
(*                                                                         *)
(* As designed, a call neither looks at the world nor touches it: what a   *)
(* document refers to is not fetched.  With Resolves, references are       *)
(* followed, which is what the design rules out (Closed is violated then). *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCalls, Resolves, PrintWhat

\* Documents: without references; with an external entity, document type,
\* parameter entity, with links of other kinds; that are repaired or fail.
Classes == {"plain", "entity", "doctype", "parameter", "linked", "repairable", "miscounted", "broken"}
Refers  == {"entity", "doctype", "parameter", "linked"}
\* What is found where documents refer to, and how the process is set up.
Files    == {"nothing", "text", "markup", "directory"}
Settings == {"usual", "other"}

VARIABLES files, settings, cur, log
wvars == <<files, settings, cur, log>>

Idle == [phase |-> "idle", doc |-> "", text |-> "", effects |-> <<>>]
Meaning(d) == [kind |-> CASE d = "broken" -> "malformed" [] d = "miscounted" -> "count" [] OTHER -> "tex", of |-> d, found |-> "nothing"]

WInit == files = "nothing" /\ settings = "usual" /\ cur = Idle /\ log = <<>>

Calls == Len(SelectSeq(log, LAMBDA x : x.e = "return"))
Changed == log # <<>> /\ log[Len(log)].e = "world"

Change(f, s) ==
  /\ cur = Idle /\ Calls < MaxCalls /\ ~Changed
  /\ files' = f /\ settings' = s
  /\ log' = Append(log, [e |-> "world", files |-> f, settings |-> s])
  /\ UNCHANGED cur
Call(d) ==
  /\ cur = Idle /\ Changed
  /\ cur' = [Idle EXCEPT !.phase = "parse", !.doc = d]
  /\ UNCHANGED <<files, settings, log>>
Parse ==
  /\ cur.phase = "parse"
  /\ LET follow == Resolves /\ cur.doc \in Refers
     IN cur' = [cur EXCEPT !.phase = "convert", !.text = IF follow THEN files ELSE "nothing",
                           !.effects = IF follow THEN <<"open">> ELSE <<>>]
  /\ UNCHANGED <<files, settings, log>>
Return ==
  /\ cur.phase = "convert"
  /\ log' = Append(log, [e |-> "return", d |-> cur.doc, effects |-> cur.effects, r |-> [Meaning(cur.doc) EXCEPT !.found = cur.text]])
  /\ cur' = Idle
  /\ UNCHANGED <<files, settings>>

WNext == Parse \/ Return \/ (\E d \in Classes : Call(d)) \/ \E f \in Files, s \in Settings : Change(f, s)
WSpec == WInit /\ [][WNext]_wvars /\ WF_wvars(Parse \/ Return)

------------------------------------------------------------------------------
\* C28
Closed == \A i \in DOMAIN log : log[i].e = "return" => log[i].effects = <<>> /\ log[i].r = Meaning(log[i].d)
Untouched == [][cur # Idle => UNCHANGED <<files, settings>>]_wvars
Ends == (cur # Idle) ~> (cur = Idle)

Over == cur = Idle /\ Calls = MaxCalls
Emit == Over /\ PrintWhat = "log" =>
          PrintT(<<"BEHAVIOUR", ToJson([log |-> TLCEval([i \in DOMAIN log |-> IF log[i].e = "world" THEN [e |-> "world", files |-> log[i].files, settings |-> log[i].settings]
                                                                          ELSE [e |-> "call", d |-> log[i].d]])])>>)
=============================================================================
