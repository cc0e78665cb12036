------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Many calls of convert: one after the other and at the same time, on     *)
(* shared and on separate converter objects.                               *)
(*                                                                         *)
(* A call goes through the stages of the pipeline: it takes the document   *)
(* as its pending text, repairs that text, parses it into an element tree, *)
(* and converts the tree.  Documents are classes here; what a document     *)
(* converts to is identified with the document, so that a result says      *)
(* which document it belongs to.                                           *)
(*                                                                         *)
(* As designed, the pending text and the tree belong to the call.  With    *)
(* Shared the pending text belongs to the converter object, which is what  *)
(* the design rules out (the property Pure is violated then).              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, Convs, MaxCalls, Shared, PrintWhat

\* plain; with tables (marks on the tree); malformed but repairable; child
\* count error; not parseable
Classes == {"plain", "table", "repairable", "miscounted", "broken"}

VARIABLES cur,      \* thread -> its running call, or Idle
          slot,     \* converter -> pending text (only used if Shared)
          calls,    \* thread -> number of calls so far
          log,      \* calls and returns, in order
          steps     \* the thread of each step, in order

svars == <<cur, slot, calls, log, steps>>

Idle  == [phase |-> "idle", conv |-> 0, doc |-> "", text |-> "", clean |-> TRUE, tree |-> ""]
Empty == [text |-> "", clean |-> TRUE]

Meaning(d) == [kind |-> CASE d = "broken" -> "malformed" [] d = "miscounted" -> "count" [] OTHER -> "tex",
               of   |-> d]

Pending(t) == IF Shared THEN slot[cur[t].conv] ELSE [text |-> cur[t].text, clean |-> cur[t].clean]

SInit == /\ cur = [t \in Threads |-> Idle] /\ slot = [c \in Convs |-> Empty]
         /\ calls = [t \in Threads |-> 0] /\ log = <<>> /\ steps = <<>>

Tick(t) == steps' = Append(steps, t)

Call(t, c, d) ==
  /\ cur[t] = Idle /\ calls[t] < MaxCalls
  /\ LET p == [text |-> d, clean |-> d # "repairable"]
     IN /\ cur'  = [cur EXCEPT ![t] = [phase |-> "pending", conv |-> c, doc |-> d, text |-> p.text,
                                       clean |-> p.clean, tree |-> ""]]
        /\ slot' = [slot EXCEPT ![c] = p]
  /\ calls' = [calls EXCEPT ![t] = @ + 1]
  /\ log' = Append(log, [e |-> "call", t |-> t, c |-> c, d |-> d])
  /\ Tick(t)

Repair(t) ==
  /\ cur[t].phase = "pending" /\ ~Pending(t).clean
  /\ cur'  = [cur EXCEPT ![t].clean = TRUE]
  /\ slot' = [slot EXCEPT ![cur[t].conv].clean = TRUE]
  /\ UNCHANGED <<calls, log>> /\ Tick(t)

Parse(t) ==
  /\ cur[t].phase = "pending" /\ Pending(t).clean /\ Pending(t).text # "broken"
  /\ cur' = [cur EXCEPT ![t].phase = "tree", ![t].tree = Pending(t).text]
  /\ UNCHANGED <<slot, calls, log>> /\ Tick(t)

Return(t, res) ==
  /\ cur' = [cur EXCEPT ![t] = Idle]
  /\ log' = Append(log, [e |-> "return", t |-> t, c |-> cur[t].conv, d |-> cur[t].doc, r |-> res])
  /\ UNCHANGED <<slot, calls>> /\ Tick(t)

GiveUp(t)  == cur[t].phase = "pending" /\ Pending(t).text = "broken" /\ Return(t, Meaning("broken"))
Convert(t) == cur[t].phase = "tree" /\ Return(t, Meaning(cur[t].tree))

Work(t) == Repair(t) \/ Parse(t) \/ GiveUp(t) \/ Convert(t)
SNext == \E t \in Threads : Work(t) \/ \E c \in Convs, d \in Classes : Call(t, c, d)
SSpec == SInit /\ [][SNext]_svars /\ \A t \in Threads : WF_svars(Work(t))

------------------------------------------------------------------------------
\* C01: what a call returns depends on its document only.
Pure == \A i \in DOMAIN log : log[i].e = "return" => log[i].r = Meaning(log[i].d)
\* Every call returns.
Returns == \A t \in Threads : (cur[t] # Idle) ~> (cur[t] = Idle)
\* Without the recorded history (for the configuration that only checks).
NoHistory == <<cur, slot, calls, IF log = <<>> THEN <<>> ELSE log[Len(log)]>>

Over == \A t \in Threads : cur[t] = Idle /\ calls[t] = MaxCalls
\* Complete behaviours, for replay in the implementation.
Emit == Over => CASE PrintWhat = "log"   -> PrintT(<<"BEHAVIOUR", ToJson([calls |-> SelectSeq(log, LAMBDA x : x.e = "call")])>>)
                  [] PrintWhat = "steps" -> PrintT(<<"BEHAVIOUR", ToJson([calls |-> SelectSeq(log, LAMBDA x : x.e = "call"), steps |-> steps])>>)
                  [] OTHER -> TRUE
=============================================================================
