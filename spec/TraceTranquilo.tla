---------------------------- MODULE TraceTranquilo ----------------------------
(***************************************************************************)
(* Trace validation: evaluates the clauses and guarantees of Tranquilo on  *)
(* recorded runs of the implementation.  The verdict is total: every event *)
(* is consumed, and the names of all broken clauses are reported.          *)
(***************************************************************************)
EXTENDS Tranquilo, Json, IOUtils

Traces == JsonDeserialize(IOEnv.VH_TRACES)

VARIABLES tid, l, s, viol

Init ==
  /\ tid \in DOMAIN Traces
  /\ l = 1
  /\ s = InitState(Traces[tid])
  /\ viol = {}

Next ==
  LET env == Traces[tid] IN
  /\ l <= Len(env.ev)
  /\ LET ev == env.ev[l]
         s2 == Step(env, s, ev)
         f == Failed(env, s, ev) \cup
              (IF ev.e \in {"eval", "accept", "end"} THEN Broken(env, s2) ELSE {})
         v2 == viol \cup {[clause |-> c, at |-> l] : c \in f}
     IN /\ s' = s2
        /\ viol' = v2
        /\ IF l = Len(env.ev)
           THEN PrintT("VERDICT " \o ToString(tid) \o " " \o ToString(l) \o " " \o
                       ToString(s2.iter) \o " " \o ToJson(v2))
           ELSE TRUE
  /\ l' = l + 1
  /\ UNCHANGED tid

vars == <<tid, l, s, viol>>
Spec == Init /\ [][Next]_vars
==============================================================================
