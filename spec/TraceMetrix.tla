----------------------------- MODULE TraceMetrix -----------------------------
(* Runs recorded from the real library must be behaviours of Metrix. Every   *)
(* recorded operation is applied to the state of the specification and the   *)
(* results are compared; a session ends with the first difference.           *)
EXTENDS Metrix, Json, IOUtils
VARIABLES i, st, live, chkn, bad
vars == <<i, st, live, chkn, bad>>
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Init == i = 1 /\ st = InitSt /\ live = FALSE /\ chkn = FALSE /\ bad = 0
Step ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i]
     IN IF e.op.op = "reset" THEN st' = InitSt /\ live' = TRUE /\ chkn' = e.op.n /\ UNCHANGED bad
        ELSE IF ~live THEN UNCHANGED <<st, live, chkn, bad>>
        ELSE LET r == Apply(st, e.op)
             IN IF Matches(r.res, e.res, chkn) THEN st' = r.st /\ UNCHANGED <<live, chkn, bad>>
                ELSE /\ PrintT(<<"MISMATCH", i, ToJson(r.res)>>)
                     /\ bad' = bad + 1 /\ live' = FALSE /\ UNCHANGED <<st, chkn>>
Finish == i = Len(Trace) + 1 /\ PrintT(<<"CHECKED", i - 1, bad>>) /\ i' = i + 1 /\ UNCHANGED <<st, live, chkn, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
