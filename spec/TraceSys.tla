------------------------------ MODULE TraceSys ------------------------------
(* Runs with several threads recorded from the real library must be          *)
(* behaviours of Sys. What cannot be seen from outside (how many commands a  *)
(* driver takes at a time, which of several waiting senders gets the room)   *)
(* is followed up by keeping the set of all states the system may be in; a   *)
(* recorded result that none of them allows is a difference.                 *)
EXTENDS Sys, Json, IOUtils
VARIABLES i, sts, live, chkn, bad
vars == <<i, sts, live, chkn, bad>>
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Init == i = 1 /\ sts = {InitSt} /\ live = FALSE /\ chkn = FALSE /\ bad = 0
Step ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i]
     IN IF e.op.op = "reset" THEN sts' = {InitSt} /\ live' = TRUE /\ chkn' = e.op.n /\ UNCHANGED bad
        ELSE IF ~live THEN UNCHANGED <<sts, live, chkn, bad>>
        ELSE LET all == UNION {Steps(s, e.op) : s \in sts}
                 fit == {r \in all : MatchesSys(r.res, e.res, chkn)}
             IN IF fit # {} THEN sts' = {r.st : r \in fit} /\ UNCHANGED <<live, chkn, bad>>
                ELSE /\ PrintT(<<"MISMATCH", i, ToJson({r.res : r \in all})>>)
                     /\ bad' = bad + 1 /\ live' = FALSE /\ UNCHANGED <<sts, chkn>>
Finish == i = Len(Trace) + 1 /\ PrintT(<<"CHECKED", i - 1, bad>>) /\ i' = i + 1 /\ UNCHANGED <<sts, live, chkn, bad>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
