--------------------------------- MODULE MC ---------------------------------
(* All behaviours of small worlds. A world is some operations to start with, *)
(* an alphabet of further operations and a number of steps; every sequence   *)
(* of that many operations of the alphabet is taken, with every outcome that *)
(* Sys allows for it. Each world names the properties (module Props) that    *)
(* are checked in every state of it. The sequences that were taken are       *)
(* printed; they are executed by the real library afterwards (TraceMetrix,   *)
(* TraceSys).                                                                *)
EXTENDS Props

Init == wi \in 1..Len(W) /\ st = InitSt /\ tr = <<>>
\* whether the names an operation mentions are there
CanDo(j) ==
  LET e == W[wi].alpha[j] op == e.op
  IN /\ e.max > Cardinality({i \in 1..Len(tr) : tr[i].j = j})
     /\ ("tx" \in DOMAIN op => op.tx \in DOMAIN st.txs)
     /\ ("h" \in DOMAIN op => op.h \in DOMAIN st.hs)
     /\ ("a" \in DOMAIN op => op.a \in DOMAIN st.atts)
     /\ (op.op \in {"obs", "snap", "process", "direct", "names", "accepts", "attach", "drop"} => op.id \in DOMAIN st.objs)
     /\ (op.op = "put" /\ "id" \in DOMAIN op => op.id \in DOMAIN st.objs)
     /\ (op.op = "dcancel" => \E i \in 1..Len(tr) : OpAt(i).op = "dreq" /\ OpAt(i).t = op.t)
     /\ ("child" \in DOMAIN op => op.child \in DOMAIN st.objs \cup DOMAIN st.hs)
Do(op, j) ==
  \E r \in Steps(st, op) :
    /\ st' = r.st
    /\ tr' = Append(tr, [j |-> j, t |-> st.now, res |-> r.res, lg |-> Len(LogOf(r.st.logs, "r1")), pn |-> PassesOf(r.st, "pr")])
Leaf == Len(tr') = NSetup + W[wi].depth => PrintT("LEAF " \o ToJson(<<wi, [i \in 1..W[wi].depth |-> tr'[NSetup + i].j]>>))
Next ==
  /\ UNCHANGED wi
  /\ IF Len(tr) < NSetup THEN Do(W[wi].setup[Len(tr) + 1], 0)
     ELSE /\ Len(tr) < NSetup + W[wi].depth
          /\ \E j \in 1..Len(W[wi].alpha) : CanDo(j) /\ Do(W[wi].alpha[j].op, j)
          /\ Leaf
Spec == Init /\ [][Next]_vars

\* a driver that is paused processes nothing until it is told to resume, whatever
\* else it is asked for meanwhile
PausedRests ==
  [][\A d \in DOMAIN st.drvs :
       (/\ Len(tr') > Len(tr) /\ tr'[Len(tr')].res.k = "dstep" /\ DOMAIN st.drvs = {d}
        /\ st.drvs[d].paused /\ st.drvs[d].pc.at = "sleep" /\ \A j \in 1..Len(st.drvs[d].cmds) : st.drvs[d].cmds[j].k # "resume")
       => \/ st'.logs = st.logs /\ st'.chans = st.chans /\ \A x \in DOMAIN st'.plog : PassesOf(st', x) = PassesOf(st, x)
          \/ d \notin DOMAIN st'.drvs]_vars
\* looking changes nothing
LookingChangesNothing ==
  [][(Len(tr') > Len(tr) /\ tr'[Len(tr')].res.k \in {"snap", "find", "json", "names", "log", "q", "a", "conv", "plog"}) => [st' EXCEPT !.plog = <<>>] = [st EXCEPT !.plog = <<>>]]_vars
=============================================================================
