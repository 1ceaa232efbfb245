------------------------------- MODULE LiveSys -------------------------------
(* Liveness: what the library promises will happen. The user makes the        *)
(* operations of the alphabet of a world, each no more often than it says, in *)
(* any order, or leaves off at any time; the threads of the drivers are        *)
(* scheduled fairly, and (where the world says so) somebody processes fairly.  *)
(* No history is kept, so that all infinite behaviours are explored.           *)
EXTENDS Sys, Json, IOUtils
VARIABLES wi, st, n, used, got, gone
vars == <<wi, st, n, used, got, gone>>
W == TLCEval(ndJsonDeserialize(IOEnv.WORLDS))
Tickets == UNION {{W[k].alpha[j].op.t : j \in {j \in 1..Len(W[k].alpha) : W[k].alpha[j].op.op = "dreq"}} : k \in 1..Len(W)}
OpsOf(k) == {W[k].setup[j] : j \in 1..Len(W[k].setup)} \cup {W[k].alpha[j].op : j \in 1..Len(W[k].alpha)}
AllOps == UNION {OpsOf(k) : k \in 1..Len(W)}
Drivers == {op.id : op \in {o \in AllOps : o.op = "dnew"}}
Waiting == {op.b : op \in {o \in AllOps : o.op = "bsend"}}
Probes == {op.x.id : op \in {o \in AllOps : o.op = "put" /\ o.what = "probe"}}
Channels == {op.x.tx : op \in {o \in AllOps : o.op = "new" /\ o.x.k = "proc"}}

Init == wi \in 1..Len(W) /\ st = InitSt /\ n = 0 /\ used = <<>> /\ got = <<>> /\ gone = {}
\* what probes were told is of no interest here
Goes(r) ==
  /\ st' = [r.st EXCEPT !.plog = [x \in DOMAIN @ |-> LET q == SelectSeq(@[x], LAMBDA e : e.k = "p") IN IF q = <<>> THEN q ELSE <<q[1]>>], !.logs = <<>>, !.rel = {}]
  /\ got' = (IF r.res.k = "dstep" THEN [t \in {r.res.ans[j].t : j \in 1..Len(r.res.ans)} |-> (CHOOSE j \in 1..Len(r.res.ans) : r.res.ans[j].t = t)] ELSE <<>>)
            @@ got
  /\ gone' = gone \cup r.st.rel \cup (IF "rel" \in DOMAIN r.res THEN r.res.rel ELSE {})
Do(op) == \E r \in Steps(st, op) : Goes(r)
Setup ==
  /\ n < Len(W[wi].setup)
  /\ n' = n + 1
  /\ Do(W[wi].setup[n + 1])
  /\ used' = [j \in 1..Len(W[wi].alpha) |-> 0]
  /\ UNCHANGED wi
Ready == n = Len(W[wi].setup)
CanDo(op) ==
  /\ ("tx" \in DOMAIN op => op.tx \in DOMAIN st.txs)
  /\ ("h" \in DOMAIN op => op.h \in DOMAIN st.hs)
  /\ ("a" \in DOMAIN op => op.a \in DOMAIN st.atts)
  /\ (op.op \in {"process", "drop"} => op.id \in DOMAIN st.objs)
  /\ (op.op = "put" /\ "id" \in DOMAIN op => op.id \in DOMAIN st.objs)
  /\ (op.op = "dcancel" => op.t \in DOMAIN st.tix)
  /\ ("child" \in DOMAIN op => op.child \in DOMAIN st.objs \cup DOMAIN st.hs)
User ==
  /\ Ready
  /\ \E j \in 1..Len(W[wi].alpha) :
       LET e == W[wi].alpha[j] IN
       /\ used[j] < e.max /\ CanDo(e.op) /\ Do(e.op)
       /\ used' = [used EXCEPT ![j] = @ + 1]
  /\ UNCHANGED <<wi, n>>
Thread(d) == Ready /\ d \in DOMAIN st.drvs /\ ~st.drvs[d].auto /\ Do([op |-> "dstep", id |-> d, times |-> 1]) /\ UNCHANGED <<wi, n, used>>
\* somebody who processes, no more than W[wi].loop at a time
Loop == Ready /\ W[wi].loop > 0 /\ "P" \in DOMAIN st.objs /\ Do([op |-> "process", id |-> "P", max |-> <<W[wi].loop>>, st |-> [k |-> "all"]]) /\ UNCHANGED <<wi, n, used>>
Next == Setup \/ User \/ (\E d \in Drivers : Thread(d)) \/ Loop
Spec == Init /\ [][Next]_vars /\ WF_vars(Setup) /\ (\A d \in Drivers : WF_vars(Thread(d))) /\ WF_vars(Loop)

(* --------------------------------- what happens ------------------------------- *)
Pending(t) == t \in DOMAIN st.tix /\ ~st.tix[t].left
Settled1(t) == t \in DOMAIN got
Alive1(d) == d \in DOMAIN st.drvs
HeldBy(d) == {h \in DOMAIN st.hs : st.hs[h] = d}
Held(d) == HeldBy(d) # {}
Attached(x) == \E d \in DOMAIN st.drvs : \E j \in 1..Len(st.drvs[d].procs) : st.drvs[d].procs[j].k = "probe" /\ st.drvs[d].procs[j].id = x
Handed(x) == \E d \in DOMAIN st.drvs : \E j \in 1..Len(st.drvs[d].cmds) : st.drvs[d].cmds[j].k = "proc" /\ st.drvs[d].cmds[j].x.k = "probe" /\ st.drvs[d].cmds[j].x.id = x
\* the processor of c is under driver d (at any depth)
RECURSIVE Has(_, _)
Has(x, c) == IF x.k \in {"mount", "amount"} THEN \E j \in 1..Len(x.kids) : Has(x.kids[j], c) ELSE x.k = "proc" /\ x.ch = c
Under(d, c) == \E j \in 1..Len(st.drvs[d].procs) : Has(st.drvs[d].procs[j], c)
Cmds(d, k) == \E j \in 1..Len(st.drvs[d].cmds) : st.drvs[d].cmds[j].k = k
Resting(d) == st.drvs[d].paused \/ Cmds(d, "pause")
Queue(c) == IF c \in DOMAIN st.chans THEN st.chans[c].q ELSE <<>>
Busy(c) == \E d \in DOMAIN st.drvs : Under(d, c) /\ ~Resting(d) /\ Queue(c) # <<>>
Waits(b) == \E c \in DOMAIN st.blk : \E e \in st.blk[c] : e.b = b
\* the mount things are handed to is itself under a driver that is not paused
HandedOver(c) == \E a \in DOMAIN st.achans : /\ \E j \in 1..Len(st.achans[a].q) : Has(st.achans[a].q[j], c)
                                             /\ \E d \in DOMAIN st.drvs : ~Resting(d) /\ \E j \in 1..Len(st.drvs[d].procs) : st.drvs[d].procs[j].k = "amount" /\ st.drvs[d].procs[j].ch = a

\* every request is answered, be it by an error (or the one who asked left)
Answered == \A t \in Tickets : Pending(t) ~> Settled1(t) \/ (t \in DOMAIN st.tix /\ st.tix[t].left)
\* a driver nobody holds comes to its end, and what was attached to it is released
Ends == \A d \in Drivers : (n > 0 /\ Alive1(d) /\ ~Held(d)) ~> ~Alive1(d)
Released == \A x \in Probes : Handed(x) ~> (Attached(x) \/ x \in gone)
AllReleased == \A x \in Probes : (Attached(x) /\ DOMAIN st.hs = {}) ~> x \in gone
\* what was sent to a processor under a driver that is not paused is processed
Processed == \A c \in Channels : Busy(c) ~> ~Busy(c)
\* and whoever waits for room gets it, if somebody processes
NobodyWaits == \A b \in Waiting : Waits(b) ~> ~Waits(b)
\* what was handed to an attached mount gets its place
Placed == \A c \in Channels : HandedOver(c) ~> ((\E d \in DOMAIN st.drvs : Under(d, c) \/ Resting(d)) \/ (c \in DOMAIN st.chans /\ ~st.chans[c].rx))
\* everything comes to rest: no commands, no requests, nothing to process
Rests == \A d \in Drivers : <>[](~Alive1(d) \/ (st.drvs[d].cmds = <<>> /\ \A t \in DOMAIN st.tix : st.tix[t].drv # d))
=============================================================================
