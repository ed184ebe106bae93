----------------------------- MODULE SignalConc -----------------------------
(* Linearizability of concurrent histories of the real signal, recorded under *)
(* the controlled scheduler of harness/sig_conc.cpp.  Calls and returns are   *)
(* logged; the moment an operation takes effect is a silent step of this      *)
(* specification between them, as is the moment an emission takes its         *)
(* snapshot and each moment it decides to visit or skip a slot.  A history is *)
(* accepted iff some placement of the silent steps explains all its events.   *)
EXTENDS Signal, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == 3  NH == 4
Fresh == [InitState(1, NT, NT * NH, 0, NT) EXCEPT !.slot = <<>>]
H(t, h) == (t - 1) * NH + h + 1
NoOp == [op |-> "none", x |-> 0, y |-> 0, res |-> 0, lin |-> FALSE, rest |-> <<>>]

VARIABLES i, l, st, pend
vars == <<i, l, st, pend>>

Ev == Traces[i].ev
E  == Ev[l]
Len1 == Len(Ev)

Init == i \in 1..Len(Traces) /\ l = 1 /\ st = Fresh /\ pend = [t \in 1..NT |-> NoOp]

(***************************** logged events ********************************)
Adv == l' = l + 1 /\ UNCHANGED i
Call == /\ E.o = "call" /\ pend[E.t].op = "none"
        /\ pend' = [pend EXCEPT ![E.t] = [NoOp EXCEPT !.op = E.op, !.x = E.x,
                        !.y = IF E.op = "connect" THEN Len(st.slot) + 1 ELSE E.y, !.res = E.y]]
        /\ st' = IF E.op = "connect"
                 THEN [st EXCEPT !.slot = Append(@, [own |-> 0, home |-> 0, blk |-> 0, kind |-> "fn", tgt |-> 0,
                                                     exp |-> FALSE, cap |-> 0])]
                 ELSE st
        /\ Adv
Ret  == /\ E.o = "ret" /\ pend[E.t].lin /\ pend[E.t].op # "emit"
        /\ (pend[E.t].op \in {"num", "empty", "conn"}) => E.x = pend[E.t].res
        /\ pend' = [pend EXCEPT ![E.t] = NoOp] /\ UNCHANGED st /\ Adv
Enter == /\ E.o = "enter" /\ st.frm[E.t] # <<>>
         /\ Top(st, E.t).cur = E.x /\ ~Top(st, E.t).stop /\ Top(st, E.t).thr = 0 /\ Top(st, E.t).arg = E.y
         /\ pend[E.t].op = "none"
         /\ st' = [st EXCEPT !.frm[E.t][Len(st.frm[E.t])].thr = 1]      \* thr = 1: inside the slot body
         /\ UNCHANGED pend /\ Adv
Exit == /\ E.o = "exit" /\ Top(st, E.t).cur = E.x /\ Top(st, E.t).thr = 1
        /\ st' = DoLeave(st, E.t, 0) /\ UNCHANGED pend /\ Adv
EmitRet == /\ E.o = "eret" /\ st.frm[E.t] # <<>> /\ pend[E.t].op = "none"
           /\ Top(st, E.t).cur = 0 /\ (Top(st, E.t).stop \/ Top(st, E.t).rest = <<>>)
           /\ st' = DoEnd(st, E.t) /\ UNCHANGED pend /\ Adv
StopEv == E.o = "stop" /\ st' = DoStop(st, E.t) /\ UNCHANGED pend /\ Adv
Give == E.o = "give" /\ st' = DoSetC(st, H(E.t, E.x), E.y) /\ UNCHANGED pend /\ Adv
Destroyed == /\ E.o = "destroyed" /\ MayDie(st, E.x) /\ st.slot[E.x].home # 0
             /\ st' = [st EXCEPT !.dead = @ \cup {E.x}] /\ UNCHANGED pend /\ Adv
Settled == E.o = "settled" /\ (\A k \in DOMAIN st.slot : st.slot[k].own = 0 => k \in st.dead) /\ UNCHANGED <<st, pend>> /\ Adv
Final == E.o = "final" /\ st.dead = DOMAIN st.slot /\ UNCHANGED <<st, pend>> /\ Adv

(****************************** silent steps ********************************)
Done(t, res) == pend' = [pend EXCEPT ![t].lin = TRUE, ![t].res = res]
Lin(t) ==
  LET p == pend[t] IN
  /\ p.op # "none" /\ ~p.lin
  /\ CASE p.op = "connect" ->
            /\ st' = LET k == p.y IN
                     [st EXCEPT !.slot[k].own = 1, !.slot[k].home = 1,
                                !.list[1] = IF p.x = 1 THEN <<k>> \o @ ELSE Append(@, k),
                                !.C[H(t, p.res)] = k]
            /\ Done(t, 0)
       [] p.op = "dis"   -> LET c == H(t, p.x) IN st' = DoSetC(DoDisconnect(st, st.C[c]), c, 0) /\ Done(t, 0)
       [] p.op = "curdis" -> st' = DoDisconnect(st, Current(st, t)) /\ Done(t, 0)
       [] p.op = "disall" -> \* not atomic: a snapshot, then one slot after the other
            IF p.y = 0 THEN st' = st /\ pend' = [pend EXCEPT ![t].y = 1, ![t].rest = st.list[1]]
            ELSE IF p.rest = <<>> THEN st' = st /\ Done(t, 0)
            ELSE st' = DoDisconnect(st, Head(p.rest)) /\ pend' = [pend EXCEPT ![t].rest = Tail(@)]
       [] p.op = "num"   -> st' = st /\ Done(t, NumSlots(st, 1))
       [] p.op = "empty" -> st' = st /\ Done(t, IF NumSlots(st, 1) = 0 THEN 1 ELSE 0)
       [] p.op = "conn"  -> st' = st /\ Done(t, IF Connected(st, st.C[H(t, p.x)]) THEN 1 ELSE 0)
       [] p.op = "drop"  -> st' = DoSetC(st, H(t, p.x), 0) /\ Done(t, 0)
       [] p.op = "blk"   -> st' = DoSetB(st, t, st.C[H(t, p.x)]) /\ Done(t, 0)
       [] p.op = "unblk" -> st' = DoSetB(st, t, 0) /\ Done(t, 0)
       [] p.op = "emit"  -> st' = DoEmit(st, t, 1, p.x) /\ pend' = [pend EXCEPT ![t] = NoOp]
Decide(t) ==
  /\ st.frm[t] # <<>>
  /\ LET f == Top(st, t) IN
     /\ f.cur = 0 /\ f.rest # <<>> /\ ~f.stop
     /\ st' = IF Eligible(st, Head(f.rest)) THEN DoVisit(st, t, 1) ELSE DoSkip(st, t)
  /\ UNCHANGED pend
Silent == (\E t \in 1..NT : Lin(t) \/ Decide(t)) /\ UNCHANGED <<i, l>>

Next ==
  \/ /\ l <= Len1
     /\ \/ Call \/ Ret \/ Enter \/ Exit \/ EmitRet \/ StopEv \/ Give \/ Destroyed \/ Settled \/ Final
        \/ Silent
  \/ l = Len1 + 1 /\ PrintT(<<"ACC", i>>) /\ l' = l + 1 /\ UNCHANGED <<i, st, pend>>
Spec == Init /\ [][Next]_vars
Inv == ListsConsistent(st) /\ BlockCounted(st) /\ NoUseAfterDeath(st)
(* progress of each trace, for diagnosis of rejections                        *)
=============================================================================
