------------------------------- MODULE Signal -------------------------------
(* kl::signal, kl::connection, scoped_connection, connection::blocker and     *)
(* kl::this_signal at the level of their API.                                 *)
(*                                                                            *)
(* The whole abstract state is one record `st`:                               *)
(*   list[s]   connected slots of signal s, in invocation order               *)
(*   slot[k]   own: signal the slot is connected to (0: disconnected)         *)
(*             home: signal it was last connected to                          *)
(*             kind: "fn" | "chain" (forwards to signal tgt) | "weak" | ...   *)
(*             exp:  weak instance expired                                    *)
(*             blk:  number of blockers                                       *)
(*   frm[t]    stack of running emissions of thread t (innermost last)        *)
(*   C, K, B   connection / scoped_connection / blocker handles -> slot or 0  *)
(*   own[k]    scoped connection captured by slot k's callable -> slot or 0   *)
(*   dead      slots whose callable has been destroyed                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Rng(q) == {q[i] : i \in 1..Len(q)}
Without(q, k) == SelectSeq(q, LAMBDA x : x # k)

(***************************** state and queries ****************************)
InitState(NS, NT, NC, NK, NB) ==
  [ list |-> [s \in 1..NS |-> <<>>],
    slot |-> <<>>,
    frm  |-> [t \in 1..NT |-> <<>>],
    C |-> [i \in 1..NC |-> 0], K |-> [i \in 1..NK |-> 0], B |-> [i \in 1..NB |-> 0],
    dead |-> {} ]

Connected(st, k) == k # 0 /\ st.slot[k].own # 0
Eligible(st, k)  == st.slot[k].own # 0 /\ st.slot[k].blk = 0
NumSlots(st, s)  == Len(st.list[s])

Top(st, t)       == st.frm[t][Len(st.frm[t])]
(* the slot executing on t: that of the innermost emission that is inside a   *)
(* slot (an emission that is over but still cleaning up is not)               *)
RECURSIVE CurOf(_, _)
CurOf(fs, n) == IF n = 0 THEN 0 ELSE IF fs[n].cur # 0 THEN fs[n].cur ELSE CurOf(fs, n - 1)
Current(st, t)   == CurOf(st.frm[t], Len(st.frm[t]))
Running(st, k)   == \E t \in DOMAIN st.frm : \E i \in 1..Len(st.frm[t]) : st.frm[t][i].cur = k
Emitting(st, s)  == \E t \in DOMAIN st.frm : \E i \in 1..Len(st.frm[t]) : st.frm[t][i].sig = s

(* Index in `rest` of the next slot the emission must visit; 0 if none.       *)
RECURSIVE FirstElig(_, _, _)
FirstElig(st, rest, i) ==
  IF i > Len(rest) THEN 0
  ELSE IF Eligible(st, rest[i]) THEN i ELSE FirstElig(st, rest, i + 1)
NextIdx(st, f) == IF f.stop \/ f.thr # 0 THEN 0 ELSE FirstElig(st, f.rest, 1)

(********************************* connect **********************************)
(* a new slot, number Len(slot)+1, connected to s at the front or the back    *)
DoConnect(st, s, front, kind, tgt) ==
  LET k == Len(st.slot) + 1 IN
  [st EXCEPT !.slot = Append(@, [own |-> s, home |-> s, blk |-> 0, kind |-> kind, tgt |-> tgt,
                                 exp |-> FALSE, cap |-> 0]),
             !.list[s] = IF front THEN <<k>> \o @ ELSE Append(@, k)]

(******************************** disconnect ********************************)
DoDisconnect(st, k) ==
  IF k = 0 \/ st.slot[k].own = 0 THEN st
  ELSE [st EXCEPT !.list[st.slot[k].own] = Without(@, k), !.slot[k].own = 0]

RECURSIVE DisconnectSeq(_, _)
DisconnectSeq(st, q) == IF q = <<>> THEN st ELSE DisconnectSeq(DoDisconnect(st, Head(q)), Tail(q))
DoDisconnectAll(st, s) == DisconnectSeq(st, st.list[s])

(********************************* emission *********************************)
DoEmit(st, t, s, v) ==
  [st EXCEPT !.frm[t] = Append(@, [sig |-> s, rest |-> st.list[s], stop |-> FALSE, thr |-> 0,
                                   cur |-> 0, arg |-> v, acc |-> <<>>])]
(* visit the i-th slot of `rest` (everything before it was skipped)           *)
DoVisit(st, t, i) ==
  LET n == Len(st.frm[t]) f == st.frm[t][n] IN
  [st EXCEPT !.frm[t][n] = [f EXCEPT !.cur = f.rest[i], !.rest = SubSeq(f.rest, i + 1, Len(f.rest)),
                                     !.acc = Append(@, f.rest[i])]]
DoSkip(st, t) == [st EXCEPT !.frm[t][Len(st.frm[t])].rest = Tail(@)]
DoLeave(st, t, thr) ==
  LET n == Len(st.frm[t]) IN
  [st EXCEPT !.frm[t][n].cur = 0, !.frm[t][n].thr = thr]
DoStop(st, t) ==
  IF st.frm[t] = <<>> THEN st ELSE [st EXCEPT !.frm[t][Len(st.frm[t])].stop = TRUE]
DoEnd(st, t) == [st EXCEPT !.frm[t] = SubSeq(@, 1, Len(@) - 1)]

(* every value v appended to the by-reference argument by a nested (chained)  *)
(* emission is seen by the enclosing one as well                              *)
DoEndChain(st, t) ==
  LET n == Len(st.frm[t]) f == st.frm[t][n] IN
  [st EXCEPT !.frm[t] = [SubSeq(@, 1, n - 1) EXCEPT ![n - 1].acc = SubSeq(@, 1, Len(@) - 1) \o f.acc,
                                                   ![n - 1].cur = 0, ![n - 1].thr = f.thr]]

(********************************* handles **********************************)
Block(st, k)   == IF k = 0 THEN st ELSE [st EXCEPT !.slot[k].blk = @ + 1]
Unblock(st, k) == IF k = 0 THEN st ELSE [st EXCEPT !.slot[k].blk = @ - 1]
SwapIn(f, i, j) == [f EXCEPT ![i] = f[j], ![j] = f[i]]

DoSetC(st, c, k) == [st EXCEPT !.C[c] = k]
(* a temporary scoped connection is move-assigned into K[i]: the one it       *)
(* replaces is destroyed, which ends the connection it owned                  *)
DoSetK(st, i, k) == LET old == st.K[i] IN DoDisconnect([st EXCEPT !.K[i] = k], old)
DoSetB(st, b, k) == LET old == st.B[b] IN Unblock(Block([st EXCEPT !.B[b] = k], k), old)

(******************************* move and swap ******************************)
Rehome(st, s) ==
  [st EXCEPT !.slot = [k \in DOMAIN st.slot |->
       IF k \in Rng(st.list[s]) THEN [st.slot[k] EXCEPT !.own = s, !.home = s] ELSE st.slot[k]]]
DoSwapSig(st, a, b) ==
  IF a = b THEN st ELSE Rehome(Rehome([st EXCEPT !.list = SwapIn(st.list, a, b)], a), b)
DoRenameSig(st, s) == st          \* move construction into a fresh object at the same position

(******************************** lifetimes *********************************)
Held(st, k) == \/ \E i \in DOMAIN st.C : st.C[i] = k
               \/ \E i \in DOMAIN st.K : st.K[i] = k
               \/ \E i \in DOMAIN st.B : st.B[i] = k
               \/ \E j \in DOMAIN st.slot : j \notin st.dead /\ st.slot[j].cap = k
MayDie(st, k)  == st.slot[k].own = 0 /\ ~Running(st, k) /\ k \notin st.dead
MustBeDead(st, k) == /\ st.slot[k].own = 0 /\ ~Emitting(st, st.slot[k].home)
                     /\ ~Held(st, k) /\ ~Running(st, k)

(******************************** invariants ********************************)
NoDup(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
ListsConsistent(st) ==
  /\ \A s \in DOMAIN st.list : NoDup(st.list[s]) /\ \A k \in Rng(st.list[s]) : st.slot[k].own = s
  /\ \A k \in DOMAIN st.slot : st.slot[k].own # 0 => k \in Rng(st.list[st.slot[k].own])
BlockCounted(st) ==
  \A k \in DOMAIN st.slot : st.slot[k].blk = Cardinality({i \in DOMAIN st.B : st.B[i] = k})
NoUseAfterDeath(st) ==
  \A k \in st.dead : st.slot[k].own = 0 /\ ~Running(st, k)
(* what is left to visit is a subsequence of the snapshot and in list order   *)
RestOrdered(st) ==
  \A t \in DOMAIN st.frm : \A n \in 1..Len(st.frm[t]) :
     LET f == st.frm[t][n]
         live == SelectSeq(f.rest, LAMBDA k : st.slot[k].own = f.sig)
     IN  /\ NoDup(f.rest)
         /\ live = SelectSeq(st.list[f.sig], LAMBDA k : k \in Rng(f.rest))
StInv(st) == ListsConsistent(st) /\ BlockCounted(st) /\ NoUseAfterDeath(st) /\ RestOrdered(st)
=============================================================================
