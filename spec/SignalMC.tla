------------------------------ MODULE SignalMC ------------------------------
(* Exhaustive exploration of Signal.tla with small constants: the design      *)
(* itself has the listed properties, for every history of the modelled steps. *)
EXTENDS Signal
CONSTANTS NSig, NThr, MaxSlots, MaxDepth, MaxEmits, NCon, NScp, NBlk, AllowMove
VARIABLES st, emits, lastVisit, forbid
vars == <<st, emits, lastVisit, forbid>>
(* lastVisit: slot visited by the last step (0 otherwise)                      *)
(* forbid[t][n]: slots that did not exist when the n-th emission of t started  *)

Thr == 1..NThr
Idle(t) == IF st.frm[t] = <<>> THEN TRUE ELSE Top(st, t).cur # 0     \* t runs user code
CanAct(t) == Idle(t)

Init == /\ st = InitState(NSig, NThr, NCon, NScp, NBlk) /\ emits = 0 /\ lastVisit = 0
        /\ forbid = [t \in Thr |-> <<>>]
Quiet == UNCHANGED <<emits, forbid>> /\ lastVisit' = 0

Connect(t) == /\ CanAct(t) /\ Len(st.slot) < MaxSlots
              /\ \E s \in 1..NSig, fr \in BOOLEAN, c \in 1..NCon :
                   st' = DoSetC(DoConnect(st, s, fr, "fn", 0), c, Len(st.slot) + 1)
              /\ Quiet
Disconnect(t) == CanAct(t) /\ \E c \in 1..NCon : st.C[c] # 0 /\ st' = DoSetC(DoDisconnect(st, st.C[c]), c, 0) /\ Quiet
DisCurrent(t) == CanAct(t) /\ Current(st, t) # 0 /\ st' = DoDisconnect(st, Current(st, t)) /\ Quiet
DisAll(t) == CanAct(t) /\ \E s \in 1..NSig : st' = DoDisconnectAll(st, s) /\ Quiet
Scope(t) == CanAct(t) /\ \E k \in 1..NScp, c \in 1..NCon : st' = DoSetK(st, k, st.C[c]) /\ Quiet
Unscope(t) == CanAct(t) /\ \E k \in 1..NScp : st' = DoSetK(st, k, 0) /\ Quiet
CopyC(t) == CanAct(t) /\ \E c, d \in 1..NCon : c # d /\ st' = DoSetC(st, c, st.C[d]) /\ Quiet
BlockC(t) == CanAct(t) /\ \E b \in 1..NBlk, c \in 1..NCon : st' = DoSetB(st, b, st.C[c]) /\ Quiet
CopyB(t) == CanAct(t) /\ \E b, d \in 1..NBlk : st' = DoSetB(st, b, st.B[d]) /\ Quiet
DropB(t) == CanAct(t) /\ \E b \in 1..NBlk : st' = DoSetB(st, b, 0) /\ Quiet
Swap == /\ AllowMove /\ \A s \in 1..NSig : ~Emitting(st, s)
        /\ \E a, b \in 1..NSig : a < b /\ st' = DoSwapSig(st, a, b)
        /\ Quiet
Stop(t) == CanAct(t) /\ st.frm[t] # <<>> /\ st' = DoStop(st, t) /\ Quiet

Emit(t) == /\ CanAct(t) /\ emits < MaxEmits /\ Len(st.frm[t]) < MaxDepth
           /\ \E s \in 1..NSig : st' = DoEmit(st, t, s, 0)
           /\ emits' = emits + 1 /\ lastVisit' = 0
           /\ forbid' = [forbid EXCEPT ![t] = Append(@, (1..MaxSlots) \ DOMAIN st.slot)]
(* an emission decides slot by slot: either the head is not eligible now, or   *)
(* it is visited                                                               *)
InLoop(t) == st.frm[t] # <<>> /\ Top(st, t).cur = 0 /\ Top(st, t).rest # <<>>
             /\ ~Top(st, t).stop /\ Top(st, t).thr = 0
Skip(t)  == InLoop(t) /\ ~Eligible(st, Head(Top(st, t).rest)) /\ st' = DoSkip(st, t) /\ Quiet
Visit(t) == /\ InLoop(t) /\ Eligible(st, Head(Top(st, t).rest))
            /\ st' = DoVisit(st, t, 1) /\ lastVisit' = Head(Top(st, t).rest)
            /\ UNCHANGED <<emits, forbid>>
Leave(t) == /\ st.frm[t] # <<>> /\ Top(st, t).cur # 0
            /\ \E e \in {0, 1} : st' = DoLeave(st, t, e)
            /\ Quiet
End(t)   == /\ st.frm[t] # <<>> /\ Top(st, t).cur = 0 /\ ~InLoop(t)
            /\ st' = DoEnd(st, t) /\ lastVisit' = 0 /\ UNCHANGED emits
            /\ forbid' = [forbid EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Destroy  == /\ \E k \in DOMAIN st.slot : MustBeDead(st, k) /\ k \notin st.dead
                 /\ st' = [st EXCEPT !.dead = @ \cup {k}]
            /\ Quiet

Next == \/ Swap \/ Destroy
        \/ \E t \in Thr : \/ Connect(t) \/ Disconnect(t) \/ DisCurrent(t) \/ DisAll(t) \/ Scope(t) \/ Unscope(t)
                          \/ CopyC(t) \/ BlockC(t) \/ CopyB(t) \/ DropB(t) \/ Stop(t)
                          \/ Emit(t) \/ Skip(t) \/ Visit(t) \/ Leave(t) \/ End(t)
Spec == Init /\ [][Next]_vars

(******************************* properties *********************************)
Inv == StInv(st)
(* a slot connected after an emission started is never part of it             *)
SnapshotInv == \A t \in Thr : \A n \in 1..Len(st.frm[t]) :
   LET f == st.frm[t][n] IN (Rng(f.rest) \cup Rng(f.acc)) \cap forbid[t][n] = {} /\ NoDup(f.acc)
(* what is visited is connected and unblocked at that moment                  *)
VisitOk == [][lastVisit' # 0 => (st.slot[lastVisit'].own # 0 /\ st.slot[lastVisit'].blk = 0)]_vars
(* disconnection is final                                                     *)
Final == [][\A k \in DOMAIN st.slot : st.slot[k].own = 0 => st'.slot[k].own = 0]_vars
DeadFinal == [][st.dead \subseteq st'.dead]_vars
(* swapping keeps every slot connected exactly once                           *)
Conserve == [][(st'.list # st.list /\ AllowMove /\ lastVisit' = 0 /\ st.slot # <<>> /\ DOMAIN st.slot = DOMAIN st'.slot) =>
               \A k \in DOMAIN st.slot : st'.slot[k].own # 0 =>
                   Cardinality({<<s, i>> \in (1..NSig) \X (1..MaxSlots) : i <= Len(st'.list[s]) /\ st'.list[s][i] = k}) = 1]_vars
=============================================================================
