----------------------------- MODULE SignalTrace -----------------------------
(* Validates single-threaded (re-entrant) executions of the real signal       *)
(* library, recorded by harness/sig_seq.cpp, against Signal.tla.  The walk is *)
(* deterministic: one state per event; forwarding slots (a signal connected   *)
(* to a signal) and slots of expired weak instances are silent steps.         *)
EXTENDS Signal, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NS == 3  NC == 6  NK == 4  NB == 5
Fresh == InitState(NS, 1, NC, NK, NB)

VARIABLES i, l, st
vars == <<i, l, st>>

Ev == Traces[i].ev
E  == Ev[l]
T  == 1

IsEmitPoint(e) == e.o \in {"enter", "eret"}
HasTop == st.frm[T] # <<>>
TopF   == Top(st, T)
Depth  == Len(st.frm[T])
IsChainFrame == Depth >= 2 /\ st.frm[T][Depth - 1].cur # 0
                /\ st.slot[st.frm[T][Depth - 1].cur].kind = "chain"
NI == NextIdx(st, TopF)

(* silent steps needed before the next enter / end of emission                *)
SilentKind ==
  IF ~HasTop \/ ~IsEmitPoint(E) \/ TopF.cur # 0 THEN "none"
  ELSE IF NI # 0 /\ st.slot[TopF.rest[NI]].kind = "chain" THEN "chain"
  ELSE IF NI # 0 /\ st.slot[TopF.rest[NI]].exp THEN "expired"
  ELSE IF NI = 0 /\ IsChainFrame THEN "endchain"
  ELSE "none"

SilentState ==
  CASE SilentKind = "chain" ->
         LET k == TopF.rest[NI] s1 == DoVisit(st, T, NI) IN DoEmit(s1, T, st.slot[k].tgt, TopF.arg)
    [] SilentKind = "expired" ->
         LET s1 == DoLeave(DoVisit(st, T, NI), T, 0) n == Len(s1.frm[T])
         IN [s1 EXCEPT !.frm[T][n].acc = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> DoEndChain(st, T)

(* guard of the event, given the state *)
Guard(e) ==
  CASE e.o = "enter" -> HasTop /\ TopF.cur = 0 /\ NI # 0 /\ TopF.rest[NI] = e.x /\ TopF.arg = e.y
    [] e.o = "exit"  -> HasTop /\ TopF.cur = e.x
    [] e.o = "eret"  -> HasTop /\ ~IsChainFrame /\ TopF.cur = 0 /\ NI = 0 /\ e.y = TopF.thr
                        /\ e.acc = TopF.acc
    [] e.o = "obs"   -> /\ \A s \in 1..NS : /\ e.num[s] = NumSlots(st, s)
                                              /\ (e.emp[s] = 1) <=> (NumSlots(st, s) = 0)
                        /\ \A c \in 1..NC : (e.con[c] = 1) <=> Connected(st, st.C[c])
                        /\ \A k \in 1..NK : (e.kon[k] = 1) <=> Connected(st, st.K[k])
    \* moving or swapping terminates iff one of the signals is being emitted
    [] e.o = "trymove" -> e.r = IF \/ Emitting(st, e.x) /\ (e.z = 2 \/ e.x # e.y)
                                   \/ Emitting(st, e.y) /\ e.z # 2 /\ e.x # e.y
                                THEN 1 ELSE 0
    [] e.o = "num"   -> e.r = NumSlots(st, e.x)
    [] e.o = "empty" -> (e.r = 1) <=> (NumSlots(st, e.x) = 0)
    [] e.o = "conn"  -> (e.r = 1) <=> Connected(st, st.C[e.x])
    [] e.o = "kconn" -> (e.r = 1) <=> Connected(st, st.K[e.x])
    [] e.o = "blocking" -> (e.r = 1) <=> (st.B[e.x] # 0)
    [] e.o = "ceq"   -> (e.r = 1) <=> (st.C[e.x] = st.C[e.y])
    [] e.o = "keq"   -> (e.r = 1) <=> (st.K[e.x] = st.C[e.y])
    \* current_connection(): equality with every connection handle, emptiness, connectedness
    [] e.o = "cur"   -> /\ \A c \in 1..NC : e.eq[c] = 2 \/ ((e.eq[c] = 1) <=> (st.C[c] = Current(st, T)))
                        /\ (e.x = 1) <=> (Current(st, T) = 0)
                        /\ (e.y = 1) <=> Connected(st, Current(st, T))
    [] e.o = "destroyed" -> MayDie(st, e.x)
    [] OTHER -> TRUE

(* the callable captures a scoped connection made from handle C[e.cap]         *)
WithCap(s, e) == IF e.cap = 0 THEN s ELSE [s EXCEPT !.slot[Len(s.slot)].cap = st.C[e.cap]]

After(e) ==
  CASE e.o = "connect" -> DoSetC(WithCap(DoConnect(st, e.x, e.y = 1, e.k, e.z), e), e.c, Len(st.slot) + 1)
    [] e.o = "connectk" -> DoSetK(WithCap(DoConnect(st, e.x, e.y = 1, e.k, e.z), e), e.c, Len(st.slot) + 1)
    [] e.o = "connectself" -> LET k == Len(st.slot) + 1 IN
                              [DoConnect(st, e.x, e.y = 1, "fn", 0) EXCEPT !.slot[k].cap = k]
    [] e.o = "connnull" -> DoSetC(st, e.c, 0)
    [] e.o = "dis"      -> DoSetC(DoDisconnect(st, st.C[e.x]), e.x, 0)
    [] e.o = "curdis"   -> DoDisconnect(st, Current(st, T))
    [] e.o = "curget"   -> DoSetC(st, e.x, Current(st, T))
    [] e.o = "disall"   -> DoDisconnectAll(st, e.x)
    [] e.o = "newsig"   -> DoDisconnectAll(st, e.x)
    [] e.o = "copyc"    -> DoSetC(st, e.x, st.C[e.y])
    [] e.o = "swapc"    -> [st EXCEPT !.C = SwapIn(st.C, e.x, e.y)]
    [] e.o = "dropc"    -> DoSetC(st, e.x, 0)
    [] e.o = "scope"    -> DoSetK(st, e.x, st.C[e.y])
    [] e.o = "swapk"    -> [st EXCEPT !.K = SwapIn(st.K, e.x, e.y)]
    [] e.o = "dropk"    -> DoSetK(st, e.x, 0)
    [] e.o = "release"  -> LET k == st.K[e.x] IN DoSetC([st EXCEPT !.K[e.x] = 0], e.y, k)
    [] e.o = "getk"     -> DoSetC(st, e.y, st.K[e.x])
    [] e.o = "blk"      -> DoSetB(st, e.x, st.C[e.y])
    [] e.o = "copyb"    -> DoSetB(st, e.x, st.B[e.y])
    [] e.o = "swapb"    -> [st EXCEPT !.B = SwapIn(st.B, e.x, e.y)]
    [] e.o = "dropb"    -> DoSetB(st, e.x, 0)
    [] e.o = "expire"   -> [st EXCEPT !.slot[e.x].exp = TRUE]
    [] e.o = "swapsig"  -> DoSwapSig(st, e.x, e.y)
    [] e.o = "renamesig" -> DoRenameSig(st, e.x)
    [] e.o = "emit"     -> DoEmit(st, T, e.x, e.y)
    [] e.o = "enter"    -> DoVisit(st, T, NI)
    [] e.o = "exit"     -> DoLeave(st, T, e.y)
    [] e.o = "eret"     -> DoEnd(st, T)
    [] e.o = "stop"     -> DoStop(st, T)
    [] e.o = "destroyed" -> [st EXCEPT !.dead = @ \cup {e.x}]
    [] e.o = "capdis"   -> DoDisconnect([st EXCEPT !.slot[e.x].cap = 0], st.slot[e.x].cap)
    [] OTHER -> st

(* at the end of an operation (outside of destructors) everything that must   *)
(* have been destroyed has been                                               *)
Settled(e, s) ==
  e.chk = 1 => \A k \in DOMAIN s.slot : (s.slot[k].kind \in {"fn", "shared"} /\ MustBeDead(s, k)) => k \in s.dead

Init == i = 1 /\ l = 1 /\ st = Fresh

Reject == PrintT(<<"REJ", i, l>>) /\ i' = i + 1 /\ l' = 1 /\ st' = Fresh

Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Ev) THEN i' = i + 1 /\ l' = 1 /\ st' = Fresh
        ELSE IF SilentKind # "none" THEN st' = SilentState /\ UNCHANGED <<i, l>>
        ELSE IF ~Guard(E) THEN Reject
        ELSE LET s == After(E) IN
             IF StInv(s) /\ Settled(E, s) THEN st' = s /\ l' = l + 1 /\ i' = i ELSE Reject
  \/ /\ i = Len(Traces) + 1
     /\ PrintT(<<"DONE", Len(Traces)>>)
     /\ i' = i + 1 /\ UNCHANGED <<l, st>>

Spec == Init /\ [][Next]_vars
=============================================================================
