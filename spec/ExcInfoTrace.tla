---------------------------- MODULE ExcInfoTrace ----------------------------
(* Recorded uses of kl::exception_info against ExcInfo.tla. Slots 1..4 hold exception_info objects,    *)
(* 5..6 thrown exceptions (exception_ptr). Each event ends with d: slot -> <<>> or what is seen:       *)
(* loc, g (tag -> query), diag (sequence of <<tag, value>>; values of tag m are not printed).          *)
EXTENDS ExcInfo, Json, IOUtils
VARIABLES i, l, s
Traces == ndJsonDeserialize(IOEnv.TRACE)
Tags == {"a", "b", "c", "m"}
None == [k \in 1..6 |-> <<>>]
Edit(x, ed) == IF ed[1] = "set" THEN Set(x, ed[2], ed[3]) ELSE Unset(x, ed[2])
RECURSIVE Edits(_, _)
Edits(x, eds) == IF eds = <<>> THEN x ELSE Edits(Edit(x, Head(eds)), Tail(eds))
Put(k, x) == [s EXCEPT ![k] = <<x>>]
At(k) == s[k][1]
After(e) ==
  CASE e.o = "new" -> Put(e.k, Empty(e.loc))
    [] e.o = "edit" -> Put(e.k, Edits(At(e.k), e.ed))
    [] e.o = "copy" -> Put(e.to, At(e.k))
    [] e.o = "move" -> [s EXCEPT ![e.to] = <<At(e.k)>>, ![e.k] = <<Empty(0)>>]
    [] e.o = "swap" -> [s EXCEPT ![e.to] = s[e.k], ![e.k] = s[e.to]]
    \* thrown with the details of k, edited in the handler, kept in slot "to" if asked to
    [] e.o = "throw" -> IF e.to = 0 THEN s ELSE Put(e.to, Edits(At(e.k), e.ed))
    \* rethrown from slot k, edited in the handler, copied to "to"
    [] e.o = "rethrow" -> [s EXCEPT ![e.k] = <<Edits(At(e.k), e.ed)>>, ![e.to] = <<Edits(At(e.k), e.ed)>>]
    [] e.o = "plain" -> s
Seen(d, x) == /\ d.loc = x.loc /\ d.dloc = x.loc
              /\ \A t \in Tags : d.g[t] = Get(x, t)
              /\ d.diag = [k \in DOMAIN x.st |-> IF x.st[k][1] = "m" THEN <<"m", -1>> ELSE x.st[k]]
ThrownOK(e) == e.o \in {"throw", "rethrow"} => e.caught /\ e.same
EvOK(e) == /\ e.o # "exc"
           /\ LET t == After(e) IN \A k \in 1..6 : IF t[k] = <<>> THEN e.d[k] = <<>> ELSE e.d[k] # <<>> /\ Seen(e.d[k][1], t[k][1])
           /\ ThrownOK(e)
           /\ (e.o = "plain" => e.ok)
Init == i = 1 /\ l = 1 /\ s = None
Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Traces[i].ev) THEN i' = i + 1 /\ l' = 1 /\ s' = None
        ELSE LET e == Traces[i].ev[l] IN
             IF EvOK(e) THEN l' = l + 1 /\ i' = i /\ s' = After(e)
             ELSE PrintT(<<"REJ", i, l>>) /\ i' = i + 1 /\ l' = 1 /\ s' = None
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ l' = 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_<<i, l, s>>
=============================================================================
