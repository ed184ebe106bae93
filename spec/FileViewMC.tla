----------------------------- MODULE FileViewMC -----------------------------
(* The open / fstat / mmap / close sequence of the implementation under every schedule of failing       *)
(* calls, for several views over several files at once; every finished construction and destruction is *)
(* judged by FileView. Mutant names a deliberately broken variant (TLC must refute it).                *)
EXTENDS FileView, TLC
CONSTANTS Views, MaxOpens, Mutant
Files == {[kind |-> "file", size |-> 0, dig |-> "0"], [kind |-> "file", size |-> 5, dig |-> "x"], [kind |-> "file", size |-> 4097, dig |-> "y"],
          [kind |-> "missing", size |-> 0, dig |-> "0"], [kind |-> "dir", size |-> 4096, dig |-> "d"]}
VARIABLES pc, f, fd, cs, view, k, opens, base, out, addr
vars == <<pc, f, fd, cs, view, k, opens, base, out, addr>>
NoView == [on |-> FALSE, own |-> [fds |-> {}, maps |-> {}], a |-> 0, n |-> 0]
Nil == [kind |-> "missing", size |-> 0, dig |-> "0"]
Init == /\ pc = [v \in Views |-> "idle"] /\ f = [v \in Views |-> Nil] /\ fd = [v \in Views |-> -1] /\ cs = [v \in Views |-> <<>>]
        /\ view = [v \in Views |-> NoView] /\ k = K0 /\ opens = 0 /\ base = [v \in Views |-> K0] /\ out = [v \in Views |-> [r |-> "none"]] /\ addr = 0
Busy == \E v \in Views : pc[v] \notin {"idle", "live"}
FreeFd == CHOOSE n \in 0..9 : n \notin k.fds /\ \A m \in 0..9 : m < n => m \in k.fds
Call(v, c) == cs' = [cs EXCEPT ![v] = Append(@, c)] /\ k' = After(k, c)
Rec(c, d, a, n, ret, e, inj) == [c |-> c, fd |-> d, a |-> a, n |-> n, ret |-> ret, e |-> e, inj |-> inj]
Open(v) == /\ pc[v] = "idle" /\ ~Busy /\ opens < MaxOpens
           /\ \E g \in Files, inj \in BOOLEAN :
              /\ f' = [f EXCEPT ![v] = g] /\ base' = [base EXCEPT ![v] = k] /\ opens' = opens + 1
              /\ LET ok == ~inj /\ g.kind # "missing" IN
                 /\ cs' = [cs EXCEPT ![v] = <<Rec("open", -1, 0, 0, IF ok THEN FreeFd ELSE -1, IF ok THEN 0 ELSE IF inj THEN 24 ELSE 2, inj)>>]
                 /\ k' = After(k, cs'[v][1])
                 /\ fd' = [fd EXCEPT ![v] = IF ok THEN FreeFd ELSE -1]
                 /\ pc' = [pc EXCEPT ![v] = IF ok THEN "stat" ELSE "done"]
                 /\ out' = [out EXCEPT ![v] = IF ok THEN [r |-> "none"] ELSE [r |-> "err", code |-> cs'[v][1].e]]
           /\ UNCHANGED <<view, addr>>
Stat(v) == /\ pc[v] = "stat"
           /\ \E inj \in BOOLEAN :
              /\ Call(v, Rec("fstat", fd[v], 0, 0, IF inj THEN -1 ELSE 0, IF inj THEN 5 ELSE 0, inj))
              /\ IF inj THEN /\ pc' = [pc EXCEPT ![v] = IF Mutant = "leakfd" THEN "done" ELSE "close"]
                             /\ out' = [out EXCEPT ![v] = [r |-> "err", code |-> 5]]
                 ELSE IF f[v].size = 0 THEN pc' = [pc EXCEPT ![v] = "close"] /\ out' = [out EXCEPT ![v] = [r |-> "view", size |-> 0, dig |-> "0"]]
                 ELSE pc' = [pc EXCEPT ![v] = "map"] /\ UNCHANGED out
           /\ UNCHANGED <<f, fd, view, opens, base, addr>>
Map(v) == /\ pc[v] = "map"
          /\ \E inj \in BOOLEAN :
             LET ok == ~inj /\ f[v].kind = "file" e == IF inj THEN 12 ELSE 19 IN
             /\ Call(v, Rec("mmap", fd[v], addr + 1, Pages(f[v].size), IF ok THEN 0 ELSE -1, IF ok THEN 0 ELSE e, inj))
             /\ addr' = addr + 1
             /\ IF ok \/ Mutant = "nofail"
                THEN /\ out' = [out EXCEPT ![v] = [r |-> "view", size |-> f[v].size, dig |-> IF ok THEN f[v].dig ELSE "garbage"]]
                     /\ view' = [view EXCEPT ![v].a = addr + 1, ![v].n = Pages(f[v].size)]
                ELSE out' = [out EXCEPT ![v] = [r |-> "err", code |-> IF Mutant = "lateerrno" THEN 9 ELSE e]] /\ UNCHANGED view
          /\ pc' = [pc EXCEPT ![v] = "close"]
          /\ UNCHANGED <<f, fd, opens, base>>
Close(v) == /\ pc[v] = "close"
            /\ \E inj \in BOOLEAN : Call(v, Rec("close", fd[v], 0, 0, IF inj THEN -1 ELSE 0, IF inj THEN 5 ELSE 0, inj))
            /\ pc' = [pc EXCEPT ![v] = "done"]
            /\ UNCHANGED <<f, fd, view, opens, base, out, addr>>
Done(v) == /\ pc[v] = "done"
           /\ pc' = [pc EXCEPT ![v] = IF out[v].r = "view" THEN "live" ELSE "idle"]
           /\ view' = [view EXCEPT ![v].on = (out[v].r = "view"), ![v].own = Owned(base[v], k)]
           /\ UNCHANGED <<f, fd, cs, k, opens, base, out, addr>>
\* the "copy" mutant: a second view takes the bytes of the first without owning a mapping
Copy(v) == /\ Mutant = "copy" /\ pc[v] = "live" /\ ~Busy
           /\ \E w \in Views : /\ pc[w] = "idle" /\ pc' = [pc EXCEPT ![w] = "live"]
                               /\ view' = [view EXCEPT ![w] = [view[v] EXCEPT !.own = [fds |-> {}, maps |-> {}]]]
           /\ UNCHANGED <<f, fd, cs, k, opens, base, out, addr>>
Destroy(v) == /\ pc[v] = "live" /\ ~Busy
              /\ base' = [base EXCEPT ![v] = k]
              /\ IF view[v].a # 0 THEN LET c == Rec("munmap", -1, view[v].a, view[v].n, 0, 0, FALSE) IN cs' = [cs EXCEPT ![v] = <<c>>] /\ k' = After(k, c)
                 ELSE cs' = [cs EXCEPT ![v] = <<>>] /\ UNCHANGED k
              /\ pc' = [pc EXCEPT ![v] = "gone"] /\ UNCHANGED <<f, fd, view, opens, out, addr>>
Gone(v) == /\ pc[v] = "gone" /\ pc' = [pc EXCEPT ![v] = "idle"] /\ view' = [view EXCEPT ![v] = NoView]
           /\ UNCHANGED <<f, fd, cs, k, opens, base, out, addr>>
Next == \E v \in Views : Open(v) \/ Stat(v) \/ Map(v) \/ Close(v) \/ Done(v) \/ Copy(v) \/ Destroy(v) \/ Gone(v)
Spec == Init /\ [][Next]_vars
Judged == \A v \in Views :
  /\ pc[v] = "done" => AllLegal(base[v], cs[v]) /\ OutcomeOK(f[v], cs[v], out[v]) /\ ResourcesOK(base[v], k, out[v])
  /\ pc[v] = "gone" => AllLegal(base[v], cs[v]) /\ DestroyOK(base[v], view[v].own, k)
NoLeak == (\A v \in Views : pc[v] = "idle") => k = K0
NoDescriptorKept == (\A v \in Views : pc[v] \in {"idle", "live"}) => k.fds = {}
=============================================================================
