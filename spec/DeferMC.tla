------------------------------ MODULE DeferMC ------------------------------
(* All small executions: whatever the nesting and the ways out, every action collected runs exactly     *)
(* once, after all later ones of its block and before anything of an enclosing block, and nothing runs *)
(* while control is still inside.                                                                      *)
EXTENDS Defer, FiniteSets, TLC
CONSTANTS MaxEv, MaxIds, Mutant
VARIABLES s, log, n
vars == <<s, log, n>>
Init == s = <<>> /\ log = <<>> /\ n = 0
Evs == {[o |-> x, id |-> n, v |-> 0] : x \in {"enter", "try", "endtry", "exit", "throw", "leave"}}
       \cup {[o |-> "set", id |-> 0, v |-> y] : y \in {1}} \cup {[o |-> "reg", id |-> n + 1, v |-> 0]}
       \cup {[o |-> "run", id |-> x, v |-> y] : x \in 1..n, y \in {0, 1}}
Allowed(e) == \/ Can(s, e)
              \/ Mutant = "fifo" /\ s # <<>> /\ e.o = "run" /\ Top(s).out /\ Top(s).pend # <<>> /\ e.id = Top(s).pend[1] /\ e.v = Top(s).val
Apply(e) == IF Mutant = "fifo" /\ e.o = "run" THEN SetTop(s, [Top(s) EXCEPT !.pend = SelectSeq(@, LAMBDA x : x # e.id)]) ELSE Do(s, e)
Next == /\ Len(log) < MaxEv
        /\ \E e \in Evs : /\ Allowed(e) /\ (e.o = "reg" => n < MaxIds)
                          /\ s' = Apply(e) /\ log' = Append(log, <<e.o, e.id, Len(s)>>)
                          /\ n' = IF e.o = "reg" THEN n + 1 ELSE n
Spec == Init /\ [][Next]_vars
At(o, id) == {k \in DOMAIN log : log[k][1] = o /\ log[k][2] = id}
Pending == UNION {{s[k].pend[j] : j \in DOMAIN s[k].pend} : k \in DOMAIN s}
Once == \A id \in 1..n : /\ Cardinality(At("reg", id)) = 1
                         /\ Cardinality(At("run", id)) = (IF id \in Pending THEN 0 ELSE 1)
\* two actions of one block: same depth, and the block not left in between
Same(a, b) == LET ra == CHOOSE k \in At("reg", a) : TRUE rb == CHOOSE k \in At("reg", b) : TRUE IN
  log[ra][3] = log[rb][3] /\ \A k \in ra..rb : ~(log[k][1] = "leave" /\ log[k][3] <= log[ra][3])
Reverse == \A a, b \in 1..n : a < b /\ Same(a, b) => \A k \in At("run", a) : \E j \in At("run", b) : j < k
\* an action registered in an inner block runs before the inner block ends, hence before the outer one's
Nested == \A a, b \in 1..n : LET ra == CHOOSE k \in At("reg", a) : TRUE rb == CHOOSE k \in At("reg", b) : TRUE IN
  a < b /\ log[rb][3] > log[ra][3] /\ (\A k \in ra..rb : ~(log[k][1] = "leave" /\ log[k][3] <= log[ra][3]))
     /\ (\A k \in ra..rb : log[k][1] # "run")
  => \A k \in At("run", a) : \E j \in At("run", b) : j < k
AllGone == s = <<>> => \A id \in 1..n : At("run", id) # {}
=============================================================================
