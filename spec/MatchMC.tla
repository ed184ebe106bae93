------------------------------- MODULE MatchMC -------------------------------
(* Dispatch as a state machine: look at the alternative, select, run one handler
   on the stored value (Bug "copy": on a copy of it), return. *)
EXTENDS Match, TLC, FiniteSets
CONSTANTS Bug, MaxN
VARIABLES s, pc, loc, runs, n, s0, how, add, wr
vars == <<s, pc, loc, runs, n, s0, how, add, wr>>
Hows == {"exact", "generic", "moveonly", "throw"}
Init == s \in {<<a, k>> : a \in 0..7, k \in 0..1} \cup {<<-1, -1>>} /\ pc = "idle" /\ loc = <<>> /\ runs = <<>> /\ n = 0 /\ s0 = s /\ how = "exact" /\ add = 0 /\ wr = FALSE
Start == /\ pc = "idle" /\ n < MaxN /\ n' = n + 1 /\ s0' = s /\ how' \in Hows /\ add' \in 2..3 /\ wr' \in BOOLEAN
         /\ runs' = <<>> /\ UNCHANGED <<s, loc>>
         /\ pc' = IF s[1] = -1 THEN "idle" ELSE "run"
Run == /\ pc = "run" /\ pc' = "idle" /\ runs' = Append(runs, Pick(how, s[1]))
       /\ LET w == IF wr THEN <<s[1], Store(s[1], add)>> ELSE s IN
          IF Bug = "copy" THEN loc' = w /\ UNCHANGED s ELSE s' = w /\ UNCHANGED loc
       /\ UNCHANGED <<n, s0, how, add, wr>>
Next == Start \/ Run
Spec == Init /\ [][Next]_vars
OneHandler == (pc = "idle" /\ n > 0) => Len(runs) = (IF s0[1] = -1 THEN 0 ELSE 1)
Effect == (pc = "idle" /\ n > 0) => s = After(how, s0, add, wr)
Total == \A h \in Hows \cup {"func", "const"}, a \in 0..7 : Pick(h, a) \in {Alts[j] : j \in 1..8} \cup {"any", "intv", "dblv", "boolv"}
=============================================================================
