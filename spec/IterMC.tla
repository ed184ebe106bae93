------------------------------- MODULE IterMC -------------------------------
(* The facade derives all operators from dereference, increment, decrement,
   advance, equal_to and distance_to; this model states that derivation and
   checks that it is the arithmetic of positions. Bug: a wrong derivation. *)
EXTENDS Iter, TLC
CONSTANTS N, Bug
VARIABLES p, v, prev, e
vars == <<p, v, prev, e>>
DistanceTo(a, b) == a - b
Minus(a, b) == IF Bug = "flip" THEN DistanceTo(b, a) ELSE DistanceTo(a, b)
Lt(a, b) == Minus(b, a) > 0
Gt(a, b) == IF Bug = "gt" THEN ~Lt(a, b) ELSE Minus(a, b) > 0
Init == /\ v = [j \in 1..N |-> N - j] /\ p \in [1..3 -> 0..N] /\ prev = <<p, v>> /\ e = [o |-> "assign", a |-> 1, b |-> 1]
Post(r) == IF Bug = "postnew" THEN r + 1 ELSE r
Do(ev, q, w) == p' = q /\ v' = w /\ prev' = <<p, v>> /\ e' = ev
Next == \E a \in 1..3, b \in 1..3 : LET at == [a |-> a, b |-> b] IN
  \/ p[a] < N /\ Do([o |-> "preinc", self |-> TRUE] @@ at, MoveTo(p, a, p[a] + 1), v)
  \/ p[a] < N /\ Do([o |-> "postinc", r |-> Post(p[a])] @@ at, MoveTo(p, a, p[a] + 1), v)
  \/ p[a] > 0 /\ Do([o |-> "postdec", r |-> p[a]] @@ at, MoveTo(p, a, p[a] - 1), v)
  \/ Do([o |-> "cmp", d |-> Minus(p[a], p[b]), r |-> <<Lt(p[a], p[b]), Gt(p[a], p[b]), ~Gt(p[a], p[b]), ~Lt(p[a], p[b])>>] @@ at, p, v)
  \/ Do([o |-> "eq", eq |-> p[a] = p[b], ne |-> ~(p[a] = p[b])] @@ at, p, v)
  \/ \E n \in (-p[a])..(N - p[a]) : Do([o |-> "addeq", n |-> n, self |-> TRUE] @@ at, MoveTo(p, a, p[a] + n), v)
  \/ \E n \in (p[a] - N)..p[a] : Do([o |-> "subeq", n |-> n, self |-> TRUE] @@ at, MoveTo(p, a, p[a] + (-n)), v)
  \/ \E n \in (-p[a])..(N - p[a] - 1) : Do([o |-> "idx", n |-> n, r |-> v[p[a] + n + 1], self |-> TRUE] @@ at, p, v)
  \/ Do([o |-> "assign"] @@ at, MoveTo(p, b, p[a]), v)
Spec == Init /\ [][Next]_vars
Agree == e = [o |-> "assign", a |-> 1, b |-> 1] \/ (RetOK(e, prev[1], prev[2]) /\ p = Pos(e, prev[1]) /\ ValOK(e, prev[1], prev[2], v))
InRange == \A a \in 1..3 : p[a] \in 0..N
=============================================================================
