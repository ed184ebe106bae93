------------------------------ MODULE ExcInfoMC -----------------------------
(* Shared, immutable list nodes implement the values of ExcInfo.tla: copies share nodes, Unset rebuilds *)
(* the nodes in front of the removed one. (Relinking instead - Relink = TRUE - is refuted.)            *)
EXTENDS ExcInfo
CONSTANTS Objs, Tags, Vals, MaxOps, Relink
VARIABLES x,      \* abstract objects
          heap,   \* node -> [tag, val, next]; 0 is nil
          head,   \* object -> node
          n
vars == <<x, heap, head, n>>
Init == x = [o \in Objs |-> Empty(0)] /\ heap = <<>> /\ head = [o \in Objs |-> 0] /\ n = 0
Step == n < MaxOps /\ n' = n + 1
DoSet(o, t, v) == /\ Step /\ x' = [x EXCEPT ![o] = Set(@, t, v)]
                  /\ heap' = Append(heap, [tag |-> t, val |-> v, next |-> head[o]]) /\ head' = [head EXCEPT ![o] = Len(heap) + 1]
Copy(o, p) == Step /\ o # p /\ x' = [x EXCEPT ![p] = x[o]] /\ head' = [head EXCEPT ![p] = head[o]] /\ UNCHANGED heap
RECURSIVE Walk(_, _)
Walk(h, p) == IF p = 0 THEN <<>> ELSE <<p>> \o Walk(h, h[p].next)
List(h, p) == LET w == Walk(h, p) IN [i \in DOMAIN w |-> <<h[w[i]].tag, h[w[i]].val>>]
\* append copies of the nodes w[1..k], the last one pointing to nxt
RECURSIVE Rebuild(_, _, _, _)
Rebuild(h, w, k, nxt) == IF k = 0 THEN <<h, nxt>>
                         ELSE LET h2 == Append(h, [h[w[k]] EXCEPT !.next = nxt]) IN Rebuild(h2, w, k - 1, Len(h2))
DoUnset(o, t) ==
  /\ Step /\ x' = [x EXCEPT ![o] = Unset(@, t)]
  /\ LET w == Walk(heap, head[o]) IN
     IF \A i \in DOMAIN w : heap[w[i]].tag # t THEN UNCHANGED <<heap, head>>
     ELSE LET i == CHOOSE i \in DOMAIN w : heap[w[i]].tag = t /\ \A k \in 1..(i - 1) : heap[w[k]].tag # t IN
          IF i = 1 THEN head' = [head EXCEPT ![o] = heap[w[1]].next] /\ UNCHANGED heap
          ELSE IF Relink THEN heap' = [heap EXCEPT ![w[i - 1]].next = heap[w[i]].next] /\ UNCHANGED head
          ELSE LET r == Rebuild(heap, w, i - 1, heap[w[i]].next) IN heap' = r[1] /\ head' = [head EXCEPT ![o] = r[2]]
Next == \E o \in Objs : \/ \E t \in Tags : (\E v \in Vals : DoSet(o, t, v)) \/ DoUnset(o, t)
                        \/ \E p \in Objs : Copy(o, p)
Spec == Init /\ [][Next]_vars
Refines == \A o \in Objs : List(heap, head[o]) = x[o].st
\* frame: one tag at a time
Laws == \A o \in Objs, t \in Tags, v \in Vals :
          /\ Get(Set(x[o], t, v), t) = <<v>> /\ Unset(Set(x[o], t, v), t) = x[o]
          /\ \A s \in Tags \ {t} : Get(Set(x[o], t, v), s) = Get(x[o], s) /\ Get(Unset(x[o], t), s) = Get(x[o], s)
=============================================================================
