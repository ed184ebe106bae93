-------------------------------- MODULE Iter --------------------------------
(* Iterators over a sequence v (kl/iterator_facade.hpp): an iterator is a
   position 0..Len(v); every operator is defined by positions alone.
   The state is <<p, v>>: the positions of three iterators and the elements. *)
EXTENDS Integers, Sequences
Has(e, f) == f \in DOMAIN e
MoveTo(p, a, k) == [p EXCEPT ![a] = k]
Sorted(v) == \A j, k \in 1..Len(v) : j <= k => v[j] <= v[k]
Occ(v, x) == {j \in 1..Len(v) : v[j] = x}
(* the positions and elements after event e *)
Pos(e, p) ==
  CASE e.o \in {"preinc", "postinc"} -> MoveTo(p, e.a, p[e.a] + 1)
    [] e.o \in {"predec", "postdec"} -> MoveTo(p, e.a, p[e.a] - 1)
    [] e.o = "addeq" -> MoveTo(p, e.a, p[e.a] + e.n)
    [] e.o = "subeq" -> MoveTo(p, e.a, p[e.a] - e.n)
    [] e.o = "assign" -> MoveTo(p, e.b, p[e.a])
    [] OTHER -> p
ValOK(e, p, v, w) ==
  CASE e.o = "write" -> w = [v EXCEPT ![p[e.a] + 1] = e.x]
    [] e.o = "sort" -> Sorted(w) /\ Len(w) = Len(v) /\ \A j \in 1..Len(v) : Len(SelectSeq(w, LAMBDA t : t = v[j])) = Len(SelectSeq(v, LAMBDA t : t = v[j]))
    [] OTHER -> w = v
(* what the operators return *)
RetOK(e, p, v) ==
  LET pa == p[e.a] pb == p[e.b] IN
  CASE e.o \in {"preinc", "predec", "addeq", "subeq"} -> e.self
    [] e.o \in {"postinc", "postdec"} -> e.r = pa
    [] e.o = "eq" -> e.eq = (pa = pb) /\ e.ne = (pa # pb)
    [] e.o = "deref" -> e.self /\ e.r = <<v[pa + 1], v[pa + 1] + 1, v[pa + 1], v[pa + 1] + 1>>
    [] e.o = "plus" -> e.r = <<pa + e.n, pa + e.n, pa + e.n>>
    [] e.o = "cmp" -> e.d = pa - pb /\ e.r = <<pa < pb, pa > pb, pa <= pb, pa >= pb>>
    [] e.o = "idx" -> e.self /\ e.r = v[pa + e.n + 1]
    [] e.o = "find" -> e.d = e.r /\ (IF v = <<>> THEN e.r = 0 ELSE e.r + 1 \in Occ(v, v[Len(v)]) /\ \A j \in Occ(v, v[Len(v)]) : e.r + 1 <= j)
    [] e.o = "upper" -> /\ \A j \in 1..e.r : v[j] <= e.x
                        /\ \A j \in (e.r + 1)..Len(v) : v[j] > e.x
    [] OTHER -> e.o \in {"write", "assign", "sort"}
=============================================================================
