------------------------------ MODULE FileView ------------------------------
(* kl::file_view. The kernel side: k = [fds, maps], the descriptors and mappings that are open; one    *)
(* record per system call tells what was asked and what came back. The user side: a view shows a file  *)
(* of a given size and content, or construction failed with a system error.                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Page == 4096
Pages(n) == (n + Page - 1) \div Page
K0 == [fds |-> {}, maps |-> {}]
\* a call c = [c, fd, a, n, ret, e, inj]: what it does to the kernel
After(k, c) ==
  CASE c.c = "open" -> IF c.ret >= 0 THEN [k EXCEPT !.fds = @ \cup {c.ret}] ELSE k
    [] c.c = "close" -> [k EXCEPT !.fds = @ \ {c.fd}]          \* released even when close reports an error
    [] c.c = "mmap" -> IF c.ret >= 0 THEN [k EXCEPT !.maps = @ \cup {<<c.a, c.n>>}] ELSE k
    [] c.c = "munmap" -> IF c.ret >= 0 THEN [k EXCEPT !.maps = @ \ {<<c.a, c.n>>}] ELSE k
    [] OTHER -> k
\* releases must name something that is open, uses must name an open descriptor
Legal(k, c) ==
  CASE c.c = "close" -> c.fd \in k.fds
    [] c.c = "munmap" -> <<c.a, c.n>> \in k.maps
    [] c.c = "mmap" -> c.fd \in k.fds \cup {-1}
    [] c.c = "fstat" -> c.fd \in k.fds
    [] OTHER -> TRUE
RECURSIVE Run(_, _), AllLegal(_, _)
Run(k, cs) == IF cs = <<>> THEN k ELSE Run(After(k, Head(cs)), Tail(cs))
AllLegal(k, cs) == cs = <<>> \/ (Legal(k, Head(cs)) /\ AllLegal(After(k, Head(cs)), Tail(cs)))
Failed(cs) == {cs[i] : i \in {j \in DOMAIN cs : cs[j].ret < 0}}
\* what one construction may end in. f is the file: [kind, size, dig]
\*   out = [r |-> "view", size, dig] or [r |-> "err", code]
OutcomeOK(f, cs, out) ==
  LET bad == {c \in Failed(cs) : c.c # "close"} IN
  CASE out.r = "view" -> /\ f.kind \in {"file", "dir"}
                         /\ IF f.kind = "dir" THEN out.dig = "0" ELSE out.size = f.size /\ out.dig = f.dig
    [] out.r = "err" -> /\ f.kind = "file" => \E c \in bad : c.inj            \* only if something did fail
                        /\ out.code \in {c.e : c \in bad} \cup (CASE f.kind = "missing" -> {2} [] f.kind = "dir" -> {19, 21} [] OTHER -> {})
    [] OTHER -> FALSE
\* a failed construction leaves nothing; a view keeps what it needs and nothing of anybody else's
ResourcesOK(k, k2, out) ==
  /\ k.fds \subseteq k2.fds /\ k.maps \subseteq k2.maps
  /\ out.r = "err" => k2 = k
Owned(k, k2) == [fds |-> k2.fds \ k.fds, maps |-> k2.maps \ k.maps]
\* destroying a view gives back exactly what it owns
DestroyOK(k, own, k2) == k2 = [fds |-> k.fds \ own.fds, maps |-> k.maps \ own.maps]
=============================================================================
