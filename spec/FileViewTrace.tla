--------------------------- MODULE FileViewTrace ---------------------------
(* Recorded uses of kl::file_view, with the system calls it made (and which of them were made to fail), *)
(* against FileView. s.files: what lies under each name; s.v: the living views; s.k: the kernel.       *)
EXTENDS FileView, TLC, Json, IOUtils
VARIABLES i, l, s
Traces == ndJsonDeserialize(IOEnv.TRACE)
None == [kind |-> "missing", size |-> "0", dig |-> "0"]
\* e.alt: the file that took over the name right after the first open succeeded, if one did
Cands(e) == {s.files[e.f]} \cup {e.alt[k] : k \in DOMAIN e.alt}
Fits(e) == {f \in Cands(e) : OutcomeOK(f, e.cs, e.out)}
S0 == [files |-> [n \in 1..4 |-> None], v |-> [n \in 1..4 |-> <<>>], k |-> K0, fd |-> 0, map |-> 0]
Step(e) ==
  CASE e.o = "file" -> [s EXCEPT !.files[e.f] = [kind |-> e.kind, size |-> e.size, dig |-> e.dig]]
    [] e.o = "open" -> LET k2 == Run(s.k, e.cs) IN
         [s EXCEPT !.k = k2, !.fd = e.nfd, !.map = e.nmap, !.files[e.f] = IF e.alt = <<>> THEN @ ELSE e.alt[1],
                   !.v[e.v] = IF e.out.r = "view" THEN <<[own |-> Owned(s.k, k2), f |-> CHOOSE f \in Fits(e) : TRUE, fd |-> e.nfd - s.fd, map |-> e.nmap - s.map]>> ELSE <<>>]
    [] e.o = "drop" -> [s EXCEPT !.k = Run(s.k, e.cs), !.v[e.v] = <<>>, !.fd = e.nfd, !.map = e.nmap]
    [] e.o = "see" -> s
\* nfd, nmap: what the kernel itself says is open beyond the start (independent of the recorded calls)
EvOK(e) ==
  CASE e.o = "file" -> TRUE
    [] e.o = "open" -> /\ AllLegal(s.k, e.cs) /\ Fits(e) # {} /\ ResourcesOK(s.k, Run(s.k, e.cs), e.out)
                       /\ (e.out.r = "err" => e.nfd = s.fd /\ e.nmap = s.map)
                       /\ e.nfd >= s.fd /\ e.nmap >= s.map
    [] e.o = "see" -> LET f == s.v[e.v][1].f IN IF f.kind = "dir" THEN e.dig = "0" ELSE e.size = f.size /\ e.dig = f.dig
    [] e.o = "drop" -> /\ AllLegal(s.k, e.cs) /\ DestroyOK(s.k, s.v[e.v][1].own, Run(s.k, e.cs))
                       /\ e.nfd = s.fd - s.v[e.v][1].fd /\ e.nmap = s.map - s.v[e.v][1].map
    [] OTHER -> FALSE
Init == i = 1 /\ l = 1 /\ s = S0
Next ==
  \/ /\ i <= Len(Traces)
     /\ IF l > Len(Traces[i].ev) THEN i' = i + 1 /\ l' = 1 /\ s' = S0
        ELSE LET e == Traces[i].ev[l] IN
             IF EvOK(e) THEN l' = l + 1 /\ i' = i /\ s' = Step(e)
             ELSE PrintT(<<"REJ", i, l>>) /\ i' = i + 1 /\ l' = 1 /\ s' = S0
  \/ /\ i = Len(Traces) + 1 /\ PrintT(<<"DONE", Len(Traces)>>) /\ i' = i + 1 /\ l' = 1 /\ UNCHANGED s
Spec == Init /\ [][Next]_<<i, l, s>>
=============================================================================
