------------------------------- MODULE Defer -------------------------------
(* KL_DEFER: a block collects actions; when control leaves the block - by falling off its end, return,  *)
(* break, continue, goto or an exception - the collected actions run, latest first, each exactly once, *)
(* before the block is gone, and they see the variables as they are then.                              *)
(* s is the stack of open blocks, innermost last: [pend, out, try, val]: actions still to run, control *)
(* is leaving, an exception from inside would be caught here, value of the block's variable.           *)
EXTENDS Naturals, Sequences
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
SetTop(s, x) == [s EXCEPT ![Len(s)] = x]
Block == [pend |-> <<>>, out |-> FALSE, try |-> FALSE, val |-> 0]
Enter(s) == Append(s, Block)
\* blocks above the innermost one that catches are left by an exception
RECURSIVE Unwind(_, _)
Unwind(s, k) == IF k = 0 \/ s[k].try THEN s ELSE Unwind([s EXCEPT ![k].out = TRUE], k - 1)
\* blocks opened by a running action are judged like any other block
Can(s, e) ==
  CASE e.o = "enter" -> TRUE
    [] s = <<>> -> FALSE
    [] e.o = "reg" -> ~Top(s).out
    [] e.o = "set" -> TRUE
    [] e.o = "try" -> ~Top(s).out /\ ~Top(s).try
    [] e.o = "endtry" -> Top(s).try
    [] e.o = "exit" -> ~Top(s).out
    [] e.o = "throw" -> \E k \in DOMAIN s : s[k].try
    [] e.o = "run" -> Top(s).out /\ Top(s).pend # <<>> /\ Top(s).pend[Len(Top(s).pend)] = e.id /\ e.v = Top(s).val
    [] e.o = "leave" -> Top(s).out /\ Top(s).pend = <<>>
    [] OTHER -> FALSE
Do(s, e) ==
  CASE e.o = "enter" -> Enter(s)
    [] e.o = "reg" -> SetTop(s, [Top(s) EXCEPT !.pend = Append(@, e.id)])
    [] e.o = "set" -> SetTop(s, [Top(s) EXCEPT !.val = e.v])
    [] e.o = "try" -> SetTop(s, [Top(s) EXCEPT !.try = TRUE])
    [] e.o = "endtry" -> SetTop(s, [Top(s) EXCEPT !.try = FALSE])
    [] e.o = "exit" -> SetTop(s, [Top(s) EXCEPT !.out = TRUE])
    [] e.o = "throw" -> Unwind(s, Len(s))
    [] e.o = "run" -> SetTop(s, [Top(s) EXCEPT !.pend = SubSeq(@, 1, Len(@) - 1)])
    [] e.o = "leave" -> Pop(s)
=============================================================================
