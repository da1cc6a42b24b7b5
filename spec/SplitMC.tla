------------------------------ MODULE SplitMC ------------------------------
(* Every number of steps of a splitting; defective orders, weights and clocks are rejected. *)
EXTENDS Split, TLC
CONSTANTS Defect, K
O(o, h) == [op |-> o, h |-> h]
W == CASE Defect \in {"none", "clock"} -> Word
       [] Defect = "lie" -> <<O("S", 2), O("D", 2)>>
       [] Defect = "late" -> <<O("S", 1), O("S", 1), O("D", 2)>>
       [] Defect = "early" -> <<O("D", 2), O("S", 1), O("S", 1)>>
       [] Defect = "halfD" -> <<O("S", 1), O("D", 1), O("S", 1)>>
       [] Defect = "fullS" -> <<O("S", 2), O("D", 2), O("S", 2)>>
       [] Defect = "uneven" -> <<O("S", 1), O("D", 1), O("S", 1), O("D", 1)>>
       [] Defect = "dual" -> <<O("D", 1), O("S", 2), O("D", 1)>>
VARIABLES log, n, clk
Init == log = <<>> /\ n = 0 /\ clk = <<0, 0, 0, 0>>
Act == n < K * Len(W)
       /\ LET x == W[(n % Len(W)) + 1] IN
          /\ log' = Append(log, x)
          /\ clk' = IF x.op = "S" THEN [clk EXCEPT ![1] = @ + 1, ![2] = @ + x.h]
                    ELSE [clk EXCEPT ![3] = @ + 1, ![4] = @ + (IF Defect = "clock" THEN 1 ELSE x.h)]
       /\ n' = n + 1
Spec == Init /\ [][Act]_<<log, n, clk>>
AtStep == n % Len(W) = 0
Ordered == AtStep => log = Rep(Word, n \div Len(W))
Clocks == clk = Clock(log)
(* at the end of each step both clocks show the same whole time *)
Meet == AtStep => clk[2] = clk[4] /\ clk[2] = 2 * (n \div Len(W))
Sound == (n >= 0) /\ Balanced(W) /\ SecondOrder(W) /\ Palindrome(W)
=============================================================================
