---------------------------- MODULE RoundTripGen ----------------------------
(* Section mixes for the real readers and writers: numbers of nodes per open, land and generic section, section types, and how the
   file is laid out (commentary, generic section cut off or blank, no final newline). *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT STEP
Types == <<0, 10, 20, 1, 11, 21, 2, 12, 22, 52, 4, 24, 77, 88>>
Opens == <<<<>>, <<2>>, <<5>>, <<3, 4>>, <<1, 2, 6>>>>
Gens == <<<<>>, <<2>>, <<4, 3>>>>
Tails == <<"section", "blank", "cut", "nonl">>
Lands(k) == CASE k % 5 = 0 -> <<>>
              [] k % 5 = 1 -> <<Types[((k \div 5) % 14) + 1]>>
              [] k % 5 = 2 -> <<Types[((k \div 5) % 14) + 1], Types[((k \div 7) % 14) + 1]>>
              [] k % 5 = 3 -> <<Types[(k % 14) + 1], 24, Types[((k \div 3) % 14) + 1]>>
              [] OTHER -> <<4, Types[(k % 14) + 1], 24, Types[((k \div 11) % 14) + 1], 4>>
Mix(k) == LET g == Gens[((k \div 3) % 3) + 1] IN
          [open |-> Opens[IF (k \div 5) % 7 = 0 THEN 1 ELSE (k % 5) + 1], land |-> Lands(k + k \div 5), gen |-> g,
           tail |-> IF g = <<>> THEN Tails[((k \div 9) % 4) + 1] ELSE IF k % 2 = 0 THEN "section" ELSE "nonl", note |-> (k \div 2) % 2 = 1]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..(420 \div STEP) |-> Mix((i - 1) * STEP)])
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
