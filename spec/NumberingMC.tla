----------------------------- MODULE NumberingMC -----------------------------
EXTENDS Numbering
Sub3 == <<<<0, 0>>, <<0, 1>>, <<1, 0>>>>
Own3 == <<1, 0, 2>>
Cut3 == <<<<1, 2>>, <<2, 3>>, <<3, 1>>, <<2, 3>>>>
Sub4 == <<<<1, 1>>, <<0, 0>>, <<1, 0>>, <<2, 0>>>>
Own4 == <<1, 2, 0, 1>>
Cut4 == <<<<1, 2>>, <<2, 3>>, <<3, 1>>, <<4, 2>>>>
=============================================================================
