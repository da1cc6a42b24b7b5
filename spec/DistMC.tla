------------------------------- MODULE DistMC -------------------------------
EXTENDS Dist
O1 == <<1, 1, 2, 2, 3, 3>>
O2 == <<1, 2, 1, 3, 2, 3>>
O3 == <<1, 2, 3, 4, 2>>
=============================================================================
