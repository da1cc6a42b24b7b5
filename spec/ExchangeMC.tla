----------------------------- MODULE ExchangeMC -----------------------------
EXTENDS Exchange
\* two ranks with two submeshes each, all neighbours
R22 == <<1, 1, 2, 2>>
T22a == <<1, 1, 2, 2>>     \* one thread per rank
T22b == <<1, 2, 3, 3>>     \* two threads on the first rank
T22c == <<1, 2, 3, 4>>     \* a thread per submesh
All4 == {{1, 2}, {1, 3}, {1, 4}, {2, 3}, {2, 4}, {3, 4}}
Ring4 == {{1, 2}, {2, 4}, {3, 4}, {1, 3}}
\* three ranks in a row, uneven
R3 == <<1, 2, 2, 3>>
T3 == <<1, 2, 2, 3>>
Row4 == {{1, 2}, {2, 3}, {3, 4}}
Fork4 == {{1, 2}, {1, 3}, {3, 4}, {2, 4}}
=============================================================================
