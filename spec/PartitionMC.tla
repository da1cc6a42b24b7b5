----------------------------- MODULE PartitionMC -----------------------------
EXTENDS Partition
Ring == {{1, 2}, {2, 3}, {3, 4}, {4, 1}}
Strip == {{1, 2}, {2, 3}, {3, 4}}
=============================================================================
