------------------------------ MODULE LedgerMC ------------------------------
EXTENDS Ledger
MCCells == {1, 2, 3}
MCJoins == <<<<1, 2>>, <<2, 3>>, <<3, 1>>>>
=============================================================================
