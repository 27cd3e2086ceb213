------------------------------- MODULE Sha3Oracle -------------------------------
EXTENDS Sha3, Oracle
XInit(cfg) == 0
XStep(cfg, s, e) == [st |-> 0, y |-> Digest(e.m)]
=============================================================================
