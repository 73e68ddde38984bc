---------------------------- MODULE PDClassTrace ----------------------------
EXTENDS PDClass
TSpec == CInit /\ [][CNext]_<<regs, l, val, nm, cls>>
=============================================================================
