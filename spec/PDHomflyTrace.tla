--------------------------- MODULE PDHomflyTrace ---------------------------
EXTENDS PDHomflyLaws
TSpec == HInit /\ [][HNext]_<<regs, l, val>>
=============================================================================
