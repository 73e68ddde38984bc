----------------------------- MODULE CstHistMC -----------------------------
EXTENDS CstHist
S34 == <<3, 4>>
S4 == <<4>>
S242 == <<2, 4, 2>>
K2 == {<<2, 0>>, <<2, 1>>}
K4 == {<<1, 0>>, <<2, 0>>, <<2, 1>>, <<3, 0>>}
K6 == {<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>}
=============================================================================
