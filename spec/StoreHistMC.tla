---------------------------- MODULE StoreHistMC ----------------------------
EXTENDS StoreHist
\* four objects: 0 and 1 isomorphic but not isotopic, 2 has the same hash but another class, 3 another hash
HashOf0 == <<1, 1, 1, 2>>
IsoOf0  == <<1, 1, 2, 3>>
TopOf0  == <<1, 2, 3, 4>>
=============================================================================
