------------------------------- MODULE SolidsMC --------------------------------
EXTENDS SolidsDesign
K1 == Prims
K2 == <<"bool">>
===============================================================================
