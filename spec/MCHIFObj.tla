------------------------------ MODULE MCHIFObj ------------------------------
EXTENDS HIFObj
MCKeys == {[m |-> 1], [m |-> 2]}
MCSizeOf(k) == 2 * k.m
MCNeedOf(k) == 2 * k.m + (IF k.m = 2 THEN 5 ELSE 0)
MCFilters == {NoFilter, [kind |-> "const", a |-> 0, z |-> -1]}
=============================================================================
