INIT Init
NEXT Next
CONSTANTS N=3 M=3 K=2
CHECK_DEADLOCK FALSE
INVARIANTS InvConcepts InvGalois InvClosure InvComplete InvBasis InvReduce InvGreedy InvStability
