INIT Init
NEXT Next
INVARIANTS Preorder Antisymmetric Numbers Containers Functions Results Members Bound Least Commutes Idempotent
CHECK_DEADLOCK FALSE
