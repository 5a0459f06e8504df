CONSTANT MaxOdd = 2
INIT Init
NEXT Next
INVARIANTS Decided Printed
CHECK_DEADLOCK FALSE
