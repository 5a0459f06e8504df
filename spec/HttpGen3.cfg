CONSTANT MaxOdd = 3
INIT Init
NEXT Next
INVARIANTS Decided Printed
CHECK_DEADLOCK FALSE
