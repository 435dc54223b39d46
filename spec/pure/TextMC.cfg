CONSTANT Parts = {"0", "1", "130", "1rc2", "1rc200", "1wb0"}
INIT Init
NEXT Next
INVARIANTS Order Suffixes Topics Stuffing
CHECK_DEADLOCK FALSE
