CONSTANT Parts = {"0", "1", "010", "10", "130", "1rc2", "1rc10", "1rc200", "1wb0", "1wb3", "x"}
INIT Init
NEXT Next
INVARIANTS Order Suffixes Topics Stuffing
CHECK_DEADLOCK FALSE
