CONSTANTS
Formats = {"U8", "S8"}
Scales <- FewScales
Offsets <- OffsetSet
Raws <- Some
INIT Init
NEXT Next
INVARIANTS Exactness Others Between Step Outside Spellings Rounded Reals
CHECK_DEADLOCK FALSE
