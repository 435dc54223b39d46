CONSTANTS
Formats = {"U8", "S8", "BCD8"}
Scales <- ScaleSet
Offsets <- OffsetSet
Raws <- All
INIT Init
NEXT Next
INVARIANTS Exactness Others Between Step Outside Spellings Rounded Reals
CHECK_DEADLOCK FALSE
