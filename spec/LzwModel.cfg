CONSTANTS MaxBits = 4 MinCode = 2 Values = {0, 1} MaxLen = 12 Greedy = TRUE EndRule = "wide" MaxClears = 1
INIT Init
NEXT Next
INVARIANTS InSync NeverBad WidthInSync WidthBounded TableBounded TablesAgree WidthsRight BytesInverse Finished LongestSeen
CHECK_DEADLOCK TRUE
