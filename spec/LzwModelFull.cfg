CONSTANTS MaxBits = 3 MinCode = 2 Values = {0, 1} MaxLen = 9 Greedy = FALSE EndRule = "wide" MaxClears = 1
INIT Init
NEXT Next
INVARIANTS InSync NeverBad WidthInSync WidthBounded TableBounded TablesAgree WidthsRight BytesInverse Finished LongestSeen
CHECK_DEADLOCK TRUE
