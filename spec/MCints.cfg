CONSTANTS
  MemW <- ModelW
  MemB <- ModelB
  Cpus <- TheCpus
  Srs <- TheSrs
  Menu <- TheMenu
  Asked <- TheAsked
  Burst <- TheBurst
  Bad <- TheBad
  Depth <- TheDepth
INIT Init
NEXT Next
VIEW state
INVARIANT Right
CHECK_DEADLOCK FALSE
