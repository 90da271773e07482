SPECIFICATION Spec
CONSTANTS
  Spins = {"zero", "tiny", "small", "mid", "high", "extreme"}
  Signs = {"+", "-"}
  Eccs = {"circ", "nearcirc", "low", "mid", "high"}
  Incls = {"pro", "retro", "gen+", "gen-", "nearpol+", "nearpol-", "neareq+", "neareq-"}
  Dists = {"sep", "close", "mid", "far", "vfar"}
INVARIANTS RadialPartition PolarPartition SensePartition LegsInv
CHECK_DEADLOCK FALSE
POSTCONDITION Export
