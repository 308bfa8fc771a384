INIT TInit
NEXT TNext
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTRAINT InBeam
CONSTANTS
  Beam = 200
  LimbBits = 8
