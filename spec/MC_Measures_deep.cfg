CONSTANTS
  MaxLen = 4
SPECIFICATION Spec
VIEW View
INVARIANT Positions
INVARIANT Sums
INVARIANT Bounded
INVARIANT SameFromMeasures
PROPERTY ShiftLaw
PROPERTY ShiftKeepsSize
PROPERTY ScaleLaw
PROPERTY FlipLaw
PROPERTY AddingGrows
PROPERTY OtherWingsStay
PROPERTY SymmetryOnlySize
PROPERTY AxisOnlyDihedral
CHECK_DEADLOCK FALSE
