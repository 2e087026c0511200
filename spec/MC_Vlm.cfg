SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Ns = {1, 2}
  Alphas = {"0.0", "4.0", "-15.0"}
  Betas = {"0.0", "7.0"}
INVARIANTS BiotSavart RightHanded Tangency WindAxes DensityLaw SpeedLaw ShiftLaw SizeLaw Superposition SymmetryLaw NoSideForceInSymmetricFlow NoIncidenceNoLoad
