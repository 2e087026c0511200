CONSTANTS
  Uids = {"w0", "w_main", "a_m_b", "m"}
  Names = {"w0", "w0_m", "w_main", "w_main_m", "a_m_b", "a_m_b_m", "m", "m_m", "_w0", "_", "_w0_m", "zz", "wain_m", "W0", "ab"}
  Ignored = {"_w0", "_", "_w0_m"}
  MaxNames = 15
SPECIFICATION Spec
INVARIANT Exactly
INVARIANT OneHalf
INVARIANT IgnoredSayNothing
CHECK_DEADLOCK FALSE
