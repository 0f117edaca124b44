SPECIFICATION MSpec
CONSTANTS D = {1, 2, 3}
  N = 3
  E = 2
  HitChoice <- FewHits
INVARIANTS EveryCluster Candidates FittedAll SelectedAll Counted Ordered Unbiased
CHECK_DEADLOCK FALSE
