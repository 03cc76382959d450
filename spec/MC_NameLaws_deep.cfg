SPECIFICATION Spec
CONSTANTS
  LabelBytes = {97, 65, 46, 0}
  TextBytes = {97, 65, 46, 92, 48, 50, 53}
  MaxLabs = 3
  MaxLab = 2
  MaxText = 6
  MaxName <- SmallMaxName
  MaxLabel <- SmallMaxLabel
INVARIANTS RoundTrip FoldTrip RevRev RevCount Chop SubIrrefl SubAsym SubIsChop LowerIdem TextValid FoldAgrees
CHECK_DEADLOCK FALSE
