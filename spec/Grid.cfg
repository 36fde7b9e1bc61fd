SPECIFICATION Spec
CONSTANT Md = 0
INVARIANTS C06Move C06Up C06Increasing C07Limit C08Spring C09End C10Smooth C12Unknown C12Hull C11Window C13Window
  C11Closest C14Window C14Off C15Prediction C05Prediction C16Bound
CHECK_DEADLOCK FALSE
