SPECIFICATION MCSpec
VIEW InterView
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part0 = "testing"
