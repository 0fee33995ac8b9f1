SPECIFICATION MCSpec
VIEW ConfView
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "module"
