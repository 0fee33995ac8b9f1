SPECIFICATION MCSpec
VIEW DeclView
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "get"
