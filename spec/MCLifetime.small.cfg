SPECIFICATION MCSpec
VIEW LifView
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS Big = FALSE
