SPECIFICATION MCSpec
VIEW PermView
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
