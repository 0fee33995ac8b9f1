SPECIFICATION MCSpec
VIEW MkView
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
