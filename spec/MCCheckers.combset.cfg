SPECIFICATION MCSpec
VIEW View
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "combset"
  Names = {"n"}
  Perms = {"PUBLIC", "p", "q"}
