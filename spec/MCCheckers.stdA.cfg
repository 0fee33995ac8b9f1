SPECIFICATION MCSpec
VIEW View
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "std"
  Names = {"n", "__eq__"}
  Perms = {"NONE", "PUBLIC", "p"}
