SPECIFICATION MCSpec
VIEW View
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "std"
  Names = {"__iter__", "__getitem__"}
  Perms = {"NONE", "PUBLIC", "p"}
