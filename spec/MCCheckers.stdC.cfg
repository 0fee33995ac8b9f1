SPECIFICATION MCSpec
VIEW View
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Part = "std"
  Names = {"n", "__eq__", "__iter__", "__getitem__"}
  Perms = {"NONE", "PUBLIC", "p", "q"}
