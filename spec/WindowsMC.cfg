SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxDepth = 3
  Alphabet = {0, 1, 255}
VIEW View_
INVARIANTS WindowsNested RemOk GroupsCover Effect Stack_ Helpers LeftoverOk
CHECK_DEADLOCK FALSE
