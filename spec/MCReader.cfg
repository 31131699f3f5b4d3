SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Kinds = {"all", "n", "br", "obj"}
INVARIANTS PrefixOfExpected CompleteAtEnd FinalLastOnce BadNeverFinal
PROPERTY Ends
CHECK_DEADLOCK FALSE
