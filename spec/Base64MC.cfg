SPECIFICATION Spec
CONSTANTS Bytes = {0, 1, 62, 63, 127, 128, 192, 252, 255}
  MaxB = 5
  Chars = {65, 81, 95, 43, 61, 33}
  MaxT = 6
INVARIANTS Streams Inverse Length Accepted Strict Alphabet
CHECK_DEADLOCK FALSE
