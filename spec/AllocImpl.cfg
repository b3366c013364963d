SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Chunk = 8
  Cut = 1
  Sizes = {1, 4, 6}
  MaxChunks = 2
  MaxBlocks = 3
  Threads = {1}
  Solo = TRUE
INVARIANTS Tagged Safe
PROPERTY RefStep
