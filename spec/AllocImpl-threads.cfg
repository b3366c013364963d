SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Chunk = 8
  Cut = 1
  Sizes = {1, 6}
  MaxChunks = 2
  MaxBlocks = 2
  Threads = {1, 2}
  Solo = FALSE
INVARIANTS Tagged Safe
PROPERTY RefStep
