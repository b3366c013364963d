SPECIFICATION TSpec
CONSTANTS LBITS = 8
          Prog <- ProgAt
INVARIANT Count
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
