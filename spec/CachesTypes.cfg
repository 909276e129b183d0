SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Types = {a, b, c}
  Inner <- InnerLoop
  a = a
  b = b
  c = c
  Wants = 2
  Mode = "types"
INVARIANTS NoRace CacheRight ResultsRight NoSelfWait
PROPERTY Ends
