SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  Types = {a, b, c}
  Inner <- InnerTree
  a = a
  b = b
  c = c
  Wants = 1
  Mode = "fields"
INVARIANTS NoRace CacheRight ResultsRight NoSelfWait
PROPERTY Ends
