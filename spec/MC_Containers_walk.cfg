CONSTANTS
  Mats = {0}
  Vecs = {5}
  Bytes = {}
  MSink = 4
  VSink = 10
  Dim = 2
  Vals = {0, 64}
  Groups = {"life", "el", "fill", "rowcol", "edit", "ew", "eq", "prod"}
  Edges = TRUE
SPECIFICATION Spec
INVARIANTS WellFormed
CHECK_DEADLOCK FALSE
