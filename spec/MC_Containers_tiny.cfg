CONSTANTS
  Mats = {0}
  Vecs = {5}
  Bytes = {11}
  MSink = 4
  VSink = 10
  Dim = 2
  Vals = {0, 64}
  Groups = {"life", "el", "fill", "rowcol", "edit", "ew", "eq", "prod"}
  Edges = FALSE
SPECIFICATION Spec
INVARIANTS WellFormed Total EditLaws ArithLaws
CHECK_DEADLOCK FALSE
