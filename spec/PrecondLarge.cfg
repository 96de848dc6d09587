SPECIFICATION Spec
INVARIANTS UndoesItself InverseRoot Homogeneous EigenspaceRight TruncRight Symmetric
CHECK_DEADLOCK FALSE
