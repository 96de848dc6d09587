SPECIFICATION Spec
INVARIANTS UndoesItself InverseRoot Homogeneous ChainRule EigenspaceRight TruncRight Symmetric
CHECK_DEADLOCK FALSE
