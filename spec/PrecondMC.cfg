SPECIFICATION Spec
INVARIANTS UndoesItself InverseRoot Homogeneous ChainRule EigenspaceRight TruncRight Symmetric
VIEW View
CHECK_DEADLOCK FALSE
