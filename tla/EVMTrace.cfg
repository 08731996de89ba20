SPECIFICATION Spec
VIEW View
INVARIANTS Conservation GasBound StaticPure StackBound DepthBound
CHECK_DEADLOCK FALSE
