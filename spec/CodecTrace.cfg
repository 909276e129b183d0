SPECIFICATION Spec
VIEW View
INVARIANT CursorInside SizeExact FramesNest
CHECK_DEADLOCK FALSE
