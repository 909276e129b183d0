SPECIFICATION Spec
INVARIANT CursorInside SizeExact Consumed FramesNest RoundTrip CutFails MoreIgnored InvalidFails Repacks OffFails DestFree
CHECK_DEADLOCK FALSE
