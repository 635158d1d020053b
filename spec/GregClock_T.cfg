SPECIFICATION Spec
CONSTANTS Starts <- StartsAll
 Span <- SpanAll
INVARIANTS Closed Historical AltYears Steps Years Reference
CHECK_DEADLOCK FALSE
