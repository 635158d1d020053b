SPECIFICATION Spec
CONSTANTS Starts <- StartsSome
 Span <- SpanSome
INVARIANTS Closed Historical AltYears Steps Years Reference
CHECK_DEADLOCK FALSE
