SPECIFICATION Spec
CONSTANTS Starts <- StartsQ
 Span <- SpanQ
INVARIANTS TypeOK OrdInv WeekdayInv YDayInv IsoInv LongInv LeapInv StepInv OrderInv Ends
CHECK_DEADLOCK FALSE
