SPECIFICATION Spec
CONSTANTS Starts <- StartsT
 Span <- SpanT
INVARIANTS TypeOK OrdInv WeekdayInv YDayInv IsoInv LongInv LeapInv StepInv OrderInv Ends
CHECK_DEADLOCK FALSE
