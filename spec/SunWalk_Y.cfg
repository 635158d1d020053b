SPECIFICATION Spec
CONSTANTS Years <- NewYears
 Places <- PlacesQ
 Span = 0
 West = FALSE
INVARIANTS Evening Length Westward Order Equinox Course Bounded
CHECK_DEADLOCK FALSE
