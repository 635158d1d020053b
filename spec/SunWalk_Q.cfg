SPECIFICATION Spec
CONSTANTS Years <- YearsQ
 Places <- PlacesQ
 Span = 370
 West = TRUE
INVARIANTS Evening Length Westward Order Equinox Course Bounded
CHECK_DEADLOCK FALSE
