SPECIFICATION Spec
CONSTANTS Years <- YearsT
 Places <- PlacesT
 Span = 370
 West = TRUE
INVARIANTS Evening Length Westward Order Equinox Course Bounded
CHECK_DEADLOCK FALSE
