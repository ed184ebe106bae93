SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip RoundTripNulls InRange PatchLocal PatchAgrees PatchWeaker PatchIdem
