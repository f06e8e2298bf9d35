SPECIFICATION Spec
INVARIANTS FieldLaws PosLaws CircleLaws Accepted Refuted Compared
CHECK_DEADLOCK FALSE
