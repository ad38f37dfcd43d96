SPECIFICATION Spec
INVARIANT Agree
INVARIANT EndEqual
CHECK_DEADLOCK FALSE
