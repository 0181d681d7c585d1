SPECIFICATION Spec
INVARIANTS SizeOK LinearScore LegalOK Indicator LossZero LossAxioms Convex Completion Elimination
PROPERTY LocalChange
CHECK_DEADLOCK FALSE
