SPECIFICATION Spec
CONSTANTS Sizes = {5, 6}
INVARIANTS InTask IsPainted NotEmpty CleanInput Told ArgMax
CHECK_DEADLOCK FALSE
