SPECIFICATION TSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
CONSTANT Counting = TRUE
