SPECIFICATION BuildSpec
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
VIEW View
