SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
