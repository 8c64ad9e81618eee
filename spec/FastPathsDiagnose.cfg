SPECIFICATION DiagnoseSpec
VIEW TraceView
ALIAS Alias
CHECK_DEADLOCK TRUE
