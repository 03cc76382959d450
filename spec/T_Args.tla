------------------------------- MODULE T_Args -------------------------------
EXTENDS ArgEvents, TraceRun
=============================================================================
