------------------------------- MODULE T_Text -------------------------------
EXTENDS TextEvents, TraceRun
=============================================================================
