----------------------------- MODULE T_Message -----------------------------
EXTENDS MessageEvents, TraceRun
=============================================================================
