------------------------------ MODULE T_Tool ------------------------------
EXTENDS ToolEvents, TraceRun
=============================================================================
