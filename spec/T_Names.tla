------------------------------ MODULE T_Names ------------------------------
EXTENDS NameEvents, TraceRun
=============================================================================
