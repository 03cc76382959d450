------------------------------ MODULE T_Libmy ------------------------------
EXTENDS LibmyEvents, TraceRun
=============================================================================
