------------------------------- MODULE T_Queue ------------------------------
EXTENDS QueueEvents, TraceRun
=============================================================================
