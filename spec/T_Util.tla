------------------------------- MODULE T_Util -------------------------------
EXTENDS UtilEvents, TraceRun
=============================================================================
