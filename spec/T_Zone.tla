------------------------------- MODULE T_Zone -------------------------------
EXTENDS ZoneEvents, TraceRun
=============================================================================
