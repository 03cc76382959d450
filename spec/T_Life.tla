------------------------------- MODULE T_Life -------------------------------
EXTENDS Lifecycle, TraceRun
=============================================================================
