------------------------------ MODULE MVTrace ------------------------------
EXTENDS MVActions
TNext == TScn \/ TEnd \/ TComm \/ TDrop \/ TCrB \/ TCrE \/ TCrF \/ TRB \/ TRE \/ TTB \/ TTE \/ TFS \/ TAB \/ TAE \/ TRaw \/ TExit
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
TSpec == TInit /\ [][TNext]_<<tv, caps>>
=============================================================================
