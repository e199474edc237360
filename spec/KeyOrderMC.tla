------------------------------ MODULE KeyOrderMC ------------------------------
EXTENDS KeyOrder
FirstKeys == <<"openapi", "info", "components", "paths">>
OtherKeys == {"a", "x"}
MoreKeys == {"a", "b", "x"}
=============================================================================
