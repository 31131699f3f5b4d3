------------------------------- MODULE MCTree -------------------------------
EXTENDS HandlerTree
Cbs == <<"init", "node", "area", "final">>
=============================================================================
