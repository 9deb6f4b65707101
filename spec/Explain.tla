-------------------------------- MODULE Explain --------------------------------
(* Print the states from which a rejected trace cannot be continued.           *)
EXTENDS Trace
At == atoi(IOEnv.AT)
Show == IF pos = At THEN PrintT(<<"STUCK", ToJson([s EXCEPT !.conf = <<>>, !.nonces = [i \in DOMAIN @ |-> [a |-> @[i].a, obs |-> @[i].obs]]])>>) ELSE TRUE
================================================================================
