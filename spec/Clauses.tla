-------------------------------- MODULE Clauses --------------------------------
(* A clause of a property is broken or not: sets of broken clauses.           *)
Must(cond, clause) == IF cond THEN {} ELSE {clause}
=============================================================================
