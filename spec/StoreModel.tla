------------------------------ MODULE StoreModel ------------------------------
(***************************************************************************)
(* An object and the files it was saved to (C14).  The state of an object  *)
(* is the sequence of moves it underwent.  Saving copies it to the file of *)
(* a name, loading brings that copy back, also after further moves and     *)
(* later saves, and neither changes anything else.                         *)
(***************************************************************************)
EXTENDS TLC, Sequences, Naturals, FiniteSets, SequencesExt
CONSTANTS Moves, Files
(* the object after a move; using it changes nothing *)
Moved(obj, op) == IF op \in Moves \ {"use"} THEN Append(obj, op) ELSE obj
(* what is stored after saving to file f; a function from names to objects *)
Stored(store, f, obj) == (f :> obj) @@ store
================================================================================
