------------------------------- MODULE Session -----------------------------
(* A process using the library: named arrays and lists it owns, calls that  *)
(* take them as arguments, results it keeps.  Contents are opaque values.   *)
(* The library adds nothing of its own to the state: that is the property.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES args,    \* name -> contents
          memo,    \* <<function, contents of its arguments>> -> result, wherever it was first seen
          kept     \* name -> a result still held by the caller
sesVars == <<args, memo, kept>>

SesInit(m0) == args = <<>> /\ memo = m0 /\ kept = <<>>
Bind(name, x) == args' = (name :> x) @@ args /\ UNCHANGED <<memo, kept>>
\* the caller changes an array of its own in place
Change(name, x) == name \in DOMAIN args /\ args' = [args EXCEPT ![name] = x] /\ UNCHANGED <<memo, kept>>
KeyOf(fn, names) == <<fn, [i \in DOMAIN names |-> args[names[i]]]>>
\* a call with result r, kept under a name ("" if not kept)
Call(fn, names, r, keep) ==
  LET k == KeyOf(fn, names)
  IN /\ memo' = IF k \in DOMAIN memo THEN memo ELSE (k :> r) @@ memo
     /\ kept' = IF keep = "" THEN kept ELSE (keep :> r) @@ kept
     /\ UNCHANGED args
\* what a call has to return
Expected(fn, names, r) == LET k == KeyOf(fn, names) IN k \in DOMAIN memo => memo[k] = r
\* the caller overwrites a result it holds, and lets go of it
Overwrite(name) == name \in DOMAIN kept /\ kept' = [n \in DOMAIN kept \ {name} |-> kept[n]] /\ UNCHANGED <<args, memo>>
============================================================================
