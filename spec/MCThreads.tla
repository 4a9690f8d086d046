------------------------------ MODULE MCThreads ----------------------------
(* An implementation whose operations take two instants each - a step reads *)
(* the position of the generator, then writes it; a call fills a scratch    *)
(* area, then reads it - under a lock (the interpreter's) or, at fault,     *)
(* without: with the lock it refines Threads.                               *)
EXTENDS Generators
CONSTANTS Threads, Fault, MaxOps         \* Fault: "none", "step", "call"
VARIABLES at, scratch, lock, prog, n, reg, got
vars == <<gens, at, scratch, lock, prog, n, reg, got>>
D(c) == DirNums[c]
G == "g"
Programs == UNION {[1..k -> {"next", "call"}] : k \in 1..MaxOps}
\* gens is kept as the abstract view of the position
View(a) == (G :> [dim |-> 1, at |-> <<0, a>>, x |-> StatesAt(D, 1, <<0, a>>)])
Init == /\ at = 0 /\ scratch = 0 /\ lock = "free" /\ prog \in [Threads -> Programs]
        /\ n = [t \in Threads |-> 0] /\ reg = [t \in Threads |-> -1] /\ got = [t \in Threads |-> <<>>]
        /\ gens = View(0)
Op(t) == prog[t][n[t] + 1]
Live(t) == n[t] < Len(prog[t])
Locks(t) == Fault # (IF Op(t) = "next" THEN "step" ELSE "call")
Begin(t) == /\ Live(t) /\ reg[t] = -1
            /\ IF Locks(t) THEN lock = "free" /\ lock' = t ELSE UNCHANGED lock
            /\ IF Op(t) = "next" THEN reg' = [reg EXCEPT ![t] = at] /\ UNCHANGED scratch
               ELSE scratch' = t /\ reg' = [reg EXCEPT ![t] = 0]
            /\ UNCHANGED <<gens, at, prog, n, got>>
End(t) == /\ Live(t) /\ reg[t] # -1
          /\ IF Op(t) = "next" THEN at' = reg[t] + 1 /\ gens' = View(at') /\ got' = [got EXCEPT ![t] = Append(@, at')]
             ELSE got' = [got EXCEPT ![t] = Append(@, scratch)] /\ UNCHANGED <<gens, at>>
          /\ n' = [n EXCEPT ![t] = @ + 1] /\ reg' = [reg EXCEPT ![t] = -1]
          /\ lock' = IF lock = t THEN "free" ELSE lock
          /\ UNCHANGED <<scratch, prog>>
Next == \E t \in Threads : Begin(t) \/ End(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Abs == INSTANCE Threads WITH progs <- [t \in Threads |-> [k \in 1..Len(prog[t]) |-> [f |-> prog[t][k], g |-> G]]], done <- n
Refines == [][\E t \in Threads : Abs!Effect(D, t)]_(Abs!thrVars)
Points(t) == {got[t][k] : k \in {k \in 1..Len(got[t]) : prog[t][k] = "next"}}
\* no point handed out twice, none left out, in order within each thread
EachOnce == /\ \A t, u \in Threads : t # u => Points(t) \cap Points(u) = {}
            /\ UNION {Points(t) : t \in Threads} = 1..at
            /\ \A t \in Threads : \A j, k \in 1..Len(got[t]) : j < k /\ prog[t][j] = "next" /\ prog[t][k] = "next" => got[t][j] < got[t][k]
\* a call answers for its own arguments
Alone == \A t \in Threads : \A k \in 1..Len(got[t]) : prog[t][k] = "call" => got[t][k] = t
Ends == <>(\A t \in Threads : ~Live(t))
============================================================================
