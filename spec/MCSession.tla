------------------------------ MODULE MCSession ----------------------------
(* An implementation that keeps hidden state, against Session: it conforms  *)
(* exactly if what it returns does not depend on that state, and it leaves  *)
(* its arguments and earlier results alone.                                 *)
EXTENDS Session
CONSTANTS Fault      \* "none", "hidden", "argument", "alias"
VARIABLES hidden, mem, held, steps, wrong
vars == <<args, memo, kept, hidden, mem, held, steps, wrong>>
Names == {"a", "b"}
Contents == 0..2
\* the implementation's own view: memory of the caller's arrays, results as returned
F(x, h) == IF Fault = "hidden" THEN (x + h) % 3 ELSE (2 * x + 1) % 3
Init == /\ SesInit(<<>>) /\ hidden = 0 /\ mem = <<>> /\ held = <<>> /\ steps = 0 /\ wrong = FALSE
Tick == steps < 5 /\ steps' = steps + 1
DoBind == \E n \in Names, x \in Contents : Tick /\ Bind(n, x) /\ mem' = (n :> x) @@ mem /\ UNCHANGED <<hidden, held, wrong>>
DoCall == \E n \in DOMAIN args, k \in {"", "r"} :
            /\ Tick
            /\ LET r == F(mem[n], hidden)
               IN /\ wrong' = (wrong \/ ~Expected("f", <<n>>, r))
                  /\ Call("f", <<n>>, r, k)
                  /\ hidden' = (hidden + 1) % 3
                  /\ mem' = IF Fault = "argument" THEN [mem EXCEPT ![n] = 0] ELSE mem
                  \* an aliased result is changed by every later call
                  /\ held' = LET h == IF Fault = "alias" THEN [q \in DOMAIN held |-> r] ELSE held
                             IN IF k = "" THEN h ELSE (k :> r) @@ h
DoLook == /\ Tick
          /\ wrong' = (wrong \/ (\E n \in DOMAIN args : mem[n] # args[n]) \/ (\E n \in DOMAIN kept : held[n] # kept[n]))
          /\ UNCHANGED <<args, memo, kept, hidden, mem, held>>
DoOver == \E n \in DOMAIN kept : Tick /\ Overwrite(n) /\ held' = [q \in DOMAIN held \ {n} |-> held[q]] /\ UNCHANGED <<hidden, mem, wrong>>
Next == DoBind \/ DoCall \/ DoLook \/ DoOver
Spec == Init /\ [][Next]_vars
NothingWrong == ~wrong
FunctionOfArguments == \A k \in DOMAIN memo : memo[k] = (2 * k[2][1] + 1) % 3
============================================================================
