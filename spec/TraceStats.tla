----------------------------- MODULE TraceStats ----------------------------
(* chiSq and pValue as returned by qis and qisi, with the table and the     *)
(* expectation they came with (C18).                                        *)
EXTENDS Stats, Trace
\* ev.max: the tail is worked out up to here
VARIABLES ev, phase, bad, tk       \* tk: the term of index dof
vars == <<x, dof, i, t, upper, e, te, total, ev, phase, bad, tk>>
Init == /\ \E j \in DOMAIN Events : ev = Events[j]
        /\ x = <<>> /\ dof = 0 /\ StatInit
        /\ phase = "chi" /\ bad = <<>> /\ tk = <<>>
\* recorded numbers: s = 0 (finite, not negative), 1 (negative), 2.. (NaN, infinite); m in 10^-24
True_ == ChiSq(ev.res, ev.exp)
Coincide == \A c \in DOMAIN ev.res : SInt(ev.res[c]) = ev.exp[c]
Bounded == ev.chi.s = 0 /\ Le(ev.chi.m, SInt(ev.max))
Chi == /\ phase = "chi"
       /\ LET r == True_
          IN bad' = << <<"C18:chiSq", IF r[1] THEN ev.chi.s = 3
                                      ELSE ev.chi.s = 0 /\ Le(AbsDiff(ev.chi.m, r[2]), Add(Pow10(14), Div(r[2], Pow10(9))))>>,
                       <<"C18:zero-exactly-when-equal", ev.chizero = Coincide>> >>
       /\ x' = (IF Bounded THEN ev.chi.m ELSE <<>>)
       /\ dof' = Dof(ev.d)
       /\ phase' = IF Bounded /\ dof' > 0 THEN "sum" ELSE "judge"
       /\ UNCHANGED <<i, t, upper, e, te, total, ev, tk>>
Sum == /\ phase = "sum" /\ (FirstTerm \/ AddTerm)
       /\ tk' = IF i' = dof THEN t' ELSE tk
       /\ UNCHANGED <<ev, phase, bad>>
Summing == phase = "sum" /\ Summed /\ phase' = "judge" /\ UNCHANGED <<x, dof, i, t, upper, e, te, total, ev, bad, tk>>
\* the density is below what the implementation can represent: tk * exp(-x/2) < 10^-33, above the mode
Vanishing == Cmp(x, SInt(dof)) > 0 /\ Le(Mul(tk, Pow10(33)), total)
Clauses ==
  bad \o << <<"C18:p-is-a-probability", ev.p.s = 0 /\ Le(ev.p.m, SOne)>>,
            <<"C18:p-without-freedom", dof = 0 => ev.p.m = SOne>>,
            <<"C18:p-value", (Summed /\ ~Vanishing) => Le(AbsDiff(ev.p.m, Upper), Pow10(18))>>,
            <<"C18:p-vanishing", (ev.strict /\ dof > 0 /\ (ev.chi.s = 3 \/ (Summed /\ Vanishing))) => Le(ev.p.m, Pow10(18))>> >>
Judge == /\ phase = "judge" /\ Verdict(ev.id, Clauses) /\ phase' = "end"
         /\ (IF Summed THEN PrintT((IF Vanishing THEN "TAIL vanishing " ELSE "TAIL judged ") \o ev.id) ELSE TRUE)
         /\ UNCHANGED <<x, dof, i, t, upper, e, te, total, ev, bad, tk>>
Next == Chi \/ Sum \/ Summing \/ Judge
Spec == Init /\ [][Next]_vars
Sane == phase = "judge" /\ Summed => Le(upper, Add(total, Shift(<<1>>, SD)))
============================================================================
