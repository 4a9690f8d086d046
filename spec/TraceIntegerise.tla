-------------------------- MODULE TraceIntegerise --------------------------
(* Recorded integerisations.  Inputs arrive exactly: w[i] / unit.           *)
(* kind "one": vector and population (C09); "total": the one-argument form  *)
(* on a vector (C09); "many": arrays of two or more dimensions (C10).       *)
EXTENDS Apportion, Trace

VARIABLES ev, phase
vars == <<Q, f, r, left, ev, phase>>
Init == /\ phase = "judge" /\ \E i \in DOMAIN Events : ev = Events[i]
        /\ Q = <<>> /\ f = <<>> /\ r = <<>> /\ left = 0

\* nearest integer to a/unit, as a magnitude, and the distance from it in units
RoundTo(a, unit) == Div(Add(MulSmall(a, 2), unit), MulSmall(unit, 2))
Distance(a, unit) == AbsDiff(a, Mul(RoundTo(a, unit), unit))
\* clearly within / clearly beyond 10^-4 of an integer
Near4(a, unit)  == Le(MulSmall(Distance(a, unit), 10001), unit)
Far4(a, unit)   == Lt_(unit, MulSmall(Distance(a, unit), 9999))

(************************************************************ vectors *)
\* 10^-6 of a unit of population, plus what the total differs from the population
Vector ==
  LET s == SumBig(ev.w)
      wantErr == \/ ev.bad = 1 \/ ev.w = <<>> \/ (ev.kind = "one" /\ s = <<>>)
                 \/ (ev.kind = "total" /\ Far4(s, ev.unit))
                 \/ (ev.kind = "prob" /\ Lt_(ev.unit, MulSmall(AbsDiff(s, ev.unit), 1000)))   \* should be probabilities
      mayErr == \/ (ev.kind = "total" /\ ~Near4(s, ev.unit))
                \/ (ev.kind = "prob" /\ Lt_(Mul(ev.unit, <<1>>), Mul(AbsDiff(s, ev.unit), Pow10(13))))
      pop == IF ev.kind = "total" /\ ev.w # <<>> THEN FoldLeft(LAMBDA acc, i : acc * B + RoundTo(s, ev.unit)[Len(RoundTo(s, ev.unit)) + 1 - i], 0, Ix(Len(RoundTo(s, ev.unit)))) ELSE ev.pop
  IN IF ev.out # "ok" THEN << <<"C09:refused", wantErr \/ mayErr>> >>
     ELSE IF wantErr THEN << <<"C09:accepted-invalid-input", FALSE>> >>
     ELSE IF Len(ev.res) # Len(ev.w) THEN << <<"C09:length", FALSE>> >>
     ELSE IF \E i \in DOMAIN ev.res : ev.res[i] < 0 THEN << <<"C09:negative", FALSE>> >>
     ELSE LET \* the one-argument form rounds the total: an empty vector of population zero may have any tiny total
              sc  == IF s = <<>> THEN ev.unit ELSE s
              dev == Dev(ev.w, sc, pop, ev.res)
              off == IF s = <<>> \/ ev.kind = "one" THEN <<>> ELSE IF ev.kind = "total" THEN AbsDiff(s, Mul(FromNat(pop), ev.unit)) ELSE Mul(FromNat(pop), AbsDiff(s, ev.unit))
              \* off is in units 1/unit; relative to sc it is off/unit of a person, i.e. off*sc/unit
              eps == Add(Add(Div(sc, Pow10(6)), <<1>>), IF off = <<>> THEN <<>> ELSE Mul(<<2>>, Div(Mul(off, sc), ev.unit)))
              tol == Add(<<0, 100>>, IF off = <<>> THEN <<>> ELSE Div(Shift(MulSmall(off, 2), FracLimbs), ev.unit))
              \* every rescaled value is integral, to 10^-9
              integral == \A i \in DOMAIN ev.w :
                            LET a == Mul(ev.w[i], FromNat(pop)) IN Distance(a, sc) = <<>>
          IN << <<"C09:total", SumSeq(ev.res) = pop>>,
                <<"C09:within-one", WithinOne(dev, sc, eps)>>,
                <<"C09:closest", Closest(dev, sc, ev.res, eps)>>,
                <<"C09:integral-input-changed", integral => \A i \in DOMAIN dev : dev[i].m = <<>> >>,
                <<"C09:rmse", RmseOK(ev.rmse, dev, sc, tol)>> >>

(************************************************************* arrays *)
\* 1-d totals over each dimension, exact
Totals(d, v, dim) ==
  LET pr == Proj(d, <<dim>>)
  IN FoldLeftDomain(LAMBDA acc, c : [acc EXCEPT ![pr[c]] = Add(@, v[c])], [i \in 1..d[dim + 1] |-> <<>>], v)
Array ==
  LET nd == Len(ev.d)
      t  == [k \in 1..nd |-> Totals(ev.d, ev.w, k - 1)]
      s  == SumBig(ev.w)
      allNear == Near4(s, ev.unit) /\ \A k \in 1..nd : \A i \in DOMAIN t[k] : Near4(t[k][i], ev.unit)
      someFar == Far4(s, ev.unit) \/ \E k \in 1..nd : \E i \in DOMAIN t[k] : Far4(t[k][i], ev.unit)
      sparse == \E c \in DOMAIN ev.w : ev.w[c] = <<>>
      pr == [k \in 1..nd |-> Proj(ev.d, <<k - 1>>)]
      \* a zero not explained by an empty slice, in an array that is not integral: the sampler may get stuck
      \* (and then it does so as well when called by itself)
      stuck == /\ ev.sampler = "err"
               /\ \E c \in DOMAIN ev.w : ev.w[c] = <<>> /\ \A k \in 1..nd : t[k][pr[k][c]] # <<>>
               /\ \E c \in DOMAIN ev.w : Distance(ev.w[c], ev.unit) # <<>>
  IN IF ev.bad = 1 THEN << <<"C10:accepted-invalid-input", ev.out # "ok">> >>
     ELSE IF someFar THEN << <<"C10:accepted-non-integral-totals", ev.out # "ok">> >>
     ELSE IF ev.out # "ok"
          THEN (IF ~allNear THEN <<>>
                ELSE << <<IF stuck THEN "KF:sparse" ELSE "C10:refused", FALSE>> >>)
     ELSE IF ev.res.d # ev.d \/ Len(ev.res.v) # Len(ev.w) THEN << <<"C10:shape", FALSE>> >>
     ELSE IF \E c \in DOMAIN ev.res.v : ev.res.v[c] < 0 THEN << <<"C10:negative", FALSE>> >>
     ELSE LET got  == [k \in 1..nd |-> Reduce(ev.res, <<k - 1>>).v]
              want == [k \in 1..nd |-> [i \in DOMAIN t[k] |-> RoundTo(t[k][i], ev.unit)]]
              kept == \A k \in 1..nd : \A i \in DOMAIN got[k] : FromNat(got[k][i]) = want[k][i]
              dev  == Dev(ev.w, ev.unit, 1, ev.res.v)
              integral == \A c \in DOMAIN ev.w : Distance(ev.w[c], ev.unit) = <<>>
          IN << <<"C10:total", FromNat(SumSeq(ev.res.v)) = RoundTo(s, ev.unit)>>,
                <<"C10:occupied-where-zero", \A c \in DOMAIN ev.w : ev.w[c] = <<>> => ev.res.v[c] = 0>>,
                <<"C10:conv-iff-totals-preserved", ev.conv = kept>>,
                <<"C10:not-converged-on-positive-array", (~sparse /\ allNear) => ev.conv>>,
                <<"C10:integral-array-changed", integral => \A c \in DOMAIN dev : dev[c].m = <<>> >>,
                <<"C10:rmse", RmseOK(ev.rmse, dev, ev.unit, <<0, 100>>)>> >>

Judge == /\ phase = "judge"
         /\ Verdict(ev.id, IF ev.kind = "many" THEN Array ELSE Vector)
         /\ phase' = "end" /\ UNCHANGED <<Q, f, r, left, ev>>
Spec == Init /\ [][Judge]_vars
Sane == phase \in {"judge", "end"}
============================================================================
