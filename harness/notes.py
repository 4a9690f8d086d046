_T = "TLA+ specification model-checked with TLC; recorded runs of the implementation validated as behaviours of it"
NOTES = {
    "C01": (_T, "Exhaustive for the specification on all small problems; the implementation is bound to it by replaying every recorded result as a "
                "behaviour of Alloc (hundreds of generated and all tiny problems). Trusts TLC, the recording harness and the generators' coverage."),
    "C02": (_T, "TLC shows that no behaviour of Qis on decomposable problems can fail, whatever the points (bounded); recorded runs on generated "
                "decomposable problems (classified by the specification) must succeed."),
    "C03": (_T, "Recorded results are compared with the behaviour of Qis driven by the specification's own Sobol sequence, individual by individual."),
    "C04": (_T, "The expectation is compared, in exact integer arithmetic, with the normalised product computed by the specification for hundreds of "
                "problems, at several skips; bounded tolerance 1e-9 relative."),
    "C05": (_T, "The reported fields are recomputed by the specification from the returned array (scaled integers) for every recorded call, "
                "including non-converging, contradictory and non-finite inputs."),
    "C06": (_T, "Witness problems: the specification builds seed x factors, so the unique solution is known exactly; uniqueness itself is "
                "model-checked on small problems; replay of integral IPF trajectories; invariances (order, scale, dimension numbering)."),
    "C07": (_T, "Recorded results validated against Alloc (population, conv, zeros) and the expectation against the recorded ipf call."),
    "C08": (_T, "Recorded results compared with the behaviour of Qisi driven by the specification's Sobol sequence, fitted in fixed point; cases whose "
                "decision is closer than the fixed-point error are skipped and counted."),
    "C09": (_T, "Largest-remainder rounding is model-checked to be optimal for every small vector; every recorded integerisation is judged in exact "
                "rational arithmetic (sum, within one, no better exchange, rmse), so optimality is decided against all alternatives, not sampled ones."),
    "C10": (_T, "Recorded results judged in exact arithmetic: totals over every dimension, zeros, conv, rmse; MCQisi shows that sampling a positive array "
                "over its own totals always fits. One listed finding (sparse arrays on which the sampler gets stuck)."),
    "C11": (_T, "The specification contains its own direction-number table and recurrence; recorded points of every dimension 1..1111 and positions up "
                "to the last are compared bit for bit; equidistribution is model-checked. Far positions use the guarded hook (a start position)."),
    "C12": (_T, "Generators.tla describes any number of live generators; TLC checks independence and limits on it, and recorded interleavings of "
                "creation, stepping, destruction and other calls are validated as its behaviours, including exhaustion (through the hook)."),
    "C13": (_T, "The listing is specified as a state machine over cells; recorded outputs of Python and R are compared row by row."),
    "C14": (_T, "The verdict is computed by the specification for generated problems with none, one or several faults, for all three functions in "
                "both languages; MCValidate enumerates all tiny problems and shows the clauses are independent."),
    "C15": (_T, "Recorded sessions of calls with shared arguments, kept results and caller's changes are validated against Session.tla, whose only "
                "state is the caller's; the results expected come from the same calls made alone in fresh processes."),
    "C16": (_T, "View.tla gives the logical contents of a strided view; every recorded call on a view is compared with the call on a plain copy of "
                "what the specification says the view holds."),
    "C17": (_T, "Frontends.tla gives the correspondence between R and Python calls (TLC checks it is an involution that preserves what the problem "
                "describes); corresponding recorded calls must correspond."),
    "C18": (_T, "chi-squared statistic recomputed exactly, tail probability from its series in 24-digit fixed point, checked against published critical "
                "values. Two listed findings. Statistics above 160 (quick) or 700 only need a vanishing p-value."),
    "C19": (_T, "Service.tla: every call accepted ends (liveness under fairness, model-checked) and leaves the service idle; recorded sessions of hostile "
                "but well-typed calls must be its behaviours, and probe calls after them must answer as in a fresh process."),
}
