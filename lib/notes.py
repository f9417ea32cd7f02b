"""What assurance each check gives (level_note of MANIFEST.json)."""
_DDP = ("Every recorded solver state (fresh solvers with budgets 0, 1, 2, ... on the same problem expose all iterates) must be a "
        "transition of the TLA+ specification (DDPNum/DDPCtl) from the previously observed state; TLC evaluates the specification on "
        "random polynomial problems, configurations, NaN/overflow inputs. ")
_TRUST = ("Trusts: TLC, the Java overrides of the double-precision operators (cross-checked against their TLA+ definitions by "
          "MC_LinAlg), the harness, Eigen. Sampled inputs, not all inputs.")
_FM = ("Every FMPC iterate (fresh solvers with budgets 0, 1, 2, ...) must follow from the previously observed one by FmpcNum "
       "(TraceFmpc), for random constrained polynomial problems, settings, initial variables, NaN/overflow data. ")
_PATH = ("In addition, control paths enumerated by TLC from MC_DDPCtl (whose invariants it checks on all behaviours up to depth 3, "
         "thorough 4) are made to happen in the real solver by scripted costs, and quantities are made exactly equal to their thresholds. ")
_SES = ("Call histories of length 3 (thorough: also 4) over seven kinds of calls (malformed, failing, idle, throwing ones among them) and "
        "two objects, also nested inside callbacks, enumerated by TLC from Sessions.tla "
        "(which checks that every call reads only what it wrote itself), are replayed on reused solver objects and judged by "
        "TraceSession. ")
_THR = ("Calls at the same time in 2-3 threads on objects of their own, with turns passed in the problem's functions in every order "
        "enumerated by TLC from Threads.tla (all interleavings of the model are checked), and running freely. ")
NOTES = {
    "C01": _DDP + "Decides: rollout, step costs, shapes. " + _TRUST,
    "C02": _DDP + _PATH + "Decides: cost monotonicity, kept trajectories, recorded costs. " + _TRUST,
    "C03": _DDP + _PATH + "Decides: return value, stopping, numbering, NaN. " + _TRUST,
    "C04": _DDP + _PATH + "Decides: regularisation schedule and failure. " + _TRUST,
    "C05": _DDP + _PATH + "Decides: gains, expected decrease, scale, new trajectory. " + _TRUST,
    "C06": _DDP + "Decides: optimum of convex LQ problems, vanishing gradient at convergence. " + _TRUST,
    "C07": _DDP + "Decides: limits, limited step by enumeration of active sets (BoxMin), first-order optimality. " + _TRUST,
    "C10": "Every solve of problems enumerated by TLC (GenSmall: all small integer Hessians, gradients, boxes, guesses up to 3 "
           "variables, one solver object reused) and of random ones is judged against the declarative minimiser (BoxMin: enumeration of "
           "active sets) and the transition rules of the projected Newton method. " + _TRUST,
    "C18": "Every solve of systems enumerated by TLC (GenSmall) and of random ones, all options and budgets, is judged against the "
           "declarative meaning of k Krylov steps (smallest residual over guess + Krylov space). " + _TRUST,
    "C19": "Recorded steps of both integrators for random time-dependent vector fields, negative steps and in-place results included, "
           "must equal the formulas of Ode.tla. " + _TRUST,
    "C20": "Recorded residual lists for random Hamiltonian problems, times, horizons must equal Residual of Cgmres.tla; the stored state "
           "must stay. " + _TRUST,
    "C21": "Histories of updates, residual evaluations, parameter changes on one solver: every update must be the smallest-error "
           "solution in the Krylov space of the specified continuation equation, from the previously observed state. " + _TRUST,
    "C22": "Histories of setups, steps and runs on one solver: setup against its specification, every run (final state and log files) "
           "against the specified composition setup;(simulate;update)*. " + _TRUST,
    "C23": "All sign patterns enumerated by TLC (GenSmall) plus random values, against the component-wise one-sided derivative and the "
           "difference quotient. " + _TRUST,
    "C08": _SES + "Decides: which exceptions, nothing else throws, usable afterwards. " + _TRUST,
    "C09": _SES + _THR + "Decides: DDP results bit for bit equal, with memory filled by different patterns. " + _TRUST,
    "C11": _FM + "Decides: recorded optimality error, meaning of success. " + _TRUST,
    "C12": _FM + "Decides: positivity, common step lengths, largest admissible steps. " + _TRUST,
    "C13": _FM + "Decides: the observed change annuls every row of the linearised perturbed KKT system. " + _TRUST,
    "C14": _FM + "Decides: status, budget, numbering, unchanged variables, non-finite data. " + _TRUST,
    "C15": _SES + _FM + "Decides: exceptions, initial slacks and multipliers. " + _TRUST,
    "C16": _SES + _THR + "Decides: FMPC results bit for bit equal, with memory filled by different patterns. " + _TRUST,
    "C17": _FM + "Decides: accepted step against the specified merit function, slope and halvings. " + _TRUST,
    "C24": _SES + "Decides: dump against trace entries, durations under a virtual clock that only the problem's functions advance. " + _TRUST,
    "C25": _SES + "Decides: silence at level 0, equal results for all levels (DDP, FMPC, box QP). " + _TRUST,
    "C26": _FM + "Decides: shape, derivative matrices and offsets of the exposed coefficients; gains must annul the linearised KKT rows for "
           "every unit state deviation; zero without a backward pass (heap filled with patterns). " + _TRUST,
    "C27": "All histories of make, change of dimensions, reset, assignment of one (non-finite) component, reset on a variable and all single "
           "components of a coefficient, enumerated by TLC from Containers.tla (quick: a sample of them) for four types, replayed and judged. " + _TRUST,
    "C28": "All constructions and queries enumerated by TLC from Containers.tla, replayed and judged. " + _TRUST,
}
