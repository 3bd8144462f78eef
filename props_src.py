NOTES = "One check per property: check.py extracts the functions from /repo's current sources, generates WhyML, discharges every obligation and runs a bounded harness on the real code; see DESIGN.md."
TECH = "contracts on the real functions (extracted mechanically to WhyML), every obligation discharged by Why3 with z3/cvc5; bounded harness for failing inputs"
LIB = "src/libkiter/"

def prop(id, title, statement, over, qtext, why, files, mech, level="proof", note="", technique=TECH, **kw):
    a = dict(files=[LIB + f for f in files], mechanism=[dict(name=n, where=LIB + w) for n, w in mech])
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a,
                level=level, level_note=note, technique=technique, **kw)

CLAIMED = [
prop("C01", "Exact fractions: values stay reduced and arithmetic and order are exact",
     "Every fraction built from a numerator and a positive denominator is stored in lowest terms with a positive denominator, and products and quotients (by a fraction or a whole number, also when the operands are the same object) are the mathematically exact result in that same form. "
     "Every comparison of two fractions, or of a fraction with a whole number, agrees with the order of the rational numbers.",
     ["inputs"], "all numerators and denominators whose exact results are representable",
     "Comparison runs a continued-fraction loop whose number of steps depends on the operands; tests sample a few pairs.",
     ["commons/commons.h"], [("fraction operators", "commons/commons.h")],
     note="19 functions under contract, all obligations discharged; integers are mathematical (no overflow)."),
prop("C02", "Integer rounding, remainder and Bezout helpers meet their definitions",
     "For every integer and positive modulus, the remainder helper returns the unique congruent value in range, the rounding helpers return the greatest multiple not above, respectively the least multiple not below, the value, and the strict rounding helpers the greatest multiple below, respectively the least multiple above it, for negative values too. "
     "The Bezout helper returns coefficients satisfying the identity whenever the right-hand side is a multiple of the greatest common divisor, and the membership helper answers exactly whether the value occurs.",
     ["inputs"], "all integers, all positive moduli, all vectors",
     "Negative values and exact multiples are corner cases in an infinite domain; the Euclid loop length depends on the input.",
     ["commons/commons.h"], [("modulo, floor, ceil, flooru, ceilu, floord, ceild, extended_euclide, findInVector", "commons/commons.h")],
     note="9 functions under contract, all obligations discharged; floating division modelled over the reals."),
prop("C03", "The dataflow graph store: identities, lookups, edits and caches stay coherent",
     "After any sequence of construction and edition calls on a dataflow graph, every task and channel keeps the attributes last given to it, all other tasks and channels keep theirs, and ids (and non-empty names) stay unique, lookups by id, name or port return the element carrying it or report absence. "
     "Totals of rates and durations are the sums over the phases; removing a task removes exactly its channels; a read-only graph refuses every edit; and every accepted edit drops the computed repetition vector, normalization and cached rate GCDs.",
     ["inputs", "histories"], "all graphs and all sequences of the public construction and edition calls",
     "The guarantees are invariants over unbounded histories of calls on graphs of any size; tests perform a few fixed constructions.",
     ["models/Dataflow.h", "models/Dataflow.cpp"], [("Dataflow member functions", "models/Dataflow.h")],
     note="106 member functions under contract over a trusted model of the Boost graph; all obligations discharged."),
prop("C04", "The repetition vector is minimal and balanced; inconsistent graphs are refused",
     "Computing the repetition vector of a dataflow graph with at least one task succeeds exactly when positive integer counts exist that balance the tokens produced and consumed on every channel (all channels having positive total rates), and never loops. "
     "On success every task's count is a positive multiple of its number of phases, every channel's production and consumption over one iteration are equal, no smaller vector of the same form exists (the numbers of cycles have no common divisor), the vector is marked as computed, and nothing but the counts and the flags of the graph has changed.",
     ["inputs"], "all non-empty graphs whose rate vectors match the phase counts; tasks without any channel have one phase (else a known finding)",
     "Whether a rate assignment is consistent depends on every undirected cycle of the graph; tests use a handful of consistent graphs.",
     ["models/repetition_vector.cpp", "models/Dataflow.h"], [("calcFractionsConnectedActors, calcRepetitionVector, computeRepetitionVector", "models/repetition_vector.cpp")],
     note="3 functions and the 21 functions they call under contract, all obligations discharged including termination of the recursive traversal; integers are mathematical."),
prop("C05", "The K-periodic event graph holds exactly the precedences of the dataflow graph",
     "For a dataflow graph with its repetition vector and a positive number K of executions per task, the event graph has exactly one event per phase of each execution (initial phases only in the first execution), each reached through its task, phase and execution number. "
     "Its constraints are exactly: consecutive phases of each task in order with the duration of the earlier one (0 when the task has no re-entrancy factor), a closing constraint for each task with a re-entrancy factor, and, for two phases joined by a channel, one constraint carrying the producing phase's duration whenever some token difference a, a multiple of the common divisor of the channel's production and consumption over K executions, makes the producing phase decide whether the consuming phase can fire, with a weight given by the greatest such a. "
     "The token divisor used for this is the greatest common divisor of all rates of the channel, initial phases included.",
     ["inputs"], "all graphs with positive total rates and well-sized vectors, all K vectors, all preloads",
     "Which pairs of phases constrain each other depends on divisibility of rates, preloads and K; tests only look at the throughput of a few benchmark graphs.",
     ["algorithms/throughput/kperiodic.cpp", "models/EventGraph.h", "models/Dataflow.h"], [("generateKPeriodicEventGraph, generateKPeriodicConstraint, generateKperiodicSelfloop", "algorithms/throughput/kperiodic.cpp"), ("addEvent, addEventConstraint, getEventGraphVertex", "models/EventGraph.h"), ("computeFineGCD, getFineGCD", "models/Dataflow.h")],
     note="all functions on the path from the dataflow graph to the event graph under contract, all obligations discharged; times are real numbers, integers are mathematical."),
prop("C06", "Start times computed for a period meet every constraint and are the earliest",
     "For every event graph and every finite period, when some assignment of start times satisfies every constraint (target start >= source start + duration - period x weight), the computed start times satisfy them all, are the earliest among all non-negative assignments that do, and some event starts at 0. "
     "Without a period (infinite) every event gets start time 0 and the function answers false, otherwise true. Events, constraints, weights and durations are left unchanged.",
     ["inputs"], "all event graphs, all real weights and durations, all periods",
     "How many propagation rounds are needed depends on the longest simple path of the graph; tests never look at start times.",
     ["models/EventGraph.h"], [("computeStartingTimeWithOmega", "models/EventGraph.h"), ("event graph accessors", "models/EventGraph.h")],
     note="the propagation and every accessor it uses under contract, all obligations discharged, with a ghost argument that N rounds suffice; times are real numbers."),
prop("C07", "K-periodic schedules list the earliest start times and the period of every task",
     "For a dataflow graph with its repetition vector, a positive number K of executions per task and a positive throughput, the schedule has exactly one entry per task, whose period is K x phases / (phases per iteration) divided by the throughput, whose initial part lists the start times of the initial phases once, in order, and whose periodic part lists the start times of every phase of the K executions, in order. "
     "These are the start times of the events of the K-periodic event graph of that graph: when the period admits a schedule they meet every precedence constraint and are the earliest non-negative ones. A negative throughput gives an empty schedule.",
     ["inputs"], "all graphs with positive total rates and well-sized vectors, all K vectors, all non-zero throughputs",
     "The number and order of the start times depend on the phases, the initial phases and K of every task; tests never look inside a schedule.",
     ["algorithms/throughput/kperiodic.cpp", "models/Scheduling.h"], [("period2scheduling", "algorithms/throughput/kperiodic.cpp"), ("scheduling_t", "models/Scheduling.h")],
     note="period2scheduling under contract over the contracts discharged by C05 and C06; all obligations discharged; times are real numbers. The harness executes the schedules token by token."),
prop("C08", "K-Iter enlarges K by exactly what the critical circuit needs",
     "For a graph with its repetition vector, a K vector in which every K divides the task's number q of executions per iteration, and any set of channels (the critical circuit), enlarging K gives every task that is the source of a channel of the set K = lcm(old K, q/g), where g is the greatest common divisor of q over all these sources, and leaves the K of every other task as it was. "
     "The answer is true exactly when the K of some task changed; every new K is a multiple of the old one and still divides q, so that K-Iter can never go beyond one full iteration and stops after finitely many enlargements.",
     ["inputs"], "all graphs with a computed repetition vector, all K vectors dividing it, all sets of channels",
     "The result depends on divisibility between repetition counts of arbitrary circuits; tests only compare final throughputs of a few graphs.",
     ["algorithms/throughput/kperiodic.cpp"], [("updateVectorWithLocalNi", "algorithms/throughput/kperiodic.cpp")],
     note="the function under contract over the graph-store contracts discharged by C03; all obligations discharged; integers are mathematical."),
prop("C09", "Symbolic execution fires tasks exactly by the dataflow firing rule",
     "In the symbolic execution of a dataflow graph, a task may start exactly when it is not running, every input channel (self-loops included) holds the tokens its next phase consumes and, with bounded buffers, every output channel has the space its next phase produces; starting removes exactly those tokens, reserves exactly that space and runs for the duration of that phase; "
     "ending the firing adds exactly the tokens that phase produces and frees the space of the tokens it consumed; phases follow each other in turn; time advances to the end of the next firing to end, the same amount for all running firings, and nothing else changes. "
     "A new state holds the preloads (and, bounded, the capacities and the space they leave), and two states of a graph are equal exactly when their elapsed time, phases, tokens and running firings are equal.",
     ["inputs", "histories"], "all graphs with computed repetition vector and well-sized vectors, all states and all sequences of starts, ends and time steps",
     "The reachable states are unbounded and depend on all rates, durations and preloads; tests look at the throughput of a few graphs only.",
     ["algorithms/throughput/actor.cpp", "algorithms/throughput/state.cpp"], [("Actor", "algorithms/throughput/actor.cpp"), ("State", "algorithms/throughput/state.cpp")],
     note="every function of Actor and State used by the symbolic execution under contract (not the TDMA variants), all obligations discharged; times are real numbers, integers mathematical. The engine loop and its throughput are only searched (bounded)."),
]
NOT_APPLICABLE = []
