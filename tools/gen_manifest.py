#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
NOTE = ("Complete enumeration of a stated finite space of executions of the real code, each judged by an oracle that does not "
        "share code with it. Nothing is claimed outside the bounds listed in DESIGN.md and in the evidence file. Trusted: "
        "IEEE-754 doubles, Eigen 3.4.0, the compiler, the oracle. ")
T = {
 "C01": ("exhaustive enumeration of bounded QPs x guesses x presets on the real solver, long double KKT oracle", "Small integer data, shapes n<=5 exhaustively or by deviation; larger shapes (n<=12, m<=16), 12 option variants and data scales on problems with an optimum known by construction."),
 "C02": ("exhaustive enumeration of bounded QPs on the real solver, exact Fourier-Motzkin classification", "Status is decided in exact rational arithmetic for the small problems and known by construction for the larger ones."),
 "C03": ("exhaustive enumeration of infeasible/unbounded QPs on the real solver, independent certificate check", "Both interfaces."),
 "C04": ("exhaustive deviation-bounded enumeration of time-varying optimal control problems, stagewise long double KKT oracle", "Horizons 1..5 with at most 4 deviating entries; horizons up to 40 on problems with an optimum known by construction; 12 option variants."),
 "C05": ("exhaustive deviation-bounded enumeration of optimal control problems, exact Fourier-Motzkin classification", "Horizons 1..3 classified exactly, up to 40 by construction."),
 "C06": ("exhaustive enumeration, both real interfaces compared on the same problem", "Differential: each interface is the other's oracle."),
 "C07": ("exhaustive enumeration of operators x basis vectors x scalings x shapes against explicit matrices", "Operators are linear, so basis vectors decide all vectors of a shape."),
 "C08": ("exhaustive enumeration of sign patterns (kinks included) x regularizations x shapes, Newton equations evaluated in long double", "Every smooth piece and kink of the complementarity function for the enumerated shapes."),
 "C09": ("exhaustive enumeration of guesses over a value alphabet x problems on the real solver", "Includes negative multipliers, huge and non-finite entries."),
 "C10": ("exhaustive exploration of all operation histories of a solver object up to a depth, state compared with a fresh object", "Bitwise comparison; also all heap fill patterns of an alphabet."),
 "C11": ("exhaustive enumeration of iteration-limit combinations x problems on the real solver", "Includes unreachable tolerances, infeasible and unbounded problems."),
 "C12": ("exhaustive enumeration of bounded QPs x guesses x presets x limits, returned values recomputed in long double", "Every exit path."),
 "C13": ("exhaustive enumeration of pairs of option values x problems, reference model of the documented ranges", "All pairs of fields."),
 "C14": ("exhaustive enumeration of size deviations (pairs) of every argument under address and undefined-behaviour checking", "Reference predicate: the documented size rules."),
 "C15": ("exhaustive enumeration of problems x storage kinds x exits between guard pages, address checking, byte comparison of all inputs", "Owned and mapped storage compared bitwise."),
 "C16": ("exhaustive enumeration of verbosity x exit x problem; text parsed by an independent reader", "Process stdout captured."),
 "C17": ("stateless exploration of thread interleavings of the real code under a controlled scheduler, reduction by non-commuting memory accesses, plus all one-preemption schedules", "Two threads. Where recorded accesses never conflict, all interleavings are equivalent to the explored ones; otherwise one- and two-preemption schedules at the conflicting accesses are explored. Sequential consistency assumed."),
 "C18": ("exhaustive enumeration of fault sequences (failing or corrupted linear solves) injected under the real algorithm", "Up to 2 (quick) or 3 (thorough) corrupted steps and all blocks of consecutive ones."),
 "C19": ("exhaustive exploration of all container operation sequences up to a depth against a reference container, address checking", "Pool of three sequences."),
 "C20": ("exhaustive enumeration of problems x guesses x options; every step of the real algorithm checked against the documented transition relation", "Each iterate pair must be a transition of the documented line search; long double with error bounds."),
 "C21": ("exhaustive enumeration of sparsity patterns and call sequences of the wrapper over a stand-in of the external LDL' package, address checking", "The external package is not installed; a stand-in with the same interface (harness/stub) takes its place."),
 "C22": ("exhaustive exploration of component operation sequences up to a depth against a long double reference model; exhaustive sign patterns and directions", "Depth 3 (quick) or 4 (thorough) over 34 operations."),
 "C23": ("exhaustive deviation-bounded exploration of the real algorithm core with open (enumerated) component answers, each execution compared with an executable model of the documented iteration", "At most 2 (quick) or 3 (thorough) deviating answers from 4 base behaviours x 13 option settings x 3 histories, all merit sequences of length 8 to 12 over small alphabets. The model is replayed against the implementation in every execution."),
 "C24": ("exhaustive exploration of operation words up to a depth, each repeated on one real solver object under a counting allocator, and of object life cycles and long solves", "Words of depth 3 (quick) or 4 (thorough) over 12 to 15 operations, life cycles of depth 2 or 3 over 24. Live blocks and bytes compared between repetitions (after the second one)."),
}
checks = [dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
               technique=t, level="model_checking", level_note=NOTE + n) for p, (t, n) in T.items()]
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=[],
         notes="run.py builds /repo's working tree together with one exploration harness per property (build cache in .work, keyed by the contents of "
               "the sources) and runs 8 shards of the enumeration. No hooks in /repo. Defects found and repaired, and known findings: known_findings.txt.")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
