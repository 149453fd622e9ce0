"""what decides each property"""
CHECKS = {
    "C01": dict(
        level="proof", technique="Verus contracts on the extracted conversion functions (deductive, all inputs) + exhaustive replay",
        note="Every obligation over all 32-bit inputs is discharged by Verus; trusts the NonZeroU32 stand-in and the extraction. The compiled functions are also run on the complete range.",
        units=["lit"], vh=["c01"], secs=60, max={"c01": 1026}, exhaustive=True,
        rule="slices of the whole range: every number of magnitude 1..2^30-1 with both signs is converted every way",
        explain="every conversion function has a contract over the ordinal; the theorems c01_* derive the property from the contracts; the bounded part replays the same facts on the compiled crate for the complete range",
    ),
    "C02": dict(
        level="proof", technique="Verus contracts and loop invariants on the extracted Luby generator (deductive, all indices)",
        note="Proved for every index below 2^62 (next_unchecked) and 2^31 (next, whose result is a u32); trusts usize::pow and the extraction.",
        units=["luby"], vh=["c02"], secs=8,
        rule="random mixtures of draws and restarts compared with the recursive definition; non-trivial: more than 8 draws",
        explain="contracts relate each draw to the recursive Luby function for every index (next_unchecked: below 2^62, next: below 2^31), loop invariants carry it through both loops; restart is a contract of reset",
    ),
}

WALK = ("each case builds a small formula (3-14 variables) in the real solver and walks up to some dozens of random operations over it (load, add variable, decide, propagate, backjump, "
        "learn from the conflict, backtrack, shorten, remove, subsume, eliminate, simplify, vivify, reduce, save and reuse the trail)")
BND = "bounded part: random cases on the compiled crate, not counted as proved"

CHECKS.update({
    "C03": dict(
        level="proof", technique="Verus contracts on the extracted loading functions (deductive, all inputs) + bounded contract check on the real crate (random vectors, files, assignments)",
        note="Proved for all inputs: add_assignment, add_clause, inject_from_vec, the text reader inject, CNFReader::try_from, Solver::try_from for vectors, SatSolverIF::build and inject_assignment answer InvalidLiteral only when, and never Ok when, a literal is 0 or names an undeclared variable (an unsatisfiable beginning may be reported first as EmptyClause), add_assignment, add_clause and inject_assignment leave the solver as it was on an error, an empty vector answers EmptyClause. Preconditions: vectors with magnitudes below 2^30-1, fewer than 2^31 clauses. Trusts the stand-ins for text input (lines, words, parse) and the extraction.",
        units=["store", "load", "build"], vh=["c03"], secs=20,
        rule="a random solver state and a vector or file with or without an undeclared literal; non-trivial: the input contains one or is empty",
        explain="the postcondition of every loading function (error kind, unchanged solver) is proved over the extracted body; the harness evaluates the same on each call of the compiled crate"),
    "C04": dict(
        level="proof", technique="Verus contracts on the extracted loading functions: the models after are the models before that satisfy the clause (deductive, all inputs) + bounded check against model sets",
        note="Proved for all inputs: add_unchecked_clause, add_clause, add_assignment, inject_from_vec and inject leave a solver whose models are exactly the earlier ones that satisfy what was loaded, or answer EmptyClause when there are none; a text is read as its 0-terminated groups whatever the line breaks (formula(words(lines))); Solver::instantiate allows every assignment; try_from and build compose these from the header and the vector. Preconditions: vectors with magnitudes below 2^30-1, fewer than 2^31 clauses. Trusts slice::sort, the text stand-ins and the extraction.",
        units=["load", "build"], vh=["c04"], secs=20,
        rule="random fixed literals, one clause with repetitions, false literals and tautologies, or a random layout of a DIMACS text; non-trivial: something is dropped, repeated, tautological or the layout is not one clause per line",
        explain="the contract of every loading function is a statement about model sets and is proved over the extracted body; in the bounded part the models of the held constraints before and after are enumerated and compared with the clause's models"),
    "C05": dict(
        level="exploration", technique="Verus contract and theorems on extend_model (deductive) + bounded check of solve()",
        note="Proved: extend_model computes the extension function, every recorded clause is satisfied, other variables are unchanged, every eliminated variable gets a value. Bounded: that solve()'s SAT answers are total models, over random formulas, routes and configurations.",
        units=["model"], vh=["c05"], secs=30, bins=True,
        rule="random formulas (also near the 3-SAT threshold, with clauses over up to 90 variables, parity, gates, chains, built around a model) loaded by vector, file, clause by clause or variable by variable under random configurations, or a random record list; non-trivial: the answer is SAT and something was eliminated or searched",
        explain="extend_model is decided by discharged obligations; the rest of solve() by evaluating the model against the input"),
    "C06": dict(
        level="exploration", technique="Verus contracts on handle_conflict, conflict_analyze, is_redundant, minimize_learnt, minimize_with_bi_clauses, vivify, analyze_sandbox and the clearing at level 0 (deductive) + bounded contract check of solve()",
        note="Proved for all inputs: the clause learnt by conflict analysis is a logical consequence of the stored clauses and the assignments at level 0, all its literals are false, its first literal alone is of the current level, the second one of the level returned; the marks used on the way are all taken back; removing redundant literals and shortening with two-literal clauses keep that; handle_conflict meets the preconditions from a complete state with a conflict, and what it stores, assigns or takes back leaves the set of models exactly as it was and a state propagate accepts; clear_asserted_literals with propagate_at_root_level keeps the set of models and that state at level 0, and reports an error only when there is no model; vivify with analyze_sandbox: every shortened clause follows from the stored clauses, the set of models is kept, an error is reported only when there is none, and no mark of a clause above that the original clauses need is lost (lasting: the clauses that reduce may not remove imply all stored ones). Bounded: the whole run: every learnt or derived clause in random walks is compared by complete model enumeration with the clauses held before; whole runs by an independent decision procedure or by checking the proof.",
        units=["cdb", "learn", "step", "root", "vivify", "subs"], vh=["c06+hooks", "c06s"], secs=50, bins=True,
        rule=WALK + "; whole runs on random and structured formulas (built around a model where large), routes and configurations; non-trivial: a clause was derived, or the answer is UNSAT",
        explain="contracts: from an analyzable state and a clause false at the current level, conflict_analyze gives an asserting clause s with: every m satisfying all stored clauses and the level-0 assignments satisfies s; database unchanged but for counters and ranks; handle_conflict: same_models(before, after), the state is again one propagate accepts; bounded: postconditions of handle_conflict, vivify, simplify and solve are evaluated on each call"),
    "C07": dict(
        level="exploration", technique="Verus contracts on merge, merge_cost, the record writers and extend_model with theorems linking them (deductive) + bounded check of eliminate_var",
        note="Proved for all inputs: merge gives exactly the resolvent (or nothing on a clash), merge_cost its size, the records are written in the layout extend_model reads, and reading them back gives the eliminated variable a value that satisfies every removed clause. Bounded: eliminate_var's use of them (which clauses it resolves, adds and removes), on random databases with the projection compared by complete enumeration.",
        units=["model", "elim"], vh=["c07+hooks", "c05"], secs=30,
        rule="random clause pairs sharing a variable, random databases and variables, and databases of up to 90 variables with clauses over all of them (implied clauses checked by an independent procedure); non-trivial: a resolvent or tautology arises, or a variable was eliminated",
        explain="contracts: merge == the other literals of both clauses, each once, or 0 on a clash; merge_cost == size of the resolvent; make_eliminated_clauses appends the records of the smaller side and a default; extend_model == extended(..); theorems c07_resolvent_follows, c07_clash_is_tautology, c07_value_exists, c07_elimination_undone derive the property from them; eliminate_var as a whole is evaluated on each bounded call"),
    "C08": dict(
        level="exploration", technique="Verus contracts on have_subsuming_lit, try_subsume, strengthen_clause and backward_subsumption_check (deductive) + bounded check of simplification against model sets",
        note="Proved for all inputs: have_subsuming_lit reports Success exactly when every literal of the one clause occurs in the other and By(l) exactly when the other contains the negation of the unit l, and what follows from it; backward_subsumption_check with try_subsume, strengthen_clause and the upkeep of the occurrence lists and queues keeps the set of models, keeps what the permanent clauses imply, leaves a database every other contract accepts, and reports a conflict only when there is no model, for every queue, list and limit. Bounded: the elimination loop around it, on random databases over up to 14 variables, models compared by complete enumeration.",
        units=["elim", "subs"], vh=["c08+hooks"], secs=20,
        rule="random clause pairs and databases; non-trivial: subsumption or a removable literal is reported",
        explain="contract of have_subsuming_lit discharged, theorems c08_subsumed_follows and c08_strengthened_follows; backward_subsumption_check, try_subsume, strengthen_clause, remove_cid_occur, remove_lit_occur, the queues and delete_unstable under contract (relation rooted: same models, same permanent consequences, ready for propagation); simplification is evaluated on each bounded call"),
    "C09": dict(
        level="proof", technique="Verus contracts on the extracted assignment stack (deductive, all histories) + bounded walks on the real crate",
        note="cancel_until, backtrack_sandbox, assign_by_decision, assign_by_implication, assign_at_root_level, save_trail and the queue under one invariant, every obligation discharged; the precondition wf() is established by walks (bounded) for the callers not under contract. Trusts the frame stand-ins for statistics and rewards.",
        units=["assign"], vh=["c09+hooks"], secs=15,
        rule=WALK + "; non-trivial: a backtrack over at least one level",
        explain="the invariant and the contracts of the assigning and backtracking functions are the property; the walks evaluate the same contracts on the compiled crate"),
    "C10": dict(
        level="exploration", technique="Verus contracts on the extracted propagation functions (deductive, every clause database and trail) + bounded contract check on the real crate",
        note="Proved for all inputs, for propagate and propagate_sandbox with binary_links and reuse_saved_trail: every literal put on the trail is justified by a clause that holds it and is otherwise false; an Ok answer means no live clause is false or has one open literal and the rest false (theorem_complete); an Err names a clause that is false; the clause set, the lists and the database invariant are kept; termination. clear_asserted_literals ends with every clause free of assigned literals and propagation complete, whatever the queue held before, if it was complete before or no clause held a literal fixed earlier. vivify meets the precondition of every propagation it makes. Precondition at the other callers (search, eliminator): evaluated in walks only. Float statistics and best-phase bookkeeping are dropped in the extraction.",
        units=["prop", "root", "vivify"], vh=["c10+hooks"], secs=20,
        rule=WALK + "; non-trivial: propagation implied a literal or found a conflict",
        explain="the contract of propagate and propagate_sandbox is proved over the extracted bodies for every database and trail that meets the invariant; its postcondition is also evaluated on each call of the walks"),
    "C11": dict(
        level="proof", technique="Verus contracts and data invariant on the extracted decision queue (deductive, all histories) + bounded walks",
        note="The heap invariant (permutation with inverse index, no duplicates), membership after every queue operation, and preservation of 'every open variable is queued or saved' by the assignment stack: every obligation discharged. Trusts the extraction and frame stand-ins; eliminator's removal from the queue is covered by the walks.",
        units=["assign"], vh=["c11+hooks"], secs=15,
        rule=WALK + "; non-trivial: a variable left or entered the queue",
        explain="the invariant of VarIdHeap and AssignStack is the property; the walks evaluate it on the compiled crate"),
    "C12": dict(
        level="exploration", technique="Verus contracts and data invariant on the extracted clause database (deductive, all histories of its operations) + bounded invariant check on the real crate",
        note="Proved for all inputs: the whole invariant (watches, links, lookup, free slots, counts) is preserved by new_clause, new_clause_sandbox, remove_clause, remove_clause_sandbox, transform_by_elimination, transform_by_simplification, transform_by_updating_watch, transform_by_restoring_watch_cache, swap_watch, promote_learnt, update_at_analysis, reduce, growth by a variable, with the exact effect of each. Bounded: their callers (propagation, eliminator, vivifier), which must meet the preconditions; the invariant is evaluated after every operation of random walks.",
        units=["cdb"], vh=["c12+hooks"], secs=20,
        rule=WALK + "; non-trivial: a clause was removed or changed",
        explain="ClauseDB::wf is the property; each operation under contract preserves it; the same invariant is evaluated on the compiled crate after each operation of the walks"),
    "C13": dict(
        level="exploration", technique="Verus contracts on the extracted proof writer (deductive) + bounded check of the log (record by record, own DRAT checker)",
        note="Proved for all inputs: add_clause / delete_clause append exactly the DRAT line of the clause to the text the file will hold, flushing keeps that text, close ends it; a failed write is the only way text is lost; adding and removing a clause each log exactly that clause. Bounded: that every change of the clause set is logged and every added clause is RUP or RAT, on proofs of random UNSAT formulas.",
        units=["cert", "cdb"], vh=["c13"], secs=40, bins=True,
        rule="random sequences of additions and deletions, or the proof of a random UNSAT formula; non-trivial: more than one flush, or a proof with a derivation",
        explain="contracts: the text after add_clause/delete_clause is the text before plus the line of that step; dump_to_file keeps the text; the file is also parsed and compared with the records, or checked step by step as DRAT against the input"),
    "C14": dict(
        level="exploration", technique="Verus contracts on the extracted reduce, transform_by_simplification, handle_conflict, vivify and clear_asserted_literals (deductive) + bounded contract check of clause database reduction",
        note="Proved for all inputs: reduce removes only learnt clauses of more than four literals and changes no literal or flag of the others, in all four modes; transform_by_simplification removes a clause as satisfied exactly when it has a true literal, and otherwise only when its remaining two literals are already stored. The clauses reduce may not remove imply all models' clauses (lasting) after handle_conflict, clear_asserted_literals and vivify, if they did before: what is learnt or rewritten never makes a needed clause removable. Bounded: that no removed clause is a reason, and the eliminator's rewriting; every reduction and simplification in random walks, all modes.",
        units=["cdb", "step", "root", "vivify", "subs"], vh=["c14+hooks"], secs=15,
        rule=WALK + "; non-trivial: the reduction removed a clause",
        explain="the contracts of reduce and transform_by_simplification; the postcondition of reduce and of clearing satisfied clauses is also evaluated on each bounded call"),
    "C15": dict(
        level="exploration", technique="Verus contracts on the extracted validator: evaluate, ClauseDB::validate, Solver::validate, inject_assignment, assign_ref (deductive) + bounded check of the model checker program",
        note="Proved for all inputs: Solver::validate answers None exactly when every stored problem clause has a true literal and otherwise the numbers of a stored clause that has none; inject_assignment rejects contradictions and otherwise fixes exactly the given literals. Bounded: that the store holds the loaded clauses, and the dmcr program.",
        units=["store"], vh=["c15"], secs=25, bins=True,
        rule="random formula and (partial, total, contradictory) assignment; non-trivial: a clause is undecided or false, or the assignment contradicts something",
        explain="the contracts of ClauseDB::validate, Solver::validate and inject_assignment are the property; the harness evaluates the same on the compiled crate and compares dmcr's verdict with direct evaluation"),
    "C16": dict(
        level="exploration", technique="Verus contract on check_size (deductive) + bounded check of verdicts under limits",
        note="Proved for all inputs: check_size is an error exactly when a limit is set and exceeded, and the error is OutOfMemory. Bounded: random limits and formulas; verdicts compared with the truth.",
        units=["store"], vh=["c16"], secs=25,
        rule="random clause and time limits on random formulas; non-trivial: a limit was hit",
        explain="the contract of check_size is the first half of the property; verdicts under limits are compared with the truth on each bounded run"),
    "C17": dict(
        level="exploration", technique="Verus contracts on add_var, its NewVar handlers and Solver::instantiate (deductive) + bounded contract check of growing a solver on the real crate",
        note="Proved for all inputs: add_var returns the new count, keeps clauses, values and models, grows every table by the new variable, and takes a solver without clauses over n variables to one over n+1 just as Solver::instantiate would give it (predicate blank, the precondition of every loading theorem). Bounded: the answers of solve() on grown and declared solvers, over random interleavings of adding variables, clauses and assignments.",
        units=["cdb", "build"], vh=["c17"], secs=25,
        rule="random interleavings; non-trivial: a variable was added after a clause",
        explain="contracts of add_var and of the three NewVar handlers; comparison of the grown with the declared solver"),
})

NOT_APPLICABLE = {
    "C18": "Termination of the whole CDCL search needs a global ranking argument over restarts, learning and clause deletion (and the configuration allows unlimited deletion between restarts); a function-by-function contract verifier cannot express it here.",
    "C19": "The quantities are f64 moving averages; Verus (like the other deductive back ends here) treats f64 arithmetic as uninterpreted, so no contract about their numeric range can be discharged.",
}
