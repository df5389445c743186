"""Per-property facts used by run.py for the evidence files."""
INFO = {}
def P(pid, rule, level="exploration", assumptions=(), **kw):
    INFO[pid] = dict(rule=rule, level=level, assumptions=list(assumptions), **kw)

STEP = ("Each case is one proof step (premises given as holes) rendered as SMT-LIB/Alethe text and run through "
        "parser and checker of the current tree; valid schema instances must be accepted, and for every "
        "accepted step (instance or near-miss mutant) an independent evaluator searches for an interpretation "
        "with true premises and false conclusion. Distinct = distinct step texts among instances and accepted mutants. ")
P("C02", STEP + "Schemas: all connective, introduction, clausification, definition and elimination rules, filled with "
  "random typed terms (arity 1-17, repeated/negated operands, quantifiers, ite); mutants edit operators, operands, "
  "literals, premises, indices and the rule name.")
P("C01", STEP + "Resolution chains (1-12 binary steps over up to 9 atoms, with 0-3 leading negations, repeated literals, "
  "tautological clauses, shuffled premises, explicit pivots, strict list form), contractions, permutations, extensions, "
  "tautologies, commutative shuffles, and random clause sets; entailment is decided over all Boolean valuations.")
P("C03", STEP + "Rewrite tables of every simplification rule instantiated with random typed terms, nested and repeated operands, "
  "numeric constants in every spelling, ac/aci normal forms; mutants as for C02.")
P("C04", STEP + "Farkas combinations built from random linear atoms (Int/Real, strict/non-strict, equalities, mixed, rounding), "
  "la_mult, la_tautology, lia/poly simplification, comparisons; countermodels also by Fourier-Motzkin guided sampling.")
P("C05", STEP + "Chains for trans/eq_transitive (1-10 links, shuffled, flipped), congruence with functions, predicates and operators "
  "(some arguments equal, shared premises), refl, symm, not_symm and their clausal forms.")
P("C11", STEP + "Random clause sets near the satisfiability threshold over 2-6 atoms plus two fresh ones, with certificates of resolvents, "
  "weakened and random clauses, deletions, extension definitions and RAT clauses; a naive unit-propagation oracle says which certificates "
  "must be accepted, all valuations decide entailment.")
P("C12", STEP + "Random constant terms (and terms with variables) over every operator the evaluator folds, bit-vector widths 1-128 "
  "with boundary values, equated with the value computed by the independent evaluator (must be accepted) and with wrong values.")
P("C32", "Random documents over the whole term language (quoted and reserved-looking names, binders, lets, shared subterms, all parser options) and the workloads of C01-C16 with rules "
  "swapped for lia_generic; problems are generated with and without sharing for each. Monitors: exactly the top-level delegated steps, in order; the script has the right commands, "
  "logic and declarations; an independent reader accepts it (names given once, to closed terms, not reserved or taken; an independent typechecker finds every assertion well-sorted with the declarations "
  "of the script alone); read back, the assertions are exactly the negated literals; those in standard SMT-LIB are read by cvc5. Clauses valid by construction and neighbours of them are given to cvc5 and z3: "
  "never sat if valid, never unsat if an independent evaluator finds a falsifying interpretation. Distinct = distinct proofs.")
P("C30", "Mixed and nested proofs, random documents over the whole syntax and the workloads of C01-C16, with 0 or 1 faults (truncated, garbled, invalid UTF-8, emptied, missing files, directories "
  "in their place, unknown, wrong and delegated rules, other options), given to every sub-command of the built command line (check with 1-6 threads, elaborate with random pipelines, parse, slice, bench, "
  "generate-lia-problems) with random options, through files, standard input and inferred problem names. Monitors compare exit status, verdict line, message (step, rule, position), standard output and "
  "written files with what the library computes from the same bytes, read elaborated, parsed and sliced outputs again, and check that wrong usage and outputs that cannot be written never look like success. "
  "Distinct = distinct command lines with their inputs.", cli=True)
P("C31", "Random samples (durations, counts, numbers) split over collectors and merged by random trees, against exact rational totals, extremes, means and deviations; "
  "random sequences of step, assumption, anchor, holey and error events over files, rules and runs, spread over streaming and detailed collectors that are merged, against "
  "independent aggregation by file, rule and run (rows of the CSV files included); real runs of the sequential and parallel checkers on the workloads of C01-C16 with a recording "
  "collector (every step, top-level assumption and subproof measured once, in order, under its own name; failing runs the prefix); and the bench command on directories of accepted, holey, rejected, "
  "unparsable and missing files with 0-8 jobs and 0-3 runs, its summaries and CSV files compared with what the library measures. Distinct = distinct samples, event sequences and proofs.", cli=True)
P("C29", "Mixed and nested proofs, the workloads of C01-C16, elaborated proofs, and variants of all of these with equalities flipped, arguments dropped and rules "
  "replaced by the stricter or looser one, are each checked in both modes: alone, again with the same checker and pool, after another proof, from a fresh parse, with "
  "streaming and detailed statistics, through the library's entry points, and in parallel with and without statistics; verdict and first failing step must agree, and "
  "strict acceptance must imply the same normal verdict. Accepted ones are elaborated again with and without statistics (printed proofs must be the same). Distinct = distinct proofs.")
P("C28", "Random terms with nested, shadowing and clashing binders (forall/exists/choice/let, same name at several sorts) and random "
  "substitutions are built in the real term pool: the result of substitution is compared with evaluation under the updated "
  "valuation (substitution lemma) in sampled finite interpretations, free variables with an independent computation, and every "
  "comparison the checker uses (alpha-equivalence, equality modulo reordering, modulo n-ary expansion, number literals, string "
  "concatenation) must accept its renamed/expanded variants and only accept pairs that evaluate equally. Distinct = distinct "
  "term/substitution texts and compared pairs.")
P("C06", STEP + "Instantiations (capture forced by clashing names, arguments of both sorts, renamed and reordered results), joined, pruned, "
  "constant, distributed and split quantifiers, and clausifications computed independently (negation normal form, prenexing, "
  "distribution), with distinct and with deliberately clashing names; besides mutants, bound and free names are exchanged.")
P("C08", STEP + "Encodings of every bit-blasted operator, computed independently, at widths 1-9, 16, 31-33, 48, 63-65, with variables, constants, blasted terms and compound terms as operands, two to five operands; partial sums, misplaced sign bits, captured choice variables, out-of-range constants and single-point corruptions are run as well. Integers range over {0,1} in the interpretations, as the pseudo-Boolean rules assume.")
P("C10", STEP + "Pseudo-Boolean constraints over integer constants (one of them named ~x), opaque terms and bits, with results computed independently; repeated and opposite literals, zero, negative and huge coefficients, empty sums, extra premise literals, random arithmetic trees for normalisation; every accepted step is evaluated under all 0-1 assignments.")
P("C07", "Proofs with nested anchors (bind, let, bind_let, onepoint, sko_ex, sko_forall, deduction subproofs, to depth 6, inside each other) are "
  "derived from random quantified terms so that every step is justified, and must be accepted; derivations taking unjustified decisions "
  "(name clashes between bound, assigned and global names, assignments of other values, extra or missing anchor arguments, premises from "
  "inside or from under a shadowing anchor, wrong closing rules) and mutations of whole proofs (steps, premises, discharges, arguments, subterms) "
  "are run as well. Oracle: in every accepted proof, every top-level conclusion must hold in all sampled finite models of the "
  "problem's assertions (own evaluator). Distinct = distinct accepted proof texts.")
P("C09", STEP + "Word equations over string variables, opaque terms and constants (non-ASCII, escapes, quotes, empty words) with common prefixes or suffixes, unequal "
  "constants, length premises and both directions; regular expressions (union, intersection, concatenation, star, range, constants) unfolded positively and "
  "negatively, with and without fixed-length components, bound names clashing with free ones. Countermodels are guided by solving the word equations of the "
  "premises by random splitting and by drawing words of the regular expressions.")
P("C13", "Files of 1-4 random rewrite rules (Boolean, integer and polymorphic parameters, list parameters of all of these, permuted arguments, premises, "
  "quantifiers in the conclusion, names clashing with the problem's symbols and definitions, attributes in any order) and steps that cite them; the "
  "instance is computed independently by splicing. Instances must be accepted, and every accepted step (arguments added, removed, swapped, wrapped into or "
  "unwrapped from lists, other rule names, edited conclusions and premises, carelessly spliced conclusions) must be an exact instance up to the "
  "value of empty connectives. Distinct = distinct step and rule-file texts among instances and accepted mutants.")
P("C14", "Correct generated refutations (nested subproofs of every kind, real final resolution) are edited by steps whose status is known by "
  "construction (hole, lia_generic, unknown rule, failing known rule, forbidden closing rule, undischarged assumption, unasserted assumption, empty "
  "clause only inside (nested) subproofs, removed or followed by more) and run with sampled ignore-unknown and allowed-rules options; a monitor computes "
  "the verdict in proof order (first failing step, holey, valid, no empty clause) and compares verdict and failing step. Distinct = distinct "
  "(options, proof) texts.")
P("C15", "Correct generated proofs with nested subproofs are edited: scope-preserving edits (identifiers reused in disjoint subproofs or after closing, "
  "odd and empty symbols, quoted spellings, relative discharge names) must stay accepted; scope-breaking edits (citing undefined, later, own, "
  "closed-subproof identifiers, duplicates, unclosed, empty or assumption-closed subproofs, undischarged or wrongly discharged assumptions, variables used "
  "outside their anchor, binder or let) must be rejected. Distinct = distinct proof texts.")
P("C16", "Problems with 1-4 random assertions (n-ary Boolean and arithmetic operators, chains, quantifiers, lets; named, in check-sat-assuming, next to "
  "comments, strings and options that look like assertions) and one assumption: identical, with equalities flipped, with operators expanded, renamed, "
  "mutated, another formula. The first kinds must be accepted in normal mode, whatever is accepted must evaluate like some assertion in sampled "
  "models, strict mode may only accept identical terms; local assumptions are free. Distinct = distinct (mode, problem, proof) texts.")
P("C17", "Every instance of the workloads of C01-C09, C11 and C13-C16 (correct, mutated and rejected proofs of every rule family, holes, subproofs), plus proofs "
  "of 2-8 nested anchors whose assignments build on each other, is checked sequentially and then in parallel with 1-33 threads, under the schedules of the "
  "real scheduler and under random assignments of commands to threads, with delays injected at allocations; the verdicts (valid, holey, error) must be "
  "equal. A watchdog reports runs that do not end. Distinct = distinct (threads, schedule kind, proof).")
P("C18", "The schedules of the real scheduler for proofs with random subproof trees (depth up to 40, up to 300 commands, equal, zero and large weights) and for the "
  "workloads of C01, C07 and C14-C16, with 1-64 threads, are walked with the real schedule iterator and compared with the proof tree: every step and "
  "assumption once, increasing order per thread, the anchors around each command opened before and only those, premises resolving to the right commands, "
  "closing steps recognised, and the context usage counts equal to the number of threads that open each context. Distinct = distinct (threads, proof).")
P("C19", "The parallel checker on the workloads of C17 with 2-12 threads and schedules that share contexts between threads, compiled with ThreadSanitizer "
  "(standard library included), with delays injected at allocations; the thorough tier also runs them under AddressSanitizer. Any sanitizer report, death of the process, or run "
  "that does not end within 60 s is a violation. A deliberate race is run first and must be reported. Distinct = distinct (threads, schedule kind, proof).",
  sanitize=lambda tier: ["thread"] if tier == "quick" else ["thread", "address"])
P("C20", "Random proofs made of the pieces the elaborator rewrites (premises up to order of equalities and nesting of operators, cong, trans, "
  "eq_congruent and eq_transitive with flipped, repeated and superfluous premises, instantiation and reflexivity up to renaming, resolution without "
  "pivots, nested subproofs, ids the elaborator itself would make up) and the workloads of C01-C16 that are accepted, elaborated with the default pipeline "
  "or random sequences of passes: no panic, every clause proved before is still proved, the result is accepted (holey only if it was), in strict mode "
  "after the default pipeline, both directly and after printing (with and without sharing) and parsing. Distinct = distinct elaborated proofs.")
P("C21", "Documents with 1-3 delegated steps (lia_generic, all_simplify, rare_rewrite; clauses valid or not, with needed, unneeded and repeated literals; at the top or inside one or two subproofs), elaborated with "
  "random pipelines and a stand-in for the solver that is missing, a directory, not executable, fails, is killed, times out, answers sat/unknown/error/garbage/nothing, gives truncated, cut, edited, swapped, shortened, unjustified, "
  "foreign, holey or unreadable proofs, does not read its input, or answers rightly (with assumptions in any order, missing or repeated, nested subproofs, clashing names, steps after the conclusion). Monitors: what the solver was asked is "
  "exactly the negated clause over the problem's prelude; its arguments are the ones given; a right answer is used and the result checks, as it is and printed, and still concludes the delegated clause; any other answer leaves the step "
  "declared and the result never valid; now and then the same through the command line. Distinct = distinct documents with their answers.", cli=True)
P("C22", "Random well-typed problems and proofs over the whole term language (all operators, sorts of every kind, binders, lets, named terms, definitions, "
  "anchors, arguments, nested subproofs; names that need quoting, look like keywords, literals or generated names; strings with every escape) under random "
  "parser options, and the workloads of C01-C16, are parsed, printed with and without sharing, parsed again in the same pool (must be the same objects) "
  "and in a new one (must print alike); problems and single terms likewise. Distinct = distinct printed proofs.")
P("C23", "Proofs from the workloads of C01-C16 and from generators of deeply nested, repeated-id, diamond-shaped and long-chain proofs are sliced at steps of every "
  "kind and depth with distances from 0 to the largest; the result is compared command by command with an independent model (target and everything within the "
  "distance kept unchanged, the next layer present, enclosing subproofs kept, nothing else real, problem asserts exactly the assumptions), checked directly and "
  "after printing (accepted with holes when the original is; rejected at the same step when the sliced step is the wrong one). Distinct = distinct slices.")
P("C24", "Deep, wide and long inputs (nested terms, thousands of commands, huge numbers and strings); every rule on random well-sorted clauses, arguments, premises and "
  "odd terms of all sorts; byte- and token-level corruptions of generated documents (problem, proof and rewrite files, invalid UTF-8 included); and proofs of the "
  "workloads of C01-C16 with rules swapped, terms, premises and arguments replaced. Each is parsed, checked in both modes and in parallel, sliced, printed and "
  "elaborated (overflow checks and debug assertions on); monitors: no panic or process death, a watchdog for termination, error positions inside the text and not "
  "before the corrupted command, exact position of injected illegal characters, reported step and rule exist. Distinct = distinct inputs.")
P("C25", "Every operator (119) applied to every tuple of up to two arguments over 13 sorts, random tuples of 3-5, indices of every kind (too large, zero, negative, "
  "not numerals), declared functions, literals and undeclared symbols as heads, in four parser modes; and random terms over random signatures (all binders, "
  "lets, sorts, definitions) with 0-2 mutations (another subterm, argument, index, head, sort, symbol), used as assertions, assumptions, clauses, arguments, "
  "definitions and anchor assignments. An independent typechecker says which must be accepted and which refused; the sort of every subterm of accepted ones "
  "is compared with the one it computes. Distinct = distinct inputs.")
P("C26", "Random documents over random signatures with quoted names of every kind: sort definitions with parameters named like other sorts, define-fun and define-fun-rec "
  "(nested, with parameters and bound variables named like anything), named terms, lets and shadowing binders, definitions inside proofs and subproofs, shared subterms, "
  "meaningless annotations, with and without let expansion and application of definitions, in integer and real-only logics, and hostile uses below binders of the same names; "
  "and literals of every kind (escapes, up to 140 bits, 55 digits). An independent expander gives the tree without bound names each assertion, clause, argument "
  "and anchor value means, which is compared with what was parsed. Distinct = distinct documents and literals.")
P("C27", "Random histories of constructions over random documents (the whole term language): terms parsed (twice, by different parsers), rebuilt from their leaves, imported from another pool "
  "(also with other variable names), added directly, and made by substitution; first in one pool, then in context pools and local pools that share it, interleaved or from 2-8 threads with injected "
  "delays. Every term (and subterm) a view returns is compared with an independent structural key: one object per key and view, one object in all views for terms of the global pool and of the "
  "shared context pool; equality, hashing and identity agree; sorts (against an independent typechecker) and free variables (computed independently) are right, stable and objects of the view. "
  "Distinct = distinct documents with histories.")
