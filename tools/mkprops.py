#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step by hand with MANIFEST.json)."""
import json, os
P=[]
def p(id,title,statement,over,qt,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**kw))
    P.append(d)
R="carcara/src/checker/rules/"
UT="The unit tests check a fixed, hand-written list of instances per rule; a guard that is wrong only for other arities, argument orders, repeated literals or sorts is not sampled."

p("C01","Clausal rules (resolution family) are sound and accept their instances",
 "A step justified by a clausal rule (resolution and its strict/pivot forms, contraction, reordering, weakening, tautology) is accepted only if its conclusion clause is entailed by its premise clauses. Every genuine instance of such a rule (a chain of binary resolutions on stated or inferable pivots, a permutation, a removal of duplicates, an extension) is accepted.",
 ["inputs"],"all premise clauses, conclusions, pivots, repeated premises, multiply-negated and constant literals",UT,
 ["carcara/src/resolution.rs",R+"resolution.rs",R+"extras.rs"],[("greedy pivot inference","resolution.rs greedy_resolution"),("unit-propagation fallback","checker/rules/resolution.rs rup_resolution"),("pivot-directed resolution","checker/rules/resolution.rs apply_generic_resolution")])
p("C02","Boolean connective and clausification rules are sound and complete",
 "A step by a Boolean tautology, introduction or clausification rule (and/or/not/xor/implies/equiv/ite positive and negative forms, their premise forms, connective definitions, ite introduction, conjunction introduction, n-ary and distinct elimination, Boolean-function elimination) is accepted only if its conclusion follows from its premises in every interpretation. Every instance of the rule's documented schema is accepted, whatever terms fill it.",
 ["inputs"],"all instantiations of the rule schemas and all near-misses of them, over any arity and nesting",UT,
 [R+"tautology.rs",R+"clausification.rs",R+"extras.rs"],[("schema matching","rules/tautology.rs"),("clausification","rules/clausification.rs"),("boolean-function elimination","clausification.rs apply_bfun_elim")])
p("C03","Simplification rewrites preserve meaning and accept their documented cases",
 "An equality accepted as a simplification rewrite (ite/eq/and/or/not/implies/equiv/bool/quantifier, arithmetic sum/product/minus/division/comparison, AC and ACI normalisation) holds in every interpretation. Every documented rewriting of a term by that rule is accepted.",
 ["inputs"],"all terms rewritten, including chains of rewrites, flipped equalities, duplicate and neutral arguments, mixed constants",UT,
 [R+"simplification.rs",R+"extras.rs"],[("fixed-point rewriting","simplification.rs generic_simplify_rule"),("n-ary and/or normalisation","simplification.rs generic_and_or_simplify"),("sum/product constant folding","simplification.rs generic_sum_prod_simplify_rule"),("AC/ACI normalisation","simplification.rs apply_ac_simp / apply_aci_simp")])
p("C04","Linear and polynomial arithmetic rules are sound and accept valid instances",
 "A step by an arithmetic rule (Farkas-style linear clauses with integer strengthening, tautologies, totality, disequality, multiplication by signed factors, polynomial normalisation and scaled relations over integers, reals and bit-vectors) is accepted only if its clause is true for every valuation of the right sort. A clause whose stated coefficients combine to a contradiction of its negation, and an equality of terms with equal polynomial normal form, is accepted.",
 ["inputs"],"all linear clauses, coefficient arguments, integer and real variables, strict and weak relations; all polynomial terms",UT,
 [R+"linear_arithmetic.rs",R+"polynomial.rs",R+"extras.rs"],[("Farkas combination and strengthening","linear_arithmetic.rs la_generic / strengthen"),("linear combinations","linear_arithmetic.rs LinearComb"),("polynomial normal form","polynomial.rs Polynomial")])
p("C05","Equality rules (transitivity, congruence, symmetry) are sound and complete",
 "A step by reflexivity, symmetry, transitivity or congruence (premise form, clausal form, predicate form, higher-order form) is accepted only if the conclusion is a consequence of the equations used. Chains in any order and orientation, and congruences with any mix of justified and syntactically equal arguments, are accepted.",
 ["inputs"],"all equation chains and congruences over uninterpreted functions, interpreted operators, indexed operators and functional values",UT,
 [R+"transitivity.rs",R+"congruence.rs",R+"reflexivity.rs",R+"extras.rs"],[("chain search","transitivity.rs find_chain"),("argument justification","congruence.rs check_cong / generic_congruent_rule")])
p("C06","Quantifier rules are sound and accept their instances",
 "A step by a quantifier rule (instantiation, joining, removal of unused variables, clausal form under a universal quantifier, miniscoping, quantifier duality) is accepted only if its conclusion is valid, in particular with shadowed, captured or same-named variables. Instances that respect scoping are accepted.",
 ["inputs"],"all nestings, shadowings and name reuse of bound variables, all instantiating terms",UT,
 [R+"quantifier.rs","carcara/src/ast/substitution.rs","carcara/src/ast/pool/mod.rs",R+"tautology.rs"],[("instantiation","quantifier.rs forall_inst"),("prenex and clausal form","quantifier.rs negation_normal_form / prenex_forall"),("free variables","pool/mod.rs free_vars")])
p("C07","Context-introducing subproofs conclude only valid statements",
 "When a subproof that introduces assumptions or variable bindings/assignments (assumption discharge, binder congruence, let elimination, one-point, skolemisation, binder-let congruence) is accepted without holes, the closed conclusion of its last step is entailed by what was available outside it, under all nestings. Correct subproofs of these kinds are accepted.",
 ["programs","inputs"],"all nestings of subproofs, binding/assignment lists, shadowing, premises taken from inside or outside",UT,
 [R+"subproof.rs",R+"reflexivity.rs","carcara/src/ast/context.rs"],[("subproof closing rules","rules/subproof.rs"),("context substitution stack","ast/context.rs"),("reflexivity modulo context","rules/reflexivity.rs refl")])
p("C08","Bit-blasting steps state true bit-level equivalences",
 "An accepted Boolean or pseudo-Boolean bit-blasting step is true for every value of its bit-vectors, at every width. The canonical bit-level encoding of each supported operator is accepted at every width and arity.",
 ["inputs"],"all widths, arities, operand shapes (variables, constants, already blasted terms) and all single-point corruptions of the encodings",UT+" Widths other than the few sampled are never run.",
 [R+"bitvectors.rs",R+"pb_blasting.rs"],[("Boolean bit-blasting","rules/bitvectors.rs"),("pseudo-Boolean bit-blasting","rules/pb_blasting.rs")])
p("C09","String and regular-expression rules are sound",
 "A step by a string or regular-expression rule is accepted only if its conclusion is true for every value of the string variables that makes its premises true. The documented conclusions of these rules are accepted.",
 ["inputs"],"all concatenations, constants, regular expressions and premise combinations, and their corruptions",UT,
 [R+"strings.rs"],[("concatenation rules","rules/strings.rs concat_*"),("regular-expression unfolding","rules/strings.rs re_*")])
p("C10","Cutting-planes steps preserve 0-1 solutions",
 "Every 0-1 assignment that satisfies the premises of an accepted cutting-planes step (addition, multiplication, division, saturation, literal axiom, normalisation) satisfies its conclusion. Correctly computed results are accepted.",
 ["inputs"],"all pseudo-Boolean constraints: any coefficients, negated literals, repeated literals, negative or zero constants and arguments",UT,
 [R+"cutting_planes.rs"],[("constraint arithmetic","rules/cutting_planes.rs"),("normal form","rules/cutting_planes.rs cp_normalize")])
p("C11","Clausal refutation certificates (DRUP/DRAT) are only accepted if correct",
 "A DRUP or DRAT step is accepted only if its conclusion follows from its premises (for the empty clause: only if the premises are unsatisfiable). A certificate whose conclusion is present at the end and in which every added clause follows by unit propagation from the clauses then present is accepted; so is a DRAT certificate for the empty clause in which every added clause either does so or has only such resolvents on its first literal.",
 ["inputs","histories"],"all premise sets, sequences of clause additions and deletions, including unit deletion and repeated clauses",UT,
 ["carcara/src/drup.rs",R+"drup.rs"],[("unit propagation with deletions","drup.rs check_drup")])
p("C12","Constant evaluation agrees with SMT-LIB semantics",
 "Whenever a step justified by evaluating a term (the evaluation rule, integer remainder simplification) is accepted, the two sides are equal in the SMT-LIB semantics of integers, reals, Booleans and bit-vectors of every width. Terms whose value the evaluator supports are accepted with their SMT-LIB value.",
 ["inputs"],"all operators at all constant arguments: signs, zero divisors, width boundaries, nested terms","The evaluator has almost no tests; the existing ones cover a handful of constants.",
 ["carcara/src/ast/evaluate.rs",R+"extras.rs"],[("constant folding","ast/evaluate.rs"),("remainder simplification","extras.rs mod_simplify")])
p("C13","Rewrite-rule (RARE) steps are exact instances of the named rewrite",
 "A step citing a user-supplied rewrite rule is accepted only if its conclusion is the rule's conclusion under the given arguments (lists spliced in place) and each premise of the rule is discharged by the corresponding step premise. Such exact instances are accepted.",
 ["inputs","configurations"],"all rewrite files (plain and list parameters, premises, definitions) and all arguments","Tests sample two dozen instances of a few rewrite rules.",
 ["carcara/src/rare/mod.rs",R+"rare.rs","carcara/src/parser/rare/mod.rs"],[("instance checking","rules/rare.rs check_rare"),("list splicing","ast/rare_rules.rs, rare/mod.rs")])
p("C14","The overall verdict is honest about completeness, holes and rule options",
 "A proof is reported valid only if every step is justified by a known rule, no step or assumption is a hole, and the empty clause is derived outside every subproof; a proof that uses holes, ignored unknown rules or allowed rules is reported holey and never valid, and anything else is an error. Options that tolerate unknown or listed rules never turn an erroneous known-rule step into an accepted one.",
 ["programs","configurations"],"all proofs assembled from correct, incorrect, hole, unknown-rule and allowed-rule steps at all depths, under all checker options","Tests never combine options with nested structure and mixed-in errors.",
 ["carcara/src/checker/mod.rs","carcara/src/checker/shared.rs","carcara/src/checker/parallel/mod.rs"],[("verdict accounting","checker/mod.rs check_impl, checker/shared.rs check_step_core"),("rule lookup","checker/shared.rs get_rule_shared")])
p("C15","Premises refer only to earlier, visible steps, and local assumptions stay local",
 "A proof is rejected if a step cites an identifier that is undefined, defined later, or local to a closed subproof, if an identifier is defined twice in scope, if a subproof is unclosed or closed without discharging its assumptions, or if a term uses a variable outside the scope that binds it. Well-scoped proofs, including reuse of names in disjoint subproofs, are accepted.",
 ["programs"],"all shapes of nested subproofs and references between their steps","Only a few malformed proofs are tested.",
 ["carcara/src/parser/mod.rs","carcara/src/checker/shared.rs"],[("step identifier scoping","parser/mod.rs parse_proof / HashMapStack"),("assumption discharge","checker/shared.rs check_discharge_shared")])
p("C16","Proof assumptions must be problem assertions",
 "A top-level assumption is accepted only if it is semantically equal to some assertion of the problem, up to the documented tolerances (reordered equalities and n-ary expansion of associative operators), and only syntactic identity is tolerated in the strict mode for elaborated proofs. An assumption that differs from an assertion only by those tolerances is accepted in the normal mode.",
 ["inputs"],"all pairs of assertion and assumed term, including deep, shared and adversarially similar ones","Comparison tests sample a few pairs of small terms.",
 ["carcara/src/checker/shared.rs","carcara/src/ast/polyeq.rs"],[("assumption matching","checker/shared.rs check_assume_shared"),("tolerant comparison","ast/polyeq.rs Polyeq")])
p("C17","Parallel checking gives the sequential verdict",
 "For every problem and proof, every thread count and every thread schedule, parallel checking terminates and gives the same verdict as sequential checking: valid, holey, or an error. This includes deeply nested contexts, holes in any thread, errors in any thread and more threads than steps.",
 ["schedules","programs","configurations"],"all proofs x thread counts x interleavings","Tests run a few small proofs once, with whatever interleaving occurs.",
 ["carcara/src/checker/parallel/mod.rs","carcara/src/checker/parallel/scheduler.rs","carcara/src/ast/context.rs","carcara/src/ast/pool/advanced.rs"],[("work distribution","parallel/scheduler.rs Scheduler::new"),("worker loop and early stop","parallel/mod.rs"),("shared contexts","ast/context.rs ContextStack"),("shared term pools","ast/pool/advanced.rs")])
p("C18","Parallel scheduling hands every step to exactly one thread, in order",
 "For every proof and thread count, the schedules together contain every command exactly once, preserve proof order within each thread, keep every step inside the subproof context it needs (opened before, closed after, with matching usage counts), and place no step before what the thread needs to check it.",
 ["programs","configurations"],"all proof shapes x thread counts","No test inspects the schedules.",
 ["carcara/src/checker/parallel/scheduler.rs"],[("load balancing and context bookkeeping","parallel/scheduler.rs")])
p("C19","Parallel checking is free of data races and undefined behaviour",
 "No execution of the parallel checker, on any proof and thread count, performs a data race, an out-of-bounds or use-after-free access, or deadlocks.",
 ["schedules"],"all interleavings of worker threads","Ordinary tests cannot observe races.",
 ["carcara/src/checker/parallel/mod.rs","carcara/src/ast/pool/advanced.rs","carcara/src/ast/context.rs","carcara/src/ast/rc.rs"],[("lock protocol","ast/pool/advanced.rs, ast/context.rs"),("shared reference counting","ast/rc.rs")])
p("C20","Elaboration produces an equivalent proof that passes strict checking",
 "For every accepted proof, elaborating it (with any pipeline of elaboration passes) terminates and yields a printed proof of the same problem that the checker accepts, that derives the empty clause from assumptions among the original ones, and that is holey only if the original was. With the full default pipeline the result is accepted in the strict mode for elaborated proofs, and a resolution step with pivots, none of whose eliminated literals comes back in a later premise, concludes just what its premises leave when each pivot is removed once (repeated literals are contracted in between).",
 ["programs","configurations"],"all accepted proofs x elaboration pipelines","Tests elaborate the sample proofs only, with one pipeline.",
 ["carcara/src/elaborator/mod.rs","carcara/src/elaborator/polyeq.rs","carcara/src/elaborator/uncrowding.rs","carcara/src/elaborator/resolution.rs","carcara/src/elaborator/reordering.rs","carcara/src/elaborator/transitivity.rs","carcara/src/elaborator/congruence.rs"],[("elaboration passes","elaborator/*.rs"),("proof graph conversion","ast/node.rs")])
p("C21","External solver failures never become accepted reasoning",
 "When a step is delegated to an external solver, a solver that crashes, cannot be started, answers sat, unknown, an error or garbage, or returns a proof that does not check never leads to the step being replaced by an unjustified derivation; the result is either an error or a proof that still declares the hole. A correct solver answer is turned into a derivation that passes checking.",
 ["fault_sequences"],"all solver outputs, exit codes, truncations and failures to launch, at any step","No test runs the solver interface with faults.",
 ["carcara/src/elaborator/lia_generic.rs","carcara/src/elaborator/hole.rs","carcara/src/checker/lia_generic.rs"],[("solver invocation","elaborator/lia_generic.rs, elaborator/hole.rs")])
p("C22","Printing then parsing is the identity",
 "Printing any parsed problem, proof or term, with or without term sharing, gives text that parses again to structurally the same object, whatever its symbols, string contents, constants and nesting. Printing is deterministic, and printing the reparsed object (without sharing) gives the same text.",
 ["inputs","configurations"],"all terms and proofs, quoted symbols, escapes, indexed operators, binders, subproofs; sharing on/off","Printer tests cover a few terms; most syntax is never round-tripped.",
 ["carcara/src/ast/printer.rs","carcara/src/parser/mod.rs","carcara/src/parser/lexer.rs"],[("printer with sharing","ast/printer.rs"),("reader","parser/mod.rs, parser/lexer.rs")])
p("C23","Slicing isolates a step faithfully",
 "Slicing a proof at any non-assumption step succeeds and yields a proof that is accepted (with holes) whenever the original is, contains the chosen step with the same conclusion, rule and arguments and with all its premises, whose last step depends on the chosen one, and whose sliced problem asserts what its assumptions need. Cutting at a larger distance keeps at least as many real steps.",
 ["programs","configurations"],"all proofs x steps x distances x nesting","Slicing is barely tested.",
 ["carcara/src/slice.rs"],[("slice construction","slice.rs slice / get_slice_body")])
p("C24","No input makes the tool crash, hang or misreport",
 "Any byte sequence given as problem, proof or rewrite file is answered with a verdict or an error value that carries a position within the input; the position and the text it is attributed to are where the problem is. Parsing, checking (sequentially or in parallel), elaborating, slicing and printing never panic, overflow, abort or fail to terminate, whatever rules, terms, premises and arguments a proof that parses has, and whatever a message about it has to show. (Running time may grow with the size of terms written out without sharing.)",
 ["inputs"],"all byte sequences; all parsed proofs with any rule on any terms","Tests feed only well-formed or slightly malformed files.",
 ["carcara/src/parser/mod.rs","carcara/src/parser/lexer.rs","carcara/src/checker/rules/mod.rs"],[("lexing and parsing","parser/*.rs"),("rule argument handling","checker/rules/*.rs")])
p("C25","Only well-sorted terms are accepted, and sorts are computed correctly",
 "A term is accepted by the front end exactly when it is well-sorted under the documented typing of its operators and the declarations in scope, and the sort it is given is the one typing prescribes. Mis-sorted applications, wrong arities, undeclared symbols and out-of-range indices are rejected.",
 ["inputs"],"all operators x argument sorts x arities x indices","Tests check a handful of ill-sorted terms.",
 ["carcara/src/parser/mod.rs","carcara/src/ast/pool/mod.rs"],[("operator typing","parser/mod.rs make_op / make_indexed_op"),("sort computation","ast/pool/mod.rs compute_sort")])
p("C26","Definitions, lets and names are expanded without changing meaning",
 "Function definitions, sort definitions, let-bindings (when expanded), named terms and sharing annotations in problem or proof are replaced by exactly the meaning they abbreviate, under every nesting and shadowing and with every expansion option. Literals (numerals, decimals, hexadecimal, binary, strings with escapes, quoted symbols) denote their exact value.",
 ["inputs","configurations"],"all definitions, nested lets, shadowing, escapes, large literals, expansion options","Parser tests sample simple definitions and lets.",
 ["carcara/src/parser/mod.rs","carcara/src/parser/lexer.rs","carcara/src/ast/substitution.rs"],[("definition expansion","parser/mod.rs"),("literal lexing","parser/lexer.rs")])
p("C27","Term pool: structural equality is pointer equality, everywhere",
 "Two terms built in the same pool are the same object exactly when they are structurally equal, in whatever order and through whichever interface (parser, builders, local pools of worker threads) they were built, and each pool view reports the same sort and free variables for a term. Equality, hashing and ordering of shared terms agree with that identity.",
 ["histories","schedules"],"all sequences of term constructions across pool views","Tests never compare pool views.",
 ["carcara/src/ast/pool/mod.rs","carcara/src/ast/pool/advanced.rs","carcara/src/ast/pool/storage.rs","carcara/src/ast/rc.rs"],[("hash-consing","ast/pool/storage.rs"),("layered pools","ast/pool/advanced.rs")])
p("C28","Substitution, free variables and alpha-equivalence respect binding",
 "Applying a substitution to a term yields a term whose meaning is the original's under the substituted values, never capturing a variable, for all binders; reported free variables are exactly those the meaning may depend on; and terms are reported alpha-equivalent only if they mean the same and always if they differ only in bound names.",
 ["inputs"],"all terms with nested and shadowing binders and lets, all simultaneous substitutions, all binder names","Tests sample about twenty substitutions.",
 ["carcara/src/ast/substitution.rs","carcara/src/ast/pool/mod.rs","carcara/src/ast/polyeq.rs"],[("capture-avoiding substitution","ast/substitution.rs"),("free variables","ast/pool/mod.rs free_vars"),("alpha-equivalence","ast/polyeq.rs")])
p("C29","Strict-mode acceptance and statistics collection never change the verdict",
 "A proof accepted in the strict mode for elaborated proofs is accepted in the normal mode with the same verdict; collecting statistics, and repeating a run (on the same checker, pool or from the start), never changes the verdict, the first failing step or the elaborated output.",
 ["programs","configurations"],"all proofs x {normal, strict} x {with, without statistics} x repetitions","Tests never compare runs under different options.",
 ["carcara/src/checker/mod.rs","carcara/src/lib.rs","carcara/src/checker/shared.rs"],[("option handling","checker/mod.rs, checker/shared.rs"),("statistics variants","checker/mod.rs check_with_stats")])
p("C30","The command line reports what the library decided",
 "For every command and option combination, the command line prints valid or holey and exits successfully exactly when the library accepts; for rejected proofs and input it cannot read it never does, but fails with a message that says what is wrong where (check prints invalid). The options mean what the help says. Elaborated, sliced and parsed outputs are themselves readable, and those the library computes.",
 ["configurations","inputs"],"all sub-commands x options x accepted, holey, rejected, malformed and missing inputs","The command line has no tests.",
 ["cli/src/main.rs","cli/src/path_args.rs","cli/src/error.rs"],[("command dispatch and exit status","cli/src/main.rs")])
p("C31","Benchmark statistics conserve what was measured",
 "Aggregated statistics over any set of runs and steps, merged in any order and grouping, count every step exactly once under its rule and run, and report totals, means, extremes and standard deviations equal to those of the individual measurements; the detailed and the streaming collectors agree. What the checkers (sequential and parallel) and the benchmark command record is exactly what they checked, whatever happens to other files.",
 ["histories","schedules"],"all sequences of measurements and all merge orders","Metrics tests sample one random distribution.",
 ["carcara/src/benchmarking/mod.rs","carcara/src/benchmarking/metrics.rs","cli/src/benchmarking.rs"],[("metric accumulation and merging","benchmarking/metrics.rs"),("result combination","benchmarking/mod.rs")])
p("C32","Generated arithmetic sub-problems state exactly the step's negation",
 "For every integer-arithmetic step outside of subproofs that is delegated for external solving, the generated problem is a well-formed SMT-LIB script (as solvers read it) whose assertions are unsatisfiable exactly when the step's clause is valid, with the declarations it needs, with or without sharing.",
 ["inputs","configurations"],"all clauses with delegated steps, quoted names, nested terms, sharing on/off","Not tested.",
 ["carcara/src/lib.rs","carcara/src/ast/printer.rs"],[("problem generation","lib.rs generate_lia_smt_instances, ast/printer.rs write_lia_smt_instance")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P:
    jsonschema.validate(d,s); assert len(d["title"])<=80,d["id"]
print(len(P))
