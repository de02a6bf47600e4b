#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

BV="src/bv.rs"; LANG="src/language.rs"; RS="src/enumo/ruleset.rs"; RULE="src/enumo/rule.rs"
SCH="src/enumo/scheduler.rs"; WK="src/enumo/workload.rs"; FI="src/enumo/filter.rs"; PA="src/enumo/pattern.rs"
SX="src/enumo/sexp.rs"; RU="src/recipe_utils.rs"; LOG="src/logger.rs"; UT="src/util.rs"; LIB="src/lib.rs"

p("C01","Bitvector operations are exact modular arithmetic at every width",
 "For every width N from 1 to 128 and all operands, add, subtract, multiply, negate, not, and, or and xor agree with the integers modulo 2^N, and left and right shifts are logical shifts that give 0 once the amount reaches N. Every value obtained by constructing, converting, parsing (decimal or #b binary), sampling or computing lies in [0, 2^N), the named constants (zero, all ones, -1, signed minimum and maximum) have their two's-complement values, and printing a value and parsing it back gives the same value. Text that is not a number in either notation is reported as an error, never a crash.",
 ["inputs","configurations"],"all widths 1..128, all operand values, all literal texts",
 "The one unit test looks at a handful of 4-bit values; no test looks at shifts, other widths, parsing or sampling.",
 [BV],[("masking constructor BV::new and the wrapping_*/my_sh* operations",BV),("FromStr, Display, From, Standard sampling",BV)],
 ["ruler::BV<N> public operations"])
p("C02","Bitvector rule validation never lies",
 "For every bitvector width and every pair of patterns over the bitvector operators, variables and literals of any magnitude that fits the width, a Valid verdict means that the two sides are equal under every assignment of values to the variables, and an Invalid verdict means that some assignment separates them. A rule counts as valid only on a Valid verdict; Unknown is never treated as valid.",
 ["inputs","configurations"],"all widths, all pairs of bitvector patterns, all literals",
 "Tests only see the verdicts that happen to arise while 4- to 128-bit recipes run, with literals 0 and 1, and assert no verdict.",
 [BV,LANG,RULE],[("impl_bv! validate: translation to SMT and verdict mapping",BV),("Rule::is_valid",RULE),("SynthLanguage::instantiate",LANG)],
 ["SynthLanguage::validate, Rule::is_valid"])
p("C03","Materialised workloads carry exact characteristic vectors",
 "Turning a workload into an e-graph represents every one of its terms, and the characteristic vector of each term's class is the term evaluated sample by sample on the variables' sampled values, undefined exactly where the term is undefined; for bitvectors each operator evaluates to the corresponding modular operation. The cross-product helper used for sampling gives each of n variables a column such that every n-tuple of sample values occurs in exactly one row; the bitvector domains use it with a duplicate-free sample set that contains 0, 1, all-ones and the signed minimum and maximum. A workload that mentions no variable is materialised like any other.",
 ["inputs","configurations"],"all workloads over a domain, any number of variables, any order of terms",
 "Tests materialise a few fixed recipe workloads and never compare a vector with an independent evaluation.",
 [WK,LANG,BV,UT],[("Workload::to_egraph",WK),("SynthAnalysis::make",LANG),("impl_bv! eval / initialize_vars",BV),("self_product, map!",UT)],
 ["egraph[id].data.cvec, egraph.analysis.cvec_len"])
p("C04","Facts recorded on e-classes stay true and tight as classes merge",
 "After any sequence of additions, semantically sound merges and rebuilds, every class's characteristic vector equals the value of each represented term wherever that term is defined and is defined wherever some e-node of the class is, and its interval contains every value the class takes and is at least as tight as each e-node's own interval. Each class's recorded representative is a term of that class whose size is minimal among terms built from allowed operators. A class whose interval has shrunk to one value contains that constant.",
 ["inputs","histories"],"all sequences of insertions, unions and rule applications on e-graphs of partial and total domains",
 "Tests check the interval arithmetic of one domain on fixed values; merging order, partial vectors and representatives are never inspected.",
 [LANG,LIB],[("SynthAnalysis::{make,merge,modify}",LANG),("ExtractableAstSize",LIB),("Interval",LIB)],
 ["egraph.classes() data and nodes after rebuild"])
p("C05","Equality saturation merges only what its rules justify",
 "Whatever the scheduler, limits, ruleset and input e-graph, two terms end up in the same class only if their equality follows from the equalities already in the input by congruence and instances of the given rules; with semantically valid rules every class therefore stays semantically homogeneous. A rule application never merges a class that is undefined on every sample with anything: matches whose matched class or whose instantiated right side is nowhere defined are skipped.",
 ["inputs","programs","configurations"],"all rulesets, input e-graphs, schedulers and limits, total and partial domains",
 "Tests check only that some expected rules are derivable at the end of a recipe; an extra, unjustified merge shows in none of them.",
 [RULE,SCH],[("Rhs::apply_one guards, apply_pat",RULE),("Scheduler::run_internal",SCH),("Signature::is_defined",LANG)],
 ["classes of the e-graph returned by Scheduler::run"])
p("C06","Equality saturation preserves its input, and compression adds nothing",
 "Running any scheduler leaves the e-graph it was given unchanged, and in the result every input term is still represented and every input equality still holds. The compress scheduler, in addition, returns only terms the input could already represent: it never adds an e-node or a class (apart from constants that the domain's own constant folding introduces for the merged classes), it only merges input classes, and it merges exactly those the simple scheduler with the same limits would relate, closed under congruence.",
 ["inputs","programs","configurations"],"all input e-graphs, rulesets, limits, schedulers",
 "Recipes only look at the final rules; nothing compares the e-graph before and after.",
 [SCH],[("Scheduler::Compress: clone, run, replay unions",SCH),("Scheduler::Simple / Saturating on a clone",SCH)],
 ["input and output e-graphs of Scheduler::run"])
p("C07","Schedulers find everything within their limits and stop at them",
 "With node and match limits out of reach, the simple scheduler with iteration limit k relates exactly the terms that k rounds of matching every rule everywhere and then applying all matches relate (fewer rounds only if nothing changes any more), and the saturating scheduler relates exactly what k alternations of full saturation under the saturating rules and one round of the other rules, followed by a last saturation, relate. Once the e-graph has more nodes than the node limit, no further round of (non-saturating) rules starts, and one round applies at most match-limit matches of each rule.",
 ["inputs","programs","configurations"],"all rulesets, input e-graphs, iteration/node/match limits",
 "Tests use three fixed limit presets and assert only derivability of a few rules.",
 [SCH],[("MatchScheduler, get_runner, Saturating loop",SCH)],
 ["classes and size of the e-graph returned by Scheduler::run"])
p("C08","A rule classified as saturating never adds a class",
 "If a rule is classified as saturating, then applying it anywhere in any e-graph of a domain with total operators never increases the number of e-classes. A rule whose application to an e-graph holding just its own left side increases the number of classes is never classified as saturating, and a rule whose right side needs no new class there always is.",
 ["inputs","programs"],"all rules and all e-graphs",
 "No test looks at the classification.",
 [RULE],[("Rule::is_saturating",RULE)],["Rule::is_saturating, number_of_classes before/after"])
p("C09","Derivability verdicts are exact",
 "A ruleset is reported to derive a rule exactly when, treating the rule's variables as opaque constants, saturating-scheduler equality saturation within the limits makes the two sides equal, starting from the left side alone or from both sides according to the requested mode. In particular what valid rules derive is valid, a rule in the set is derivable within one iteration, and what is derivable from the left side alone is derivable from both sides when no node or match limit is hit. Deriving a whole ruleset splits it into derivable and not derivable rules, each rule in exactly one part, consistently with the single-rule verdicts; the printed derivability report gives their numbers and lists the missing rules.",
 ["inputs","programs","configurations"],"all rulesets, target rules, derive modes, limits",
 "One test checks three fixed derivations; the recipes assert that a few expected rules are derivable, never that a rule is not.",
 [RS,SCH],[("Ruleset::can_derive, derive",RS),("Scheduler::run_derive early stop",SCH)],["can_derive / derive results"])
p("C10","Cvec matching proposes exactly the compatible pairs",
 "For an e-graph whose classes carry characteristic vectors, cvec matching proposes, for every pair of distinct classes whose vectors never differ at a sample where both are defined and agree on at least one such sample, a candidate rule in each direction that is well formed (no new variable on the right), and proposes nothing for any other pair. Each side of a candidate is a smallest term of its class, up to one consistent renaming of variables.",
 ["inputs"],"all e-graphs with vectors, including partial ones",
 "Recipes compare only the final ruleset; a missed or spurious candidate is usually masked by others.",
 [RS],[("Ruleset::cvec_match: first-sample buckets, compare",RS),("add_from_recexprs",RS)],["candidates returned by Ruleset::cvec_match"])
p("C11","Fast cvec matching proposes exactly the identical pairs",
 "For an e-graph whose classes carry characteristic vectors, fast matching proposes, for every pair of distinct classes that are defined on some sample and have identical vectors, a candidate rule in each well-formed direction, and proposes nothing for any other pair. Each side of a candidate is a smallest term of its class, up to one consistent renaming of variables.",
 ["inputs"],"all e-graphs with vectors, including partial ones",
 "Recipes compare only the final ruleset.",
 [RS],[("Ruleset::fast_cvec_match",RS)],["candidates returned by Ruleset::fast_cvec_match"])
p("C12","Candidate extraction proposes exactly the newly merged pairs",
 "Given an e-graph and the result of running rules on it, extraction proposes, for every pair of distinct classes of the first e-graph that are one class in the second and that both have a term made of allowed operators only, a candidate rule in each well-formed direction, and proposes nothing else. Each side of a candidate is a smallest allowed term of its class in the first e-graph, up to one consistent renaming of variables; disallowed operators never appear.",
 ["inputs","programs"],"all e-graph pairs where the second extends the first",
 "Rule-lifting tests look only at whether some expected rules are derivable at the end.",
 [RS,LIB],[("Ruleset::extract_candidates",RS),("ExtractableAstSize",LIB)],["candidates returned by Ruleset::extract_candidates"])
p("C13","Minimisation keeps only valid rules and loses no equality",
 "Every rule minimisation keeps is a candidate that the domain's validator judged valid in that direction (an Invalid or Unknown verdict never lets a rule through) and is not a prior rule; every rule it reports as invalid is a candidate that failed validation. Every candidate that is neither kept nor reported invalid has its two sides merged by the kept and prior rules under the given scheduler. Once a first rule has been kept, no further rule is kept, other than the reverse of one just kept, whose sides the prior rules and the rules kept before it already merge under that scheduler.",
 ["inputs","programs","fault_sequences"],"all candidate sets, priors, schedulers and validator behaviours, including validators that give up",
 "Tests see only the output for a few fixed domains whose validator mostly says Valid.",
 [RS],[("Ruleset::minimize / select / shrink",RS),("Rule::is_valid",RULE)],["minimize results and the sequence of validator calls"])
p("C14","Minimisation examines candidates best first",
 "A rule's score prefers, in this order, more distinct variables, fewer constants, a smaller larger side, a smaller total size, and fewer distinct operators, counting both sides. Minimisation never examines a candidate while a candidate with a strictly better score is still waiting.",
 ["inputs","programs"],"all candidate sets",
 "No test checks the score or the order of selection; a wrong preference yields different but still derivable rules.",
 [LANG,RS],[("SynthLanguage::score",LANG),("Ruleset::select",RS)],["Rule::score; order of validator calls during minimize"])
p("C15","Inferred rulesets are sound and explain their workload",
 "For any workload, prior ruleset and match mode, every rule that rule inference returns is universally valid in the domain and the rules of a single inference run do not repeat prior rules; recursive inference returns its priors and all levels' rules together. If the domain's sampling and validation are exact and limits are not hit, any two workload terms that denote the same function are made equal by the returned and prior rules together, as long as the workload is closed under renaming its variables and the smallest equal form of one uses only variables of the smallest equal form of the other (otherwise no rule can say so).",
 ["inputs","programs","configurations"],"all workloads, priors, metrics, match modes over bitvector, boolean and partial domains",
 "Recipe tests assert counts or derivability of fixed expected rules for one workload per domain; several run tests assert nothing.",
 [RU,RS,SCH,WK],[("run_workload, recursive_rules",RU),("compress, match, minimize pipeline",RS)],["rulesets returned by run_workload / recursive_rules"])
p("C16","Fast-forwarding lifts only justified, allowed rules",
 "For any workload, priors and exploratory rules, every rule that fast-forwarding returns uses allowed operators only, is not a prior rule, and its two sides are made equal by the prior and exploratory rules. Any two allowed workload terms that the exploratory rules relate within the limits (after compression with the allowed priors) are related by the returned rules together with the priors, as long as the workload is closed under renaming its variables and the smallest allowed form of one uses only variables of the smallest allowed form of the other.",
 ["inputs","programs","configurations"],"all workloads, priors, exploratory rulesets, limits",
 "Lifting tests assert derivability of fixed expected rules for four fixed domains.",
 [RU,RS,LANG],[("run_fast_forwarding",RU),("is_allowed_rewrite",LANG),("extract_candidates",RS)],["ruleset returned by run_fast_forwarding"])
p("C17","Workloads denote exactly the terms their construction says",
 "Forcing a workload gives, as a bag, exactly the terms it denotes however it was built: a set gives its terms, appending gives the terms of all parts, and plugging W2 for a name in W1 gives, for each term of W1, one term for every way of independently replacing each occurrence of that name by a term of W2 (the term itself when the name does not occur, nothing when it occurs and W2 is empty), whatever the name looks like. Replaced-in terms are not plugged again, and substituting replaces all occurrences by the same term for each substitute in turn.",
 ["inputs","programs"],"all nestings of set, append, plug and substitute over all terms, names and workloads",
 "Unit tests force a dozen tiny fixed workloads.",
 [WK,SX,RU],[("Workload::{force,plug,append}",WK),("Sexp::plug",SX),("substitute",RU)],["Workload::force"])
p("C18","Filtering keeps exactly the satisfying terms wherever it is written",
 "Forcing a filtered workload gives, as a bag, exactly the terms of the unfiltered workload that satisfy the filter, however filters are nested, conjoined, disjoined, inverted and interleaved with plugs and appends; rearranging filters for speed never changes the result. Metric filters compare the number of atoms, the number of lists, or the nesting depth (an atom having depth 1) of a term.",
 ["inputs","programs"],"all filters over all workloads",
 "Unit tests apply single filters to small fixed lists; interaction with plug is tested once by count.",
 [WK,FI,SX],[("Workload::filter push-down",WK),("Filter::{and,subsumed_by,is_monotonic}",FI),("Sexp::measure",SX)],["Workload::force of filtered workloads"])
p("C19","Pattern filters match consistently at any depth",
 "A pattern matches a term when they agree structurally, with the wildcard matching any term, and each variable matching any term but the same one at every occurrence. A contains filter keeps exactly the terms with a matching subterm (the term itself included) and an excludes filter exactly the others.",
 ["inputs"],"all patterns and terms",
 "Fifteen fixed pattern/term pairs are tested.",
 [PA,FI],[("Pattern::matches_with",PA),("Filter::test Contains/Excludes",FI)],["Workload::filter(Contains/Excludes).force()"])
p("C20","Canonical filtering keeps one representative per renaming class",
 "With a list of distinct variables, the canonical filter keeps a term exactly when its first occurrences of listed variables, read left to right, are the first, second, third, ... listed variables in that order; unlisted symbols are irrelevant. Hence of all terms that differ by a one-to-one renaming of the listed variables exactly one is kept.",
 ["inputs"],"all terms and variable lists",
 "Fifteen fixed terms over three variables are tested.",
 [SX,FI],[("Sexp::canon",SX),("Filter::Canon",FI)],["Workload::filter(Canon).force()"])
p("C21","Grammar iteration enumerates exactly the bounded terms",
 "For a grammar workload whose recursive productions are lists with at least one further atom, iterating it on a nonterminal up to size n >= 1 in a metric yields exactly the terms derivable from the grammar, without leftover nonterminal, whose metric is at most n, each as often as it is derivable. The base grammar with arity n consists of a variable, a value and one operator production per arity from 1 to n.",
 ["inputs","configurations"],"all grammars, metrics, bounds",
 "Counts for the base grammar of arity 2 and 3 at a few bounds are tested.",
 [RU,WK,FI],[("iter_metric, base_lang",RU),("filter push-down",WK)],["iter_metric(..).force()"])
p("C22","Rules survive printing and parsing, as text, files and listings",
 "Parsing 'l => r' or 'l ==> r' gives exactly that one rule, 'l <=> r' gives it and its reverse, with name and both patterns as written, and text without an arrow is an error. A ruleset written to a file (replacing what was there) and read back, or rebuilt from its string list, is the same ruleset in the same order. The pretty listing prints each rule once, joining exactly the pairs that are each other's reverse into one '<=>' line.",
 ["inputs"],"all rules and rulesets whose variables and operators print as plain tokens",
 "One round trip of one learned ruleset and three fixed strings are tested.",
 [RULE,RS],[("Rule::from_string",RULE),("Ruleset::{new,to_file,from_file,to_str_vec,pretty_print}",RS)],["Rule::from_string, from_file(to_file(..)), stdout of pretty_print"])
p("C23","Terms and workloads survive printing and parsing",
 "Parsing a term's text gives the term with that structure however many spaces (or, inside lists, line breaks) separate its parts, and printing any term and parsing it back gives an equal term. A workload written to a file (replacing what was there) and read back denotes the same list of terms.",
 ["inputs"],"all terms over plain atoms, all workloads",
 "Two fixed strings are parsed in tests; no workload file is ever read back.",
 [SX,WK],[("Sexp FromStr / Display",SX),("Workload::{to_file,from_file,new}",WK)],["Sexp parse/Display, Workload::from_file"])
p("C24","Rulesets behave as sets keyed by rule",
 "Under any sequence of add, add_all, extend, union, remove_all and partition, a ruleset contains exactly the rules set theory says, keyed by their text, never twice, and size, emptiness, membership, iteration and string list all agree with that set; two rulesets compare equal exactly when they list the same rules in the same order. Operations that return a new ruleset leave their operands unchanged. The bidirectional length counts each pair of mutually reverse rules once and every other rule once.",
 ["inputs","histories"],"all histories of ruleset operations",
 "Tests never check the set operations themselves.",
 [RS],[("Ruleset::{union,extend,add,add_all,remove_all,partition,contains,bidir_len,eq}",RS)],["Ruleset public operations"])
p("C25","Parallel partitioning gives the sequential answer under every schedule",
 "Partitioning, deriving against and validating a ruleset give, for any number of worker threads and any timing of the per-rule work, exactly the result of evaluating the rules one after another: every rule is evaluated exactly once, lands in the part its own verdict says, and each part keeps the original order. Concurrent use from several threads changes nothing.",
 ["schedules","inputs"],"all thread counts, interleavings and per-rule delays",
 "Tests run with one default pool and no timing variation, and look at sizes only.",
 [RS,BV],[("Ruleset::partition over rayon",RS),("validate: one solver context per call",BV)],["partition / derive / is_valid results under varied pools"])
p("C26","The nightly log keeps every row, in order, and rows tell the truth",
 "Each logging call appends exactly one row to the JSON log and leaves all earlier rows unchanged, creating directory and file when missing, also when several threads of a process log at the same time. A baseline row lists the ruleset's rules, the given names and time and the recipe's line count ('-' if it cannot be read), and its derivability tables in both directions and modes split the target rules into exactly those derivable and those not (a direction is left empty only when it is herbie deriving rational_best or rational_replicate); a bitvector row lists the generated rules, exactly the ported rules that are valid, and what those derive; a phase row names scheduler and rules of each phase.",
 ["histories","inputs","schedules"],"all sequences of logging calls, from one or more threads",
 "Tests call the logger and never read the file.",
 [LOG,LIB,UT],[("add_json_to_file read-modify-write",LOG),("write_baseline, write_bv_derivability, write_ff_phase",LOG),("count_lines",UT),("Display for Phase",LIB)],["nightly/data/output.json after each call"])
p("C27","Generalisation is a consistent one-to-one renaming",
 "Turning a pair of ground terms into a rule candidate replaces each variable, on both sides alike, by its own pattern variable (distinct variables by distinct pattern variables) and changes nothing else, so the candidate's sides instantiate back to the original pair up to that renaming. Instantiating a pattern and reading it back as a term keeps operators, constants, structure and variable names.",
 ["inputs"],"all terms with up to 26 variables",
 "Never tested directly; a collision only shows as an odd rule in a large recipe.",
 [LANG,RS,UT],[("SynthLanguage::{generalize,instantiate,to_enode_or_var}",LANG),("add_from_recexprs",RS),("letter",UT)],["generalize / instantiate; candidates of the matchers"])
p("C28","Rule inference is reproducible",
 "Running the same inference on the same workload and priors, in fresh processes, repeated within a process, and with any number of worker threads, returns the same ruleset in the same order when no time limit intervenes.",
 ["schedules","inputs"],"all workloads, thread counts, repetitions",
 "No test runs anything twice.",
 [RU,RS,LIB],[("deterministic hashing, ordered maps, ordered parallel partition",RS)],["rulesets of repeated runs"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if s:
    for x in P: jsonschema.validate(x, s)
print(len(P))
