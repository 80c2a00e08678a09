#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
I = "src/include/pdaaal/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Reachability verdicts are exact for every engine",
     "For every pushdown automaton and every pair of P-automata describing initial and final configurations, an engine (post*, pre*, or dual search; with or without early termination; with or without trace collection) answers 'accepted' if and only if some run of the pushdown automaton leads from an initial to a final configuration. All engines therefore agree on every instance, and none crashes or fails to terminate.",
     ["inputs", "programs"], "every PDA (rule sets with push/pop/swap/noop, concrete, multi-label and wildcard pre-labels), every initial and final P-automaton whose initial states have no incoming edges, every engine and early-termination setting",
     "The unit tests run a handful of fixed PDAs, mostly with one engine and one stack each; a saturation step that is lost only for a particular order of discovered edges, a self loop, an empty stack or a wildcard rule gives a wrong verdict on inputs the tests do not contain.",
     [I + "Solver.h", I + "internal/PdaSaturation.h", I + "PAutomatonProduct.h", I + "internal/PAutomaton.h", I + "internal/PDA.h"],
     [("saturation rules for pre* and post*", I + "internal/PdaSaturation.h"), ("incremental product and early termination", I + "PAutomatonProduct.h"), ("engine entry points", I + "Solver.h")],
     [("edges of the automaton", "configurations found so far", I + "internal/PAutomaton.h"), ("workset", "edges still to be processed", I + "internal/PdaSaturation.h"), ("product states", "pairs of states reachable in the intersection", I + "PAutomatonProduct.h")],
     ["Solver::post_star_accepts", "Solver::pre_star_accepts", "Solver::dual_search_accepts", "Solver::*_no_ET"])

prop("C02", "Returned traces are runs of the PDA between the given configurations",
     "Whenever an engine answers 'accepted', the trace it returns (as configurations, or as rules with initial/final stacks and automaton paths) is a real run: it starts in a configuration accepted by the initial automaton, ends in one accepted by the final automaton, and every consecutive pair is one application of a rule of the PDA. The reported start state, stacks and automaton paths are consistent with that run.",
     ["inputs", "programs"], "every accepted instance, every engine (post*, pre*, dual) and trace representation",
     "Tests check a few trace lengths or the first state; a trace reconstructed through the wrong annotated edge, epsilon edge or meeting state is still plausible looking on those examples.",
     [I + "Solver.h", I + "PAutomatonProduct.h", I + "AutomatonPath.h", I + "internal/PAutomaton.h", I + "internal/PdaSaturation.h"],
     [("trace annotation of edges and its unfolding", I + "Solver.h"), ("path through the product", I + "PAutomatonProduct.h")],
     [("edge annotations", "which rule produced an edge", I + "internal/PAutomaton.h")],
     ["Solver::get_trace", "Solver::get_trace_dual_search", "Solver::get_rule_trace_and_paths"])

prop("C03", "Shortest traces are minimal and have the weight that is reported",
     "With non-negative rule weights (unsigned or signed numbers, arrays, or vectors compared lexicographically), each shortest-trace engine (post*, pre*, dual search, and the per-configuration queries) reports exactly the minimum total weight over all runs from the initial to the final configurations. The trace returned with it is a run whose rule weights sum to that weight.",
     ["inputs", "programs"], "every weighted PDA with non-negative weights, every pair of P-automata, every shortest-trace engine and weight type",
     "Minimality quantifies over all runs; the tests compare one number on a few examples where the first derivation found is already the best, so a wrong processing order, a lost weight decrease or premature early termination goes unnoticed.",
     [I + "Solver.h", I + "internal/PdaSaturation.h", I + "PAutomatonProduct.h", I + "internal/PAutomaton.h", I + "Weight.h", I + "utils/workset.h"],
     [("Dijkstra/Knuth order of the worksets", I + "internal/PdaSaturation.h"), ("best weight of product states", I + "PAutomatonProduct.h"), ("shortest accepting path", I + "internal/PAutomaton.h")],
     [("edge weights", "best weight of the runs an edge summarises", I + "internal/PAutomaton.h"), ("best product weight", "early termination bound", I + "PAutomatonProduct.h")],
     ["Solver::post_star_accepts<Shortest>", "Solver::get_trace<Shortest>"])

prop("C04", "Fixed-point engines report the optimal weight, or infinity exactly when unbounded",
     "For integer weights the longest-trace fixed-point engines, and for all weight types (negative numbers included) the shortest-trace fixed-point engines, report the supremum (infimum) of the weights of the runs from initial to final configurations. They report 'infinite' exactly when that optimum is unbounded; when it is finite, the returned trace is a run with exactly that weight.",
     ["inputs", "programs"], "every weighted PDA (scalar weights for longest; scalar, array and vector weights for shortest), every pair of P-automata; post*, pre* and their interleaving",
     "Whether a weight is unbounded depends on every loop of every saturated automaton; the tests contain a few hand-made loops, and no negative cycles through epsilon edges or loops off the accepting paths.",
     [I + "Solver.h", I + "internal/PdaSaturation.h", I + "internal/PAutomaton.h", I + "internal/PAutomatonAlgorithms.h", I + "PAutomatonProduct.h", I + "utils/workset.h"],
     [("bounded fixed-point rounds and infinity detection", I + "internal/PdaSaturation.h"), ("fixed-point accepting path", I + "internal/PAutomatonAlgorithms.h")],
     [("round counter of the workset", "how many Bellman-Ford style rounds have passed", I + "utils/workset.h")],
     ["Solver::post_star_fixed_point_accepts", "Solver::pre_star_fixed_point_accepts", "Solver::interleaving_fixed_point_accepts"])

prop("C05", "A saturated automaton accepts exactly the reachable configurations",
     "After post* (pre*) has run on a P-automaton, the automaton accepts a configuration if and only if it is reachable from (can reach) a configuration accepted before; this includes configurations with an empty stack. A query or trace request for a single configuration agrees with that: the answer is true, and the trace a run to (from) that configuration, exactly when it is accepted.",
     ["inputs", "programs"], "every PDA, P-automaton, configuration, trace mode and engine variant (any, shortest, fixed point)",
     "The language of the saturated automaton is an infinite set; the tests probe a few stacks in a few automata.",
     [I + "Solver.h", I + "internal/PdaSaturation.h", I + "internal/PAutomaton.h", I + "internal/PAutomatonAlgorithms.h"],
     [("saturation", I + "internal/PdaSaturation.h"), ("acceptance with epsilon edges", I + "internal/PAutomaton.h")],
     [("edges of the automaton", "accepted configurations", I + "internal/PAutomaton.h")],
     ["PAutomaton::accepts", "Solver::post_star", "Solver::pre_star", "Solver::get_trace(pda, automaton, state, stack)"])

prop("C06", "P-automata accept exactly the configurations they are built from",
     "A P-automaton built from a single configuration, from a regular expression/NFA for the stacks of given control states, as a union, or edge by edge, accepts exactly the configurations so described. Accepting-path queries return a path through existing edges if and only if the configuration is accepted; in a weighted automaton it is one of least weight. (Unions are of automata without edges into control states.)",
     ["inputs"], "every configuration, every NFA (with positive, negated and wildcard labels, accepting initial states, loops), every set of control states, every sequence of edge insertions",
     "Construction from an NFA mixes label sets, negation and shared states; the tests use a few linear stacks.",
     [I + "internal/PAutomaton.h", I + "PAutomaton.h", I + "NFA.h", I + "internal/PDA.h"],
     [("construction from states and NFA", I + "internal/PAutomaton.h"), ("or_extend", I + "internal/PAutomaton.h")],
     [("states and edges", "language", I + "internal/PAutomaton.h")],
     ["PAutomaton::accepts", "PAutomaton::accept_path"])

prop("C07", "NFA combinators build the language they name",
     "Union, concatenation, option, star and plus of NFAs, in any combination and on operands of any shape (including ones that accept the empty word or nothing, or whose initial states have incoming edges), accept exactly the union, concatenation, option, star and plus of the operands' languages. Copying or moving an NFA preserves its language and leaves the original's language (for copies) unchanged.",
     ["inputs", "histories"], "every expression over the combinators, every word",
     "Combinators mutate shared state graphs in place, so an error needs a particular nesting; the tests contain a handful of expressions.",
     [I + "NFA.h"], [("in-place graph surgery of the combinators", I + "NFA.h")],
     [("initial/accepting state lists, edges", "the automaton", I + "NFA.h")], ["NFA::concat", "NFA::or_extend", "NFA::question_extend", "NFA::star_extend", "NFA::plus_extend"])

prop("C08", "Regular expressions parse to their language",
     "Every regular expression over labels that the NFA parser (and the configuration-set parser) accepts denotes, with the documented precedence, exactly the language of the NFA (set of configurations) produced; malformed expressions are rejected with an error. Layout, comments and redundant parentheses make no difference.",
     ["inputs"], "every regular expression: quoted and regex labels, '.', label sets, negated sets, |, concatenation, *, +, ?, parentheses, whitespace and comments",
     "The tests parse a few strings and look at the shape; precedence, nesting and escaping interact.",
     [I + "parsing/NfaParser.cpp", I + "parsing/NfaParserGrammar.h", I + "parsing/NfaParser.h", "src/pdaaal-bin/parsing/PAutomatonParser.h"],
     [("grammar and build actions", I + "parsing/NfaParserGrammar.h")], [], ["NfaParser::parse_string", "PAutomatonParser::parse_string"])

prop("C09", "Weights form an ordered monoid with absorbing infinities",
     "For minimisation and for maximisation, addition of integer weights (and arrays and vectors of them) is associative and commutative with zero as unit while sums stay in range; a sum out of range saturates and never wraps around; 'less' is a strict weak order (lexicographic for arrays and vectors; missing vector components count as zero, and vectors that are then equal may be ordered by length), monotone under addition, in which bottom and max are extremal; bottom and max absorb finite values. Linear and ordered weight functions evaluate to the weighted sum and to the vector of their parts.",
     ["inputs"], "every pair and triple of weights of every supported type (signed, unsigned, array, vector), values near the numeric limits included",
     "Algebraic laws quantify over all triples, including values near the limits; the tests compute a few sums.",
     [I + "Weight.h"], [("saturating add and less", I + "Weight.h")], [], ["min_weight", "max_weight", "linear_weight_function", "ordered_weight_function"])

prop("C10", "Containers behave like the sets and maps they implement, for any history",
     "After any sequence of insertions, lookups, erasures and copies the vector sets/maps, flexible multi-level sets (every storage strategy), flag sets and worklists (priority and round based) contain exactly the elements a mathematical set/map with the same history contains, in the promised order, and every return value (inserted or not, found or not, element returned) is right. Priority worklists return elements in order of priority, each element once per valid entry.",
     ["histories"], "every sequence of operations on every storage strategy",
     "Histories are unbounded; the tests insert a few fixed elements.",
     [I + "utils/fut_set.h", I + "utils/vector_set.h", I + "utils/workset.h"],
     [("sorted-vector and hash storage", I + "utils/fut_set.h"), ("priority queues", I + "utils/workset.h")],
     [("stored elements", "the set", I + "utils/fut_set.h")], ["fut::set", "vector_set", "priority_set"])

prop("C11", "A PDA contains exactly the rules, states and labels added to it",
     "After any sequence of rule insertions the rules of a PDA (enumerated forwards from states, and backwards through the predecessor index) are exactly those added: each rule once, with its pre-labels merged for identical rule bodies (rules that differ in weight are different rules) and wildcards covering every label, also those added later. Clearing a state removes exactly the rules from and to it. States and labels are numbered consistently: looking up a name returns the number under which it was inserted and decoding returns the name.",
     ["histories"], "every sequence of add_rule calls (single label, label list, wildcard, negated), every order and duplication",
     "Merging depends on the order of insertion and on which fields coincide; the tests add a handful of distinct rules.",
     [I + "PDA.h", I + "internal/PDA.h", I + "internal/PDA.cpp"],
     [("rule store and label sets", I + "internal/PDA.h"), ("labels_t merge", I + "internal/PDA.cpp")],
     [("rules per state, predecessor lists", "the rule relation", I + "internal/PDA.h")], ["PDA::add_rule", "PDA::states", "PDA::encode_pre"])

prop("C12", "Reduction never changes the verdict",
     "Removing rules with the top-of-stack reduction, at any level of aggressiveness, keeps every verdict. In the convention of the reduction, the rules of the initial state push their label on the empty stack (whatever their pre-label), and a run is accepting when it reaches the terminal state with any stack: a rule (one source, pre-label, operation and target) that occurs on some accepting run is never removed, so every accepting run of the original is one of the reduced PDA. Remaining rules are rules of the original PDA with their labels, operations and weights (never new behaviour), states keep their numbers, level 0 removes nothing, and the reported sizes do not grow.",
     ["inputs", "programs"], "every PDA (weighted or not), every initial state whose rules are pushes, every terminal state, every reduction level",
     "A wrongly removed rule only shows on an instance whose only witness uses it; tests check rule counts of a few examples.",
     [I + "internal/Reducer.h", I + "internal/Reducer.cpp", I + "Solver.h"],
     [("top-of-stack dataflow fixpoints", I + "internal/Reducer.cpp")], [("top-of-stack sets per state", "labels that can be on top (and below)", I + "internal/Reducer.cpp")],
     ["Reducer::reduce"])

prop("C13", "Abstraction refinement keeps a partition that separates what it must",
     "The abstraction maps every concrete state and label to exactly one class at any point of any sequence of insertions and refinements; refining a class by disjoint non-empty sets of its members splits it so that different sets end up in different classes, elements in none of the sets stay where they were, one of the sets keeps the number, and the others get the next unused numbers; all other classes are untouched. Lookup, listing, membership and set encoding agree with that partition at all times (the encoding of a negated set names only the classes that lie entirely inside the set). The refinements computed to break a spurious step separate every pair of the two given sets (best option; at least one pair with the fast option) in the first or in the second component, and combining refinements keeps separated what either of them separated.",
     ["histories", "inputs"], "every sequence of insertions and refinements, every pair of disjoint element sets",
     "The partition is mutated in place over a whole history; tests perform one or two refinements.",
     [I + "cegar/AbstractionMapping.h", I + "cegar/Refinement.h"],
     [("refine of the mapping", I + "cegar/AbstractionMapping.h"), ("refinement finder", I + "cegar/Refinement.h")],
     [("class of each element", "the partition", I + "cegar/AbstractionMapping.h")], ["RefinementMapping::refine", "make_refinement"])

prop("C14", "Abstraction-refinement solving agrees with direct solving",
     "For every instance and every initial abstraction of labels and of states (one that does not lump accepting with non-accepting states), the abstraction-refinement loop terminates, answers 'reachable' exactly when the concrete pushdown system has a run from an initial to a final configuration, and the trace it returns is a run of the concrete system.",
     ["inputs", "programs"], "every PDA, P-automata given by NFAs, initial abstraction, pre*/post* engine and refinement option",
     "Spuriousness and refinement depend on how the abstraction lumps this instance; tests use two or three hand-made abstractions.",
     [I + "cegar/CegarPdaFactory.h", I + "cegar/AbstractionPDA.h", I + "cegar/AbstractionPAutomaton.h", I + "cegar/AbstractionSolverInstance.h", "src/pdaaal-bin/Verifier.h"],
     [("abstract PDA construction", I + "cegar/AbstractionPDA.h"), ("trace reconstruction", I + "cegar/CegarPdaFactory.h")],
     [("current abstraction", "which states and labels are lumped", I + "cegar/CegarPdaFactory.h")], ["CEGAR::cegar_solve"])

prop("C15", "Printing a PDA or instance as JSON and parsing it back changes nothing",
     "Any PDA, P-automaton or solver instance written to JSON and parsed again has the same states, labels, rules (with operations, pre-label sets and weights) and accepted configurations. The same holds for every input file the parser accepts, written in any permitted key order and with states by name or by number.",
     ["inputs"], "every PDA and instance, every permitted spelling of its JSON",
     "Tests parse a couple of documents and only look at sizes.",
     [I + "PDA.h", I + "internal/PAutomaton.h", I + "SolverInstance.h", "src/pdaaal-bin/parsing/PdaJsonParser.h", "src/pdaaal-bin/parsing/SolverInstanceJsonParser.h"],
     [("SAX parser state machine", "src/pdaaal-bin/parsing/PdaJsonParser.h"), ("to_json", I + "PDA.h")], [("parser context stack", "where in the document the parser is", "src/pdaaal-bin/parsing/PdaJsonParser.h")],
     ["PdaJSONParser::parse", "to_json"])

prop("C16", "Malformed JSON input is rejected, never half-accepted",
     "A document that violates the format (a required key missing or repeated, a value of the wrong type or sign or out of range, an unknown key in a rule or P-automaton, several or no operations in a rule, a pop with a label, an initial state that is not in the PDA, an edge without exactly three elements, an unknown weight type, text that is not JSON) makes parsing fail with an error; it never crashes and never yields an object. A document that satisfies the format is accepted; unknown keys beside \"pda\" and \"states\" are ignored, and a numbered target state beyond the listed ones denotes one more state without rules.",
     ["inputs"], "every mutation of a valid document",
     "The space of malformed documents is unbounded and the parser is a hand-written state machine with flags; tests try almost none.",
     ["src/pdaaal-bin/parsing/PdaJsonParser.h", "src/pdaaal-bin/parsing/SolverInstanceJsonParser.h", "src/pdaaal-bin/parsing/PAutomatonJsonParser.h", I + "utils/SaxHandlerHelpers.h"],
     [("context flags and stack", "src/pdaaal-bin/parsing/PdaJsonParser.h")], [("parser context stack", "where in the document the parser is", "src/pdaaal-bin/parsing/PdaJsonParser.h")],
     ["PdaJSONParser::parse"])

prop("C17", "Automaton paths are exact edge stacks",
     "An automaton path behaves as a stack of edges for any sequence of push, pop and inspection: the edges, states and stack it reports are exactly those of the list model, in order, whatever was pushed and popped before. Two paths built from the same edges in different ways report the same.",
     ["histories"], "every sequence of operations",
     "Histories are unbounded; the one test pushes and pops a fixed sequence.",
     [I + "AutomatonPath.h"], [("edge/stack storage", I + "AutomatonPath.h")], [("edges", "states and labels on the path", I + "AutomatonPath.h")], ["AutomatonPath"])

prop("C18", "Byte encodings used as lookup keys are injective and reversible",
     "Every value stored in the trie-backed sets and maps (numbers, enumerations, strings, vectors, tuples and variants) is found again under an equal key, is not found under a different key, and is returned unchanged when decoded from its identifier. Identifiers are dense and in order of first insertion.",
     ["inputs", "histories"], "every sequence of insertions and lookups of every key type",
     "Tests exercise a few keys of one or two types.",
     [I + "utils/ptrie_interface.h"], [("to_vector/from_vector byte encodings", I + "utils/ptrie_interface.h")], [], ["ptrie_set/ptrie_map"])

prop("C19", "Factories build the PDA reachable from what they are given",
     "A PDA factory that explores states on demand produces exactly the rules of every state reachable through rules from the initial states, each once, and none other; start and final state numbers agree with the states they name. Solving the compiled instance gives the same verdict and traces as building the PDA by hand.",
     ["inputs", "programs"], "every finite rule relation and set of initial states",
     "Tests use two hand-made factories.",
     [I + "PDAFactory.h", I + "PDA.h"], [("depth-first compilation", I + "PDAFactory.h")], [("waiting list", "states still to be explored", I + "PDAFactory.h")], ["DFS_PDAFactory::compile"])

prop("C20", "The command-line tool reports what the engines found",
     "For every input file and combination of engine, trace type and option, the tool's JSON output is well-formed, its verdict is the true one, its trace (when printed) is a run of the input PDA from an initial to a final configuration, and a printed weight is the optimum. Unusable option combinations and malformed files are reported as errors, with no verdict.",
     ["inputs", "configurations"], "every instance file, engine, trace type, and option combination",
     "No test runs the tool; the option dispatch is a large switch over template instantiations.",
     ["src/pdaaal-bin/main.cpp", "src/pdaaal-bin/Verifier.h", "src/pdaaal-bin/parsing/Parsing.cpp", "src/pdaaal-bin/utils/json_stream.h"],
     [("engine/trace dispatch", "src/pdaaal-bin/Verifier.h"), ("output stream", "src/pdaaal-bin/utils/json_stream.h")], [], ["process output"])

prop("C21", "Drawings show the automaton",
     "The DOT drawing of an NFA, of a P-automaton (plain or weighted, before or after saturation) or of a product depicts exactly that automaton, for every label and state printer: each state once, with a double circle if and only if it is accepting; each edge with exactly its symbols ('*' only where every label is meant, '^' only for a negated set), its epsilon, and in a weighted automaton the weight of each symbol and of epsilon (infinite and missing weights as such); and one arrow to each initial state.",
     ["inputs", "programs"], "every NFA and P-automaton, weight type and printer",
     "The tests print drawings but compare nothing with them; an edge left out, a wrong shape or a lost negation is only visible to a reader.",
     [I + "NFA.h", I + "internal/PAutomaton.h", I + "PAutomatonProduct.h"],
     [("drawing of NFAs", I + "NFA.h"), ("drawing of P-automata", I + "internal/PAutomaton.h"), ("names of states and labels", I + "PAutomatonProduct.h")], [], ["NFA::to_dot", "PAutomaton::to_dot", "PAutomatonProduct::automaton_to_dot"])

prop("C22", "The JSON output stream writes the document it was told to",
     "After any sequence of entries, begun and ended objects and closings of the JSON output stream, the text written up to each close (or the destruction of the stream) is one well-formed JSON document whose members, values and nesting are exactly those given, in order, for every key and value and indentation; nothing is written if there was no entry. Objects still open are completed by the close, and the stream can be used again for another document.",
     ["histories", "inputs"], "every sequence of operations, every key and value",
     "No test uses the stream; commas, braces and empty objects depend on the whole history of operations.",
     ["src/pdaaal-bin/utils/json_stream.h"], [("commas and nesting", "src/pdaaal-bin/utils/json_stream.h")], [("open objects", "depth and whether the innermost object has a member yet", "src/pdaaal-bin/utils/json_stream.h")], ["json_stream"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
