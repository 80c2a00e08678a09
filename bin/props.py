"""What each property's check builds, records and validates."""
from vlib import Run, BIN

WNAME = {0: "unweighted", 1: "uint", 2: "int", 3: "array", 4: "vector"}


def solver(*ws):
    return {"solver%d" % w: dict(src="drv_solver.cpp", defs=["-DWTYPE=%d" % w], libs=["pda"]) for w in ws}


def S(w, mode, quick, thorough=None, **k):
    return Run("solver%d" % w, mode, "SolverTrace", quick, thorough, **k)


SOLVER_NOTE = ("Every answer recorded from the real engines on the explored instances is one the TLA+ specification allows; TLC evaluates the specification "
               "(operational semantics, saturation, equation systems for optimal weights) on each instance. Bounded: random and enumerated instances with up to 6 control "
               "states, 4 labels and about 20 rules, and families of larger ones (up to about 40 states, 70 labels, long chains and deep stacks). Trusted: TLC, the ptrie stand-in in harness/shim, and the driver's projection of results to JSON.")
NFA_NOTE = ("Every language and answer recorded from the real code on the explored histories is the one the TLA+ specification computes (languages as sets of words up to a length bound, "
            "NFA graphs by subset simulation, equivalence of automata for words of any length). Bounded: mostly at most 3 labels and words up to length 4, some automata with tens of states and symbols; %s. Trusted: TLC and the driver's projection to JSON.")


def mc(module, cfg, tag="", **k):
    return dict(module=module, cfg=cfg, **k)


# The specification itself: quick slices, and everything in the thorough tier.
MC_PDS = [mc("MCPds", "MCPdsQ.cfg"), mc("MCPds", "MCPds.cfg", thorough=True), mc("MCPds", "MCPds4.cfg", thorough=True)]
MC_ENG = [mc("MCEngine", "MCEngineQ.cfg"), mc("MCEngine", "MCEngine.cfg", thorough=True)]
MC_REG = [mc("MCRegular", "MCRegularQ.cfg"), mc("MCRegular", "MCRegular.cfg", thorough=True)]
MC_RED = [mc("MCReducer", "MCReducer%sQ.cfg" % k) for k in ("Run", "Tos")] + [mc("MCReducer", "MCReducer%s.cfg" % k, thorough=True) for k in ("Run", "Tos")]
MC_CEG = [mc("MCCegar", "MCCegarQ.cfg"), mc("MCCegar", "MCCegar.cfg", thorough=True)]
MC_WGT = [mc("MCPds", "MCPdsWQ.cfg"), mc("MCPds", "MCPdsW.cfg", thorough=True)]

PROPS = {
    "C01": dict(note=SOLVER_NOTE, mc=MC_PDS + MC_ENG, drivers=solver(0, 1), runs=[S(0, "verdict", 3000, 60000), S(1, "verdict", 600, 10000), S(0, "x-verdict", 1500, 9216, seed0=0)]),
    "C02": dict(note=SOLVER_NOTE, mc=MC_PDS, drivers=solver(0, 1), runs=[S(0, "rules", 2500, 50000), S(0, "verdict", 1000, 20000, lo=100000), S(1, "verdict", 400, 8000, lo=100000),
                                                  S(1, "rules", 500, 10000)]),
    "C03": dict(note=SOLVER_NOTE, mc=MC_WGT, drivers=solver(1, 2, 3, 4), runs=[S(1, "short", 1200, 20000), S(2, "short", 400, 8000), S(3, "short", 500, 8000), S(4, "short", 500, 8000),
                                                  S(1, "cfg", 400, 8000), S(3, "cfg", 100, 2000),
                                                  S(1, "rules", 250, 5000, lo=100000), S(2, "rules", 150, 3000), S(3, "rules", 150, 3000), S(4, "rules", 150, 3000)]),
    "C04": dict(note=SOLVER_NOTE, mc=MC_WGT, drivers=solver(1, 2, 3, 4), runs=[S(1, "fix", 1000, 16000), S(2, "fix", 1400, 30000), S(3, "fix", 400, 6000), S(4, "fix", 400, 6000)]),
    "C05": dict(note=SOLVER_NOTE, mc=MC_PDS, drivers=solver(0, 1), runs=[S(0, "lang", 1600, 30000), S(1, "lang", 700, 12000)]),
    "C06": dict(note=NFA_NOTE % "random histories of constructions, unions and edge insertions, plain and weighted; stacks of every height are compared by exploring the automaton together with the expression it was built from, tall single stacks included",
                drivers={"paut%d" % w: dict(src="drv_paut.cpp", defs=["-DWTYPE=%d" % w], libs=["pda"]) for w in (0, 1)},
                runs=[Run("paut0", "all", "PautTrace", 6000, 100000), Run("paut1", "all", "PautTrace", 4000, 60000)]),
    "C07": dict(note=NFA_NOTE % "all postfix expressions up to a size bound and random histories of combinators, copies and moves",
                drivers={"nfa": dict(src="drv_nfa.cpp")}, mc=MC_REG,
                runs=[Run("nfa", "all", "NfaTrace", 16000, 200000), Run("nfa", "x", "NfaTrace", 20336, 20336, seed0=0)]),
    "C08": dict(note=NFA_NOTE % "random expression texts, well-formed and mutated, parsed by a recursive-descent grammar written in TLA+",
                drivers={"regex": dict(src="drv_regex.cpp", libs=["pda", "nfap"])},
                runs=[Run("regex", "nfa", "RegexTrace", 12000, 200000), Run("regex", "cfg", "RegexTrace", 8000, 120000)]),
    "C09": dict(note="The laws (unit, commutativity, associativity, absorption, strict weak order, monotonicity, extremality) are model-checked on the TLA+ weight algebra for every triple of a small number type; "
                     "the real add/less/constants are compared with the algebra for every pair of 8-bit numbers and for random values, mostly near the limits, of the wider types, arrays and vectors. "
                     "Saturated sums are exempt from associativity/monotonicity where saturation makes them impossible (stated in MCWeight.tla). Floating-point weights only in weight functions.",
                drivers={"weight": dict(src="drv_weight.cpp")},
                mc=[dict(module="MCWeight", cfg="MCWeightNum.cfg"), dict(module="MCWeight", cfg="MCWeightSeq.cfg")],
                runs=[Run("weight", "x", "WeightTrace", 1024, 1024, seed0=0), Run("weight", "all", "WeightTrace", 20000, 400000), Run("weight", "fun", "WeightTrace", 6000, 100000)]),
    "C10": dict(note="Histories of operations on every storage strategy are replayed against finite maps in TLA+; every return value, iteration order and size is compared. Bounded: up to 150 operations, keys of up to 3 levels.",
                drivers={"cont": dict(src="drv_cont.cpp")},
                runs=[Run("cont", "all", "ContainerTrace", 8000, 150000), Run("cont", "queue", "ContainerTrace", 12000, 200000)]),
    "C11": dict(note="Histories of insertions through every entry point of the rule store (named and numbered states, weighted and not, hash and vector storage) against the relation in TLA+; full enumeration compared after each history. Bounded: up to 40 operations, 5 states and labels, and in a tenth of the histories up to 90 operations, 15 states and labels.",
                drivers={"store": dict(src="drv_store.cpp", libs=["pda"])},
                runs=[Run("store", "all", "StoreTrace", 10000, 200000)]),
    "C12": dict(note="Random PDAs (plain and weighted) are reduced by the real code at every level; TLC computes from the specification which rules lie on an accepting run (saturation in both directions) and checks that exactly such rules survive unchanged. Larger systems (up to 30 states, 14 labels, 100 rules) are built around accepting runs, which the specification replays; every rule of such a run must survive. Bounded: up to 6 states, 5 labels, about 15 rules for the exact analysis.",
                drivers={"red": dict(src="drv_red.cpp", libs=["pda", "reducer"])}, mc=MC_RED,
                runs=[Run("red", "all", "ReducerTrace", 5000, 150000), Run("red", "run", "ReducerTrace", 4000, 100000, lo=1000000)]),
    "C13": dict(note="Histories of insertions and refinements of the real mappings, and computed and combined refinements, against partitions in TLA+. Bounded: up to 9 elements, 20 insertions, 6 refinements, and in an eighth of the histories up to 22 elements, 60 insertions, 12 refinements.",
                drivers={"cegar": dict(src="drv_cegar.cpp", libs=["pda"])},
                runs=[Run("cegar", "part", "PartitionTrace", 12000, 250000)]),
    "C14": dict(note="A factory and reconstruction written against the public extension points run the real refinement loop on random systems and abstractions (half of them with extra abstract rules that no concrete rule is behind) with post*, pre* and dual engines and both refinement options; verdicts and traces are judged by the same specification as the direct engines. Bounded: up to 5 states, 5 labels, 12 rules.",
                drivers={"cegar": dict(src="drv_cegar.cpp", libs=["pda"])},
                mc=MC_CEG, runs=[Run("cegar", "solve", "SolverTrace", 7000, 120000)]),
    "C15": dict(note="Objects built through the API (named, numbered and integer states; plain, scalar and vector weights) are printed by the real code and read back; TLC checks that the printed document is valid and means the object, and that the object read back is what the document means. Documents in random spelling (key order, white space, escapes, MessagePack, ignored keys) are read too. Bounded: up to 5 states, 4 labels, about 10 rules; one in sixteen up to 14 states and 8 labels.",
                drivers={"json0": dict(src="drv_json.cpp", defs=["-DKIND=0"], libs=["pda"]), "json1": dict(src="drv_json.cpp", defs=["-DKIND=1"], libs=["pda"]), "json2": dict(src="drv_json.cpp", defs=["-DKIND=2"], libs=["pda"])},
                runs=[Run("json1", "print", "JsonTrace", 6000, 150000), Run("json0", "all", "JsonTrace", 2000, 80000, lo=1000000), Run("json2", "inst", "JsonTrace", 2000, 80000, lo=1000000)]),
    "C16": dict(note="The set of valid documents is defined in TLA+ over document trees; random valid documents and mutations of them (members and elements deleted, repeated, renamed, retyped, moved, wrapped; numbers out of range; damaged text) are given to the real parsers and acceptance is compared in both directions, with the meaning of what is accepted. Bounded: 1 to 4 mutations, trees of up to about 100 nodes.",
                drivers={"json0": dict(src="drv_json.cpp", defs=["-DKIND=0"], libs=["pda"]), "json2": dict(src="drv_json.cpp", defs=["-DKIND=2"], libs=["pda"])},
                runs=[Run("json0", "all", "JsonTrace", 8000, 400000), Run("json2", "inst", "JsonTrace", 8000, 400000)]),
    "C19": dict(note="Random systems are described to the on-demand factory; the compiled rules, the states asked for, and the verdicts and traces of the compiled instance are compared with the specification. Bounded: up to 6 states, 4 labels, 12 rules.",
                drivers={"cegar": dict(src="drv_cegar.cpp", libs=["pda"])},
                runs=[Run("cegar", "fact", "SolverTrace", 6000, 120000)]),
    "C17": dict(note="Histories of path operations against sequences in TLA+; all observers compared. Bounded: up to 60 operations on 3 paths.",
                drivers={"path": dict(src="drv_path.cpp")},
                runs=[Run("path", "all", "PathTrace", 12000, 300000)]),
    "C18": dict(note="Histories on trie-backed sets and maps of 18 key types against the sequence of distinct keys; encodings recorded and checked injective, sized and decodable within a history. "
                     "The trie itself is replaced by a stand-in with the documented contract (harness/shim), because the library is not available offline.",
                drivers={"enc": dict(src="drv_enc.cpp")},
                runs=[Run("enc", "all", "EncodingTrace", 12000, 200000)]),
    "C20": dict(note="The real command-line tool is run on random instances in every input format (instance JSON from file or standard input, MessagePack, separate PDA and automata files as JSON or text), every engine, trace type and option; verdict, trace and weight it prints are judged by the same specification as the engines, unusable input and options must be errors. Bounded: up to 5 states, 4 labels, about 12 rules.",
                drivers={"cli": dict(src="drv_cli.cpp"), "pdaaal_tool": dict(src=BIN + "/main.cpp", san=False, libs=["parsing", "pda", "nfap", "reducer"], link=["-lboost_program_options"])},
                runs=[Run("cli", "all", "SolverTrace", 600, 20000)]),
    "C21": dict(note="Random NFAs, P-automata (plain, unsigned, signed and vector weights; with infinite weights) and products before and after solving are drawn by the real code; the drawing is read back statement by statement and TLC compares it with the automaton as its accessors report it. Bounded: up to about 40 states, 30 symbols.",
                drivers={"dot": dict(src="drv_dot.cpp", libs=["pda"])},
                runs=[Run("dot", "nfa", "DotTrace", 8000, 150000), Run("dot", "aut", "DotTrace", 10000, 200000)]),
    "C22": dict(note="Histories of stream operations against a stack of objects under construction in TLA+; each document written is read back with its members in order. Bounded: up to 80 operations, values of depth 2.",
                drivers={"stream": dict(src="drv_stream.cpp")},
                runs=[Run("stream", "all", "StreamTrace", 20000, 400000)]),
}
