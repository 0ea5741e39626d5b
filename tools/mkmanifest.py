"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "Static: the source files named in the evidence are analysed from source on each run; nothing is executed. See DESIGN.md for the rule, its scope and its known limits."
CLAIMED = {
 "C20": "abstract evaluation of each verifier, validation pass and the print/parse pair over enumerated descriptions; the verdict is compared with the stated rules",
 "C21": "abstract evaluation of each polynomial operation over enumerated exponent sets with symbolic coefficients, in an algebraic domain; compared as polynomials",
 "C22": "abstract evaluation of the circuit builders per degree and zero pattern with symbolic coefficients; the circuit's denotation is compared with the polynomial, depths by structural induction",
 "C23": "abstract evaluation of the kernel builders per size with symbolic slots; the denotation of rolled and unrolled circuits is compared with the documented value slot by slot",
 "C24": "abstract evaluation of both transforms as linear maps over the cyclotomic ring Q[w]/(w^n + 1), symbolic in modulus and coefficients",
 "C16": "abstract evaluation of each rewrite over enumerated small programs; the decision is compared with the program's meaning under every run-time choice of indices, branches and callees",
 "C17": "effect traces of the evaluated rewrites (uses after erasure, changes before failure, changes behind the rewriter, dominance of moved operations)",
 "C15": "abstract evaluation of the naming pass over IR shapes and all name suggestions of the type definitions",
 "C19": "order-effect analysis of iterations over unordered containers, address comparison queries, definite assignment",
 "C25": "abstract evaluation of the fusion with symbolic weights; scale matching evaluated on described operations and compared with their meaning",
 "C26": "abstract evaluation of the analyses' transfer functions and answers over described programs, compared with what users and operands say",
 "C27": "abstract evaluation of each describer over described modules; emitted text and JSON compared with the module",
 "C28": "abstract evaluation of the algorithms' source over every relation of a few opaque vertices, answers compared with the definitions",
 "C08": "symbolic evaluation of every path of the noise models into formulas with logarithmic bounds; type-range faults, dependence and direction decided on the formulas",
 "C07": "relational effect analysis: each method's per-path, quantified updates of the two adjacency views compared as updates of one edge relation",
 "C11": "abstract interpretation of each printing routine over abstract operations (all attribute and operand shapes); the emitted text, parsed as Rust expressions, is compared with the operation's meaning",
 "C12": "abstract interpretation of the dispatch over every registered operation kind, with call-graph reachability of routines and pre-check/dispatch comparison",
 "C30": "path-enumerating abstract interpretation of the Python front-end with effect tracking (ownership of mutated objects, working directories, definite assignment) and injected failures of every external call",
 "C31": "value-flow by abstract interpretation of the client interfaces over all signatures up to a bound, all secret subsets and the listed call orders",
 "C32": "abstract interpretation of the emitter over typed program templates; the emitted text's meaning as an expression tree is compared with the program's",
 "C33": "abstract interpretation of tool runners over opaque strings (argument vectors, shell use, exit-status propagation), with all orders of tool failures",
 "C10": "abstract interpretation with linear forms, polyhedral path constraints, bit widths and residues; inferred inductive loop invariants",
 "C05": "abstract evaluation of the counting and recording visitors over operand secrecy, list lengths and loop bound classes, with counts as polynomials",
 "C18": "abstract interpretation of index helpers in a polynomial value domain per rank, compared with the row-major normal form; typed narrowing lint",
 "C06": "abstract evaluation of printers and parsers over all enumerators and representative strings, compared as relations",
 "C09": "abstract evaluation of the selection function over every cell of the table's grid; def-use flow from computed quantities to parameter fields",
 "C13": "abstract evaluation of generated and hand-written settings code over all keys and step outcomes, with effect traces",
 "C14": "abstract evaluation with effect traces over all prior marker states",
 "C03": "ownership typestate over the integer-set library's take/give/keep annotations, with inferred summaries",
 "C04": "must-coverage dataflow per visitor and node kind; factory argument flow; memo-key rule",
 "C02": "path-sensitive failure-propagation dataflow (known-failed facts, unread and discarded results)",
 "C01": "typestate dataflow over the resolved Clang AST (presence of optional/FailureOr/nullable handles on every path)",
}
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Static analysis only. Facts come from a clang-18 libTooling extractor (C++) and Python's ast (front-end)."}
for p in props:
    if p["id"] in CLAIMED:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick",
            "thorough_cmd": f"python3 check.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
            "technique": CLAIMED[p["id"]], "level": "other", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
