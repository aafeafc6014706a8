"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": ("lockset typestate dataflow over the inlined flow graph", "Path-insensitive to data except tracked facts; covers every path of every public operation of the queue class, hence every interleaving of them."),
 "P02": ("wait/notify obligation dataflow over the inlined flow graph", "Every path of every operation; assumes the standard condition variable."),
 "P03": ("guard-fact and transfer-count dataflow", "Every path of every operation; the bound, order and exactly-once transfer are decided from the container operations used."),
 "P04": ("typestate and ownership dataflow over the instantiated pool", "Every path of borrowing, returning, clearing and construction."),
 "P11": ("lockset typestate dataflow over the inlined flow graph of every tree operation", "Every path of every public operation and constructor, hence every interleaving; references handed out are the caller's responsibility."),
 "P22": ("path-sensitive comparison-coverage and guarded-optional dataflow", "Every path of every comparison operator, hash functor, accessor and constructor of the identifier types."),
 "P16": ("member-completeness dataflow over every copy/move operation", "Every path of every non-defaulted copy/move constructor and assignment of every class of the library; defaulted ones are memberwise by the language."),
 "P17": ("definite-assignment dataflow over every constructor and every function", "Every class, constructor and function in the two type-checked programs; members of foreign class types excepted."),
 "P18": ("balance (matched-effect) dataflow over every operation of the file list", "Every path of every public operation; elements changed through handed-out references excepted."),
 "P23": ("path-sensitive dataflow over text fragments and stored fields, encoder against parser", "Every path of the encoder, the parser and the construction from a metafile, for each of the ten fields. Encoders that build the text in a way the rule does not follow are accepted."),
 "P32": ("compile-fail witnesses over the error enumeration and dataflow over every construction of an error code", "Every enumerator, every throw site and every path of the OpenSSL layer (the only backend buildable here)."),
 "P37": ("compile-fail witnesses (static assertions over the list's own functions against a model, evaluated by the compiler's front end)", "Every history of up to two operations (three in the thorough tier) out of eleven, from four starting lists; longer ones by the same code on lists of the same kind."),
 "P38": ("compile-fail witnesses (static assertions over the library's own classes, evaluated by the compiler's front end)", "All 17 digest types; three byte patterns each, every single changed byte, lengths one off in both directions. Overloads that reinterpret text as bytes are not evaluated."),
 "P36": ("compile-fail witnesses (static assertions over the tree's own functions, evaluated by the compiler's front end)", "Positions for all heights below 30; whole trees for every number of leaves up to 35 and 521 (sizes up to 69); larger trees by the same formulas."),
 "P34": ("path-sensitive presence (nullness) dataflow over optionals, search results and nullable pointers", "Every function with such a read, private and file-local helpers in the context of their callers; presence that a function establishes for a member of another object is followed only through inlined code."),
 "P35": ("term and typestate dataflow over the file list (path text prefixes, index validity, piece ranges)", "Every function of file_storage and every function that compares path texts; a lookup written in a form the rule does not follow is accepted."),
 "P33": ("compile-fail witnesses and returned-reference/text-fragment dataflow", "Both record types, every accessor; texts built in a way the rule does not follow are accepted."),
 "P12": ("guard-fact dataflow to every store into the reported map, with the provenance of both digests and of the index", "Every function of both verifiers, every path; comparisons in a form the rule cannot follow are accepted and counted. That the computed digest is the digest of the data is P29."),
 "P13": ("typestate of the chunk buffer and of each round over the queues, on all paths", "Every path of both readers and of the functions that hand chunks on. Delivery inside the queue is P03; that the label is the right one is not decided, only that it changes."),
 "P14": ("typestate of the stages and of the worker threads on all paths of every function that stops, waits or joins", "Every function of both jobs and of every class that owns threads; the feeding relation is extracted from the registrations in start(). That a woken worker comes to its end is P31 and P02; jobs destroyed while they run end the program by design and are not covered."),
 "P15": ("lockset analysis of worker, observer and stop accesses to every field, and effect analysis of static state", "Every worker root, every const or stop function of the same classes, every function for static state; state of the file list itself, which the user must not touch during a job, is not covered. Three known findings."),
 "P25": ("typestate of every stream on all paths of every function that opens, reads or writes", "Every function of the library with a file stream or a stream argument; two known findings about files whose size differs from the recorded one."),
 "P19": ("guard-fact dataflow with preconditions lifted through the call graph", "Every function the parser can call, every path, both input representations. Conditions about internal state only (tier numbers against the tracker list, sizes of the library's own containers) are counted, not decided."),
 "P20": ("agreement of two extracted grammars: fields written and fields looked up, with place, kind and property", "Every field of the three writers and of the reader, on the inlined flow graphs; values built in a way that cannot be followed are accepted and counted."),
 "P21": ("taint dataflow with guard facts from the parsed text to every stored path", "Every function of the parser, every path to every place where text becomes part of a path, both input representations; tests in a form the rule cannot read are accepted."),
 "P31": ("progress analysis of every cycle of every flow graph", "Every loop of every function of the library, all template instances used. Progress is a possible change of something the exit conditions read, not a proof that the change leads to the end."),
 "P24": ("iterator-validity typestate and insertion-position dataflow", "Every function of the library for iterator validity; every path of every operation of the list for order. An insertion position computed in a way the rule does not know is accepted."),
 "P05": ("compile-fail witnesses (static assertions over all bytes and pairs)", "All 256 bytes and all 65536 pairs; lengths up to a bound, longer texts go through the same loop."),
 "P06": ("compile-fail witnesses (static assertions over all bytes and escapes)", "All 256 bytes and all 65536 escape continuations; lengths up to a bound."),
 "P08": ("result-must-be-checked dataflow over every call into the cryptographic library", "Every call site and every path from it; OpenSSL backend (the only one buildable here)."),
 "P09": ("ownership (typestate) analysis of the context through every special member function and exit path", "Every path of construction, move, assignment and destruction."),
 "P10": ("guard-fact dataflow at the finishing call plus reinitialisation obligation", "Every path to every finishing call."),
 "P07": ("compile-fail witnesses over every enumerator in every table, plus control-flow check that parsing has no other success path", "All enumerators of hash_function, all tables, the OpenSSL mapping; names compared with the standards' names."),
 "P26": ("guard-fact dataflow on allocation sizes, result checks and allocation/release pairing", "Every path of allocate and deallocate, for several instantiations."),
 "P27": ("compile-fail witnesses (static assertions over all pairs of flag values, all attribute sets, the literals) and term analysis of flag tests", "All values of every flag type (exhaustive over the declared bits), all attribute sets; literals at sampled operands of a linear function."),
 "P28": ("type-level instantiation witnesses (explicit instantiation and use of every public member of every template)", "Every public member discovered in the syntax tree is instantiated; a member that fails to compile is reported."),
}
NA = {
 "P29": "Equality of a computed digest with the digest of the bytes on disk depends on file contents, sizes and piece arithmetic at run time; no static argument in reach bounds them.",
 "P30": "Equality of a value with the value parsed back from its serialisation quantifies over whole runtime object graphs; the static part (same fields, keys, kinds on both sides) is P20.",
}
PIDS = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
checks = []; na = []
for p in PIDS:
    if p in T:
        checks.append({"property": p, "quick_cmd": "python3 /verif/sa/check.py %s --tier quick" % p, "thorough_cmd": "python3 /verif/sa/check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": "other", "level_note": T[p][1]})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check has been built for it.")})
m = {"version": 1, "setup_cmd": "bash /verif/tool/build.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: see DESIGN.md. No hooks in /repo."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
