"Regenerates MANIFEST.json from properties.jsonl and the rule modules present."
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "taint analysis over symbolic values of every statement builder: quoted-form type of each interpolation in SQL text",
 "C02": "symbolic evaluation of quoting functions into replacement chains, compared with an escaping specification",
 "C03": "path-condition analysis: guard of each drop statement in the evaluated change script",
 "C04": "value-flow analysis from generator options to the acting components",
 "C05": "abstract evaluation of generator constructors over the finite mode domains",
 "C06": "ordering analysis of the evaluated statement sequences",
 "C07": "dependence analysis: guards of change statements against the attributes read on creation",
 "C08": "symbolic evaluation of DML templates: provenance of column, placeholder and assignment lists",
 "C09": "provenance and guard equivalence of record positions and statement columns; escape of loop variables into closures",
 "C10": "typestate of the batch buffer and effect analysis of source consumers",
 "C11": "call-graph effect analysis: blocking driver calls only below thread-dispatched functions",
 "C12": "coroutine typestate over all call sites with call resolution",
 "C13": "exception-flow analysis with handler classification",
 "C14": "abstract evaluation of TLS context creation and connection opening per SSL mode",
 "C15": "taint analysis of the password from connection parameters to sinks",
 "C16": "import-graph effect analysis against declared driver requirements",
 "C17": "comparison of parsed SELECT lists in evaluated query templates with the record types",
 "C18": "predicate analysis of evaluated query templates: WHERE and JOIN restrictions",
 "C19": "value-flow analysis of URL components through encode and decode functions",
 "C20": "order and exception-path analysis of state assignments against execution events",
 "C21": "class-hierarchy and registration analysis (abstract methods, engine bindings)",
 "C22": "override signature compatibility over the class hierarchy and all base-interface call sites",
 "C23": "effect (mutation) and aliasing analysis",
 "C24": "source-to-sink analysis of nondeterminism (set iteration, hash, time, random)",
 "C25": "order and provenance analysis of lookup registration events",
 "C26": "loop-exit and replacement-chain analysis of the text reader and writer",
 "C27": "typestate of connections and cursors on successful paths (commit before return)",
 "C30": "evaluation of the extracted merge function on all pairs of classes and representatives of all regions of sizes; structural rule for its callers",
 "C33": "evaluation of the extracted type mapping over representatives of all types and annotations, against tables of what types hold",
 "C35": "evaluation of the converter to terms; the objects that are made, each with the condition under which it is made, are compared as boolean functions with what the declarations require",
    "C37": "evaluation of the terms of the converter on representatives of all combinations of keys, nullability, constraints, defaults, descriptions, namespaces and data types they depend on",
    "C36": "evaluation of the query operation of each dialect to a term with the unpacking of rows in place; the term is compared with one element per row, and its checks of the number of columns are decided for each kind of signature",
    "C38": "evaluation of the terms of the mutators on representatives of all combinations of types, tables and columns that change together; the statements of a translation are read and compared with what moves the values",
 "C34": "evaluation of the extracted statement text under every combination of attributes, against the form of the statement in the dialect",
 "C28": "evaluation of the extracted data-type expressions of the explorers on the catalog rows (tables) of all type texts the converters make; aliasing rule for the table of substitutions",
}
NA = {
 "C29": "quantifies over what a live database server reports for a schema it has executed; the server is not part of the source, and no static argument over this repository bounds it (the parts visible in the source are C07, C17, C18 and C28)",
 "C31": "random data against declared annotations is a property of run-time values drawn from generators; no static rule in reach bounds them",
 "C32": "depends on conversions inside third-party drivers and servers that are not part of the analysed source (the statically visible part is C08, C09 and C26)",
}
LEVEL = "Static rule decided on the current source at every run. Sound for the constructs it models (listed in the evidence and in DESIGN.md), with call resolution by class hierarchy; constructs it does not model are reported as findings or stop the check rather than being passed over. Assumes the library's public interfaces are used as typed and that no code is injected at run time (monkey patching, eval)."
NOTE = {}
def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(HERE, "analysis/rules", i.lower() + ".py")):
            cmd = f"python3 check.py {i}"
            checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd, evidence_file=f"evidence/{i}.json", technique="static analysis: " + TECH[i], level="other", level_note=NOTE.get(i, LEVEL)))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="python3 -c 'import ast, sys; assert sys.version_info >= (3, 10)'", checks=checks, not_applicable=na,
             notes="All checks parse /repo's current source with the standard library's ast module and execute nothing of it. No hooks in /repo are needed.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
if __name__ == "__main__":
    main()
