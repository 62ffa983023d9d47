"""Writes MANIFEST.json: every property with a harness is claimed, the others are listed with a reason."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "A01": "The property is about source text going through the ANTLR-generated C lexer/parser and the ANLML Java-style grammar runtime (libantlr3c, table-driven DFA prediction over a heap token stream): the runtime is an installed binary library without source here, so the code that decides the property cannot be encoded; executing it on concrete texts would be testing.",
 "J01": "The Java client is JVM bytecode talking to SWIG-generated JNI glue; no symbolic executor for JVM bytecode is installed (and the engine here encodes LLVM IR of the C++ sources), so the cross-language behaviour cannot be encoded.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(V + "/harness/" + i + "_*.cc"):
        hs = []
        for f in sorted(glob.glob(V + "/harness/" + i + "_*.cc")):
            t = ""
            for l in open(f):
                if l.startswith("//@"): t += l[3:]
                else: break
            hs.append(json.loads(t))
        note = "; ".join(h["what"] + " [" + h["bounds"] + "]" for h in hs)
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
          "technique": "symbolic execution of the compiled repository code (LLVM IR instrumented on every run) over symbolic inputs and operation histories; every branch and assertion negation decided by the SMT solver Z3; all paths within the stated bounds; counterexamples replayed natively",
          "level": "model_checking", "level_note": ("Bounded: " + note)[:1500]})
    else: na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
old = V + "/MANIFEST.json"
json.dump(m, open(old, "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
