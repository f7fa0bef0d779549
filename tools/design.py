#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between the marker lines) from props, specs, known findings and seeded/."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/vlib"]
import props, specs

# what is asserted, and against which oracle
ORACLE = {
    "P01": "The index is built by the writer's own code from symbolic (key, offset) entries and looked up with a symbolic key by each access path. Oracle: the list of entries, scanned: exactly the offsets whose key equals the one asked for, each once.",
    "P02": "As P01 with a symbolic lower and upper bound (or one of them). Oracle: the entries scanned with the type's natural order. A separate oracle computes which entries K01 loses; anything else is a violation.",
    "P03": "Each operator with a symbolic operand, conjunctions over two and three fields, several entries of one feature, every query asked twice of the same index object. Oracle: the conditions evaluated on the entries and intersected per feature.",
    "P04": "Serialisation of a symbolic index; entries, sizes (written, declared, computed) and the position after reading are compared with the entries given; offsets are symbolic 63 bit numbers.",
    "P05": "For each key type: width, decode(encode(x)) = x, the comparison of two symbolic keys against the comparison of the values, and the bounds used for open ranges.",
    "P06": "A tree over boxes of symbolic coordinates is searched with a symbolic box or point. Oracle: every box tested for a common point. The hits' positions and offsets are the given ones; over HTTP the byte ranges begin and end where the features do; the reader is left at the end of the index.",
    "P07": "Levels, child pointers, unions, extent, node order, size formula and read-back of a tree over symbolic boxes; Hilbert sort is a permutation (up to a bound) and keeps each box with its offset.",
    "P08": "Nearest query for a symbolic point. Oracle: squared distances of the centres, exact in the bounds used (small integers and halves).",
    "P09": "A feature with a geometry whose nesting is any shape up to a bound and whose vertex indices are symbolic is written to a file and read back; the nested arrays are compared.",
    "P10": "As P09 with semantic surfaces, values (or null) per part, type, parent, children.",
    "P11": "As P09 with material and texture references per theme.",
    "P12": "Features with optional parts switched on and off by the solver, symbolic numbers and strings; compared field by field; nothing else may appear.",
    "P13": "Attributes of every JSON kind and every column type, in objects which agree or disagree about their types; compared with the value written (an integer may come back as the equal double).",
    "P14": "Headers with optional fields switched on and off by the solver; the metadata read with seeking and over range requests are compared with what was given; column descriptions as the reader gives them.",
    "P15": "0 to n features with symbolic content, with and without either index; reading to the end by every path gives each once, with its content, and the count announced.",
    "P16": "As P15 with a symbolic box or point. Oracle: extents of the transformed vertices. One job has features 300 kB apart, so that batches of requests are split.",
    "P17": "As P15 with attribute indices of each type and a symbolic query. Oracle: the condition evaluated on the JSON values.",
    "P18": "Faults are symbolic: the length to which the file is cut, the call that fails, the number of bytes a call transfers, the byte that is changed and its new value. Oracle: the intact answer, of which only a prefix followed by an error is allowed, and the format's own verifier for changed bytes.",
    "P19": "The command line program's own main function runs on files in memory. Oracle: the CityJSON text given, its features filtered by whether a vertex lies in the box.",
}
def jobs(j):
    return len(j)
def table():
    out = []
    for x in props.PROPS:
        p = x["prop"]; s = specs.SPECS[p["id"]]
        q = [j for j in s["jobs"] if j["tier"] == "quick"] if isinstance(s["jobs"][0], dict) else s["jobs"]
        out.append(f"### {p['id']} {p['title']}\n\n{ORACLE[p['id']]}\n\n"
                   f"* Bounds: {s['bounds']}.\n* Outside: {s['outside']}.\n"
                   f"* Beyond the tests: {p['why_tests_cant']}.\n"
                   f"* Harness: {', '.join(sorted({f'`{j['bin']}.rs`' for j in s['jobs']}))}; {len(q)} jobs in the quick tier, {len(s['jobs'])} in all.\n")
    return "\n".join(out)
def findings():
    k = json.load(open(V + "/known_findings.json"))
    out = ["Recorded, not repaired:", ""]
    out += [f"* {x['id']} ({x['property']}): {x['what']}." for x in k if x["status"] == "open"]
    out += ["", "Repaired (one `fix:` commit each):", ""]
    out += [f"* {x['property']} `{x['commit']}`: {x['what'].split(x['commit'], 1)[-1].strip()}." for x in k if x["status"] == "fixed"]
    return "\n".join(out) + "\n"
def seeded():
    out = ["| change | breaks | needs | found by |", "|---|---|---|---|"]
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
        out.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {m.get('found_by', m['property'] + ' quick')} |")
    return "\n".join(out) + "\n"
t = open(V + "/DESIGN.md").read()
for name, text in (("properties", table()), ("findings", findings()), ("planted", seeded())):
    t, n = re.subn(rf"(?s)(<!-- {name} -->\n).*?(<!-- end -->)", lambda m: m[1] + "\n" + text + "\n" + m[2], t)
    assert n == 1, name
open(V + "/DESIGN.md", "w").write(t)
