#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md from design/head.md, the table below, the specs and design/tail.md."""
import importlib.util, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (what is executed symbolically and the oracle, why tests cannot settle it)
HOW = {
"S01": "Real Share, Reconstruct, DivideIntoSubsecrets and the field arithmetic on a symbolic secret and symbolic random draws. Oracle: the secret itself; too few or inconsistent shares must be refused. Also the same object reused for another subset (its coefficient cache).",
"S02": "Real packing and unpacking, both implementations, and packed addition. Oracle: the input vector, an independent bit-by-bit packing, and element-wise addition.",
"S03": "Real MapOfMasks variants and both random generators on symbolic key streams. Oracle: the signed sum of single-key masks; adding the two sides' masks gives zero; range check per element.",
"S04": "Real graph factory and graphs. Oracle: the definition of symmetry, inverse look-up and opposite direction for every pair.",
"S05": "Real server and real clients run a whole session in one symbolic execution, with ideal cryptography. Oracle: the modular sum of the inputs of the clients whose masked input the server accepted.",
"S06": "Real client driven to the unmasking round by an adversarial server. Oracle: per peer, the kinds of share seen in all its messages.",
"S07": "Real client; the harness knows all keys and recomputes the mask independently. Oracle: message contents equal input plus mask; nothing is sent after the end.",
"S08": "Real client on arbitrary server messages. Oracle: no crash, no memory error, a failed session is final and says so.",
"S09": "Real server with one hostile client. Oracle: only that client is excluded, the others' session continues and the sum is still right; no crash.",
"S10": "Real server on event sequences against a small independent model of counts and thresholds.",
"S11": "Real accumulators on scheduler threads. Oracle: each work item once, results combined exactly once, none after cancellation is final.",
"S12": "Real encryption and key agreement over ideal primitives. Oracle: decryption returns the plaintext or an error; both sides agree on a key, different pairs differ.",
"B01": "Real thread pool scheduler and workers under symbolic schedules. Oracle: each task once, worker order kept, WaitUntilIdle and destruction only after all tasks.",
"B02": "Real promise and future under symbolic schedules. Oracle: value delivered once, abandonment reported, no lost wake-up (a blocked thread with nobody to wake it is a violation).",
"B03": "Real simulated and real-time clocks with symbolic deadlines and advances. Oracle: fired exactly once, not before its deadline, deadline order, cancelled ones never.",
"B04": "Real conversion templates for all type pairs. Oracle: mathematical comparison in 128 bits.",
"B05": "Real time conversions with the integer encoding. Oracle: independent arithmetic on seconds and nanoseconds and the inverse conversion.",
"B06": "Real converters on arbitrary codes. Oracle: table of the canonical codes; unknown ones become unknown; messages kept.",
"B07": "Real identifier generator under symbolic schedules; tokens on arbitrary bytes. Oracle: pairwise difference, round trip.",
"B08": "Real stopwatch with a symbolic clock. Oracle: length of the union of the timed intervals.",
"B09": "Real result combinators on counting values. Oracle: first failure wins, later steps not run, no value copied or lost.",
"B10": "Real file helpers on the failing file system. Oracle: success means the file holds exactly the data; path helpers against a reference.",
"H01": "Real URI encoder and joiner. Oracle: independent percent-decoder gives back the name; no separator survives.",
"H02": "Real in-memory request. Oracle: the acceptance rules in the interface's documentation, body pieces concatenated equal the body.",
"H03": "Real response callback for arbitrary event orders. Oracle: independent model of completeness, length and encoding.",
"H04": "Real fetch of inline and remote resources with cache. Oracle: answers by position, content of the addressed resource, cache contents.",
"H05": "Real header parser and header look-up. Oracle: independent parse of the line.",
"H06": "Real polling helper. Oracle: requests until the first finished operation, waiting time within the limits, final answer.",
"H07": "Real retry window functions. Oracle: window containment.",
"H08": "Real protocol object against a simulated server with a budget of failures. Oracle: which retry window applies, recomputed from the answers the server gave.",
"H09": "Real request creator and secure aggregation transport. Oracle: reconstructed address, headers and body of every request.",
"H10": "Same session as H08. Oracle: journal of everything that left the device (requests, verification, encryption, aggregation) checked against the task's kind.",
"D01": "Real resource cache on the failing file system and message store. Oracle: map of the latest content per identifier; size bound; after restart nothing else than what was stored.",
"D02": "Real history store. Oracle: list of entries with their ages; size and age limits; the time since which it is complete; other process locked out.",
"D03": "Real per-phase logger and store. Oracle: message built independently from the logged calls.",
"D04": "Real look-up over both history formats. Oracle: latest successful contribution computed from the harness's own description of the history.",
"D05": "Real eligibility decision. Oracle: per task, conjunction over its policies of independent formulas.",
"D06": "Real interruptible runner and its threads. Oracle: abort seen, waited for, Cancelled returned, no work left running.",
"D07": "Real secure aggregation runner; protocol client played by the harness. Oracle: values handed over equal the tensor; invalid inputs refused first.",
"D08": "Real slice iterator. Oracle: slices by requested order and bytes; failure gives nothing.",
"D09": "Real dictionary. Oracle: position in the token list with the documented offsets.",
"D10": "Real query statistics under sequences and threads. Oracle: plain counters.",
"D11": "Real temporary file helper. Oracle: set of files on disk before and after.",
"E01": "Real nonce generator, checker and noise-session counters. Oracle: set of nonces seen.",
"E02": "Real payload encoding. Oracle: round trip; independent parse for acceptance.",
"E03": "Real COSE and CWT coding over the CBOR stand-in. Oracle: round trip field by field; independent rules for what is malformed; no crash on any bytes.",
"E04": "Real message cryptor over ideal primitives. Oracle: opens exactly when key, associated data and all parts are the originals.",
"P01": "Real media service with symbolic names, data and thread switches. Oracle: model of single use and group membership.",
"P02": "Real aggregation service. Oracle: a result is visible only if enough inputs were included.",
"P03": "Real assignment services. Oracle: list of tasks per population in order.",
"P04": "Real request dispatcher with symbolic paths and bodies. Oracle: independent matcher for the patterns.",
"T01": "Real span and recorder code. Oracle: stack of open spans; identifiers pairwise different at any age of the process.",
}
def spec(i):
    p = os.path.join(V, "harness", i, "spec.py")
    s = importlib.util.spec_from_file_location("spec_" + i, p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
def main():
    out = [open(os.path.join(V, "design/head.md")).read()]
    na = json.load(open(os.path.join(V, "tools/claims.json")))["not_applicable"]
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l); i = p["id"]
        out.append("### %s — %s\n\n" % (i, p["title"]))
        if i in na:
            out.append("Not applicable: %s\n\n" % na[i]); continue
        m = spec(i)
        out.append("*Method and oracle.* %s\n\n*Bounds.* %s.\n\n*Outside.* %s.\n\n" % (HOW[i], m.BOUNDS, m.OUTSIDE))
        if getattr(m, "ASSUMPTIONS", None): out.append("*Assumptions.* %s.\n\n" % "; ".join(m.ASSUMPTIONS))
        out.append("*Why not tests.* %s\n\n" % p["why_tests_cant"])
        e = os.path.join(V, "design/cost.json")
        c = json.load(open(e)).get(i) if os.path.exists(e) else None
        if c: out.append("*Cost (quick).* %s\n\n" % c)
    t = os.path.join(V, "design/tail.md")
    if os.path.exists(t):
        rows = ["| Change | Property | What it breaks | Needs |\n|---|---|---|---|\n"]
        for d in sorted(os.listdir(os.path.join(V, "seeded"))):
            e = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
            rows.append("| %s | %s | %s | %s |\n" % (d, e["property"], e["what_it_breaks"], e["needs"]))
        out.append(open(t).read().replace("SEEDTABLE\n", "".join(rows)))
    open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
def cost():
    """Refreshes design/cost.json from the evidence of the last quick runs."""
    r = {}
    import glob
    for f in sorted(glob.glob(os.path.join(V, "evidence/*.json"))):
        e = json.load(open(f)); c = e["coverage"]
        if e["tier"] != "quick": continue
        r[e["property"]] = "%s paths, %s queries, about %d s of solver time." % (c.get("symbolic_paths", c.get("states")), c.get("solver_queries", "?"), round(c.get("solver_s", 0)))
    json.dump(r, open(os.path.join(V, "design/cost.json"), "w"), indent=1, sort_keys=True)
import sys
if "cost" in sys.argv: cost()
main()
