#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification with Verus of the functions mechanically extracted from /repo on every run"
CORE = "Unbounded proof over all inputs for every function under contract (all 2460 generated Validate impls plus the hand-written core). Trusts Verus/Z3, the span edits of the vx extractor, the assumed contracts of std string functions and the regex crate, and the committed facet table as the schema."
MSG = "Unbounded proof over all inputs for every function the property depends on, caller against callee contract. Trusts Verus/Z3, the vx extractor, the std string contracts, and the stand-ins for serde_json, quick_xml and dataflow_rs (derives uninterpreted). "
CH = {
 "C01": CORE, "C02": CORE, "C04": CORE, "C05": CORE, "C06": CORE,
 "C07": "Unbounded proof, for every payload type and error list, of every function of parse_result.rs and error.rs under contract. Trusts Verus/Z3, vx, vstd's Vec and Option; the derived Default/Clone are outside the text.",
 "C08": "Unbounded proof over all strings of the six lookups, the two envelope wrappers and the laws between them, against the committed table of 25 entries. Trusts Verus/Z3, vx, and std's string equality.",
 "C09": MSG + "For each type and path, the structure and the element name selected are the registry's; unregistered types are refused.",
 "C10": MSG + "The written text is exactly the frame around the serialised header and document; reading extracts exactly the sections; a lemma over these contracts gives the round trip for contents that do not hold the frame's own markers. Known finding D8: the xmlns fields are not written.",
 "C11": MSG + "Every slice index, unwrap, arithmetic step and data_mut precondition in envelope, xml, common and plugin code is an obligation. The dependencies (quick_xml, serde_json, regex, dataflow_rs) are assumed not to panic; recursion depth inside them is not covered.",
 "C12": MSG + "Detection is proved equal to a specification over character sequences for all texts and JSON values. The regex crate is uninterpreted for peek_message_type_from_xml.",
 "C13": MSG + "Extraction equals its specification for all data, payloads and field names; the handlers act on that content.",
 "C14": MSG + "Frame and change report of all four handlers, for all messages and configurations.",
 "C15": MSG + "Verdict and parse step are proved equal to one readability predicate. Known finding D9: parse_mx rewrites literal backslash-n before reading.",
 "C03": "Unbounded proof of the exact contracts of the helpers, error builders and collector. Trusts Verus/Z3, vx, and assumed contracts: str::trim uninterpreted, regex search uninterpreted (whole-value match is defined as search of ^(?:p)$ in the trimmed text).",
}
NA = {}
exec(open(os.path.join(V, "tools/manifest_more.py")).read()) if os.path.exists(os.path.join(V, "tools/manifest_more.py")) else None
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough", "evidence_file": f"evidence/{p}.json",
                 "technique": T, "level": "proof", "level_note": n} for p, n in sorted(CH.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo are needed: contracts are woven into text extracted from the working tree on every run. Repairs made in /repo are 'fix:' commits listed in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
