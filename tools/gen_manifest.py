"""Write MANIFEST.json from the check modules present and the reasons below."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {f[:3].upper(): f for f in sorted(os.listdir(V + "/checks")) if f[0] == "c" and f[1:3].isdigit()}
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        src = open(f"{V}/checks/{have[i]}").read()
        ns = {}
        for n in ast.parse(src).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) in ("TECHNIQUE", "NOTE", "ASSUMPTIONS"):
                ns[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python -B run.py --property {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python -B run.py --property {i} --tier thorough",
            "technique": ns.get("TECHNIQUE", "runtime monitoring: the real library runs against simulated devices with fault "
                                "injection on a virtual-time event loop; online protocol/state oracles judge every execution"),
            "level": "exploration",
            "level_note": ns.get("NOTE", "Seeded random workloads; a pass means no monitor fired on the executions explored "
                                 "(counts in the evidence file). Trusts: " + "; ".join(ns.get("ASSUMPTIONS", ["the simulated devices"]))),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
out = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import aiohttp, cryptography'",
       "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: all instrumentation is attached from outside. Repairs of genuine defects are the 'fix:' commits "
                "listed in known_findings.json."}
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
