#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of techniques below."""
import json, os, subprocess
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{home}/properties.jsonl")]
TECH = {
    "B01": "property-based testing: round trip against a reference encoder",
    "B02": "property-based testing: differential against a reference decoder, with all short words enumerated",
    "B03": "property-based testing: differential between the owned and the borrowed implementation",
    "B04": "property-based testing: reference token rule against limited decoding",
    "B05": "property-based testing: lookups against a reference value",
    "B06": "property-based testing with injected writer faults",
    "B07": "property-based testing under a counting allocator and small stacks; deep inputs in child processes",
    "B08": "property-based testing of long generated inputs under a limit of CPU time",
    "B09": "property-based testing of generated documents with one fault against the expected error",
    "C01": "property-based testing: differential against a reference SHA-1",
    "C02": "property-based testing: differential against reference integer shifts, with guard memory",
    "C03": "property-based testing: differential against reference 160-bit integers",
    "C04": "property-based testing: round trip and differential against a reference codec",
    "C05": "model-based property testing of insertion histories",
    "C06": "property-based testing with statistical coverage of the range",
    "C07": "metamorphic property testing of call histories on families of similar arguments, in one place and on several threads",
    "C08": "property-based testing of long generated inputs under a limit of CPU time",
    "D01": "property-based testing: round trip through the saved form",
    "D02": "property-based testing: reference reader over arbitrary documents",
    "D03": "property-based testing: round trip through the saved form",
    "D04": "property-based testing: reference reader over arbitrary documents",
    "D05": "property-based testing: round trip and reference layout",
    "D06": "model-based property testing of operation histories",
    "D07": "model-based property testing of operation histories",
    "D08": "property-based testing with statistical tests of sampled replies",
    "D09": "model-based property testing of operation histories",
    "D10": "model-based property testing of operation histories",
    "D11": "model-based property testing of operation histories",
    "D12": "model-based property testing of operation histories",
    "D13": "model-based property testing of operation histories",
    "D14": "property-based testing: reference metric, symmetry and order independence",
    "D15": "property-based testing: reference verifier over arbitrary messages",
    "D16": "property-based fuzzing under a counting allocator",
    "D17": "property-based testing of operation histories under a counting allocator",
    "D18": "model-based property testing of whole exchanges: reply, message, decoders, readers",
    "D19": "model-based property testing of several interleaved storages; metamorphic call histories on similar arguments",
    "D20": "metamorphic property testing: CPU time of operations alone and among many others",
    "D21": "property-based testing of long generated inputs under a limit of CPU time",
    "T01": "property-based testing: generated links with known meaning, one-character faults enumerated",
    "T02": "property-based testing: round trip from generated parameters",
    "T03": "property-based testing: reference reading of generated selections, short lists enumerated",
    "T04": "property-based fuzzing for totality, under a counting allocator and a CPU limit",
    "T05": "property-based testing: round trip from generated torrents",
    "T06": "property-based fuzzing: structured faults and damage against a reference judge",
    "T07": "property-based fuzzing of paths against a containment predicate",
    "T08": "model-based property testing of sequences of links",
    "T09": "property-based fuzzing under a counting allocator and a CPU limit",
    "T10": "metamorphic property testing of call histories on families of similar inputs, in one place and on several threads",
    "T11": "property-based testing of long generated inputs under a limit of CPU time",
    "T12": "property-based testing of generated links and texts with one fault against the expected error",
    "S01": "property-based testing: round trip and reference decoder, all escapes enumerated",
    "S02": "property-based testing: round trip from a reference encoder",
    "S03": "property-based testing: defining equations, short texts enumerated",
    "S04": "property-based testing of long generated inputs under a limit of CPU time",
}
NOTE = {
    "B07": "Eight known findings (very deep values overflow the stack when dropped) are reported as KNOWN-FINDING lines.",
    "D08": "Statistical: thresholds are set so that a correct sampler fails with negligible probability; biases of a few per cent are not seen.",
    "C06": "Statistical for reachability: thresholds are set so that a correct generator fails with negligible probability.",
}
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if c.split(" ", 1)[1].startswith("verif hooks")]
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {"guard": "--cfg verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" (set by check.sh)", "source_commits": hooks},
    "checks": [],
    "not_applicable": [],
    "notes": "check.sh builds the harness crate of the property against /repo's working tree and runs it; see DESIGN.md.",
}
base = "Randomised and partly exhaustive search with a fixed seed against an independent oracle, on the real code: no counterexample among the cases of the run, not a proof. Trusts the oracle in /verif/harness."
for p in props:
    i = p["id"]
    m["checks"].append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH[i],
        "level": "exploration",
        "level_note": (base + " " + NOTE.get(i, "")).strip(),
    })
json.dump(m, open(f"{home}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
