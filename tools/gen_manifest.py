#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("online monitor of every analysis result against an independent scan of the input", "every token position recomputed; many millions of tokens over hostile inputs, real and synthetic dictionaries"),
 "C02": ("reference lattice model checked against recorded results", "the total cost of each result equals the minimum of an independently built lattice"),
 "C03": ("reference lattice model checked against recorded results", "search and extended mode judged by cost with penalties and by expansion rules"),
 "C04": ("reference model of candidates checked against recorded results", "every token must be a candidate of the model"),
 "C05": ("history comparison: the same call in different histories and processes", "results compared over shuffled histories, fresh processes and poisoned pools"),
 "C06": ("race detector and linearised comparison under stress with injected delays", "schedules are sampled, not enumerated"),
 "C07": ("monitor of every token accessor against the dictionary tables", "the dictionary tables of the dependency are trusted"),
 "C08": ("differential monitor between entry points", "exact comparison of all entry points on the same calls"),
 "C09": ("monitor parsing the exported graph against the reference lattice", "own DOT parser; graph compared with the model lattice and the result"),
 "C10": ("monitor of filters against the definition of matching", "independent definition of pattern matching"),
 "C11": ("monitor of token filters against their definition", "order, identity and callback log compared"),
 "C12": ("monitor of the splitter against independent rules and conservation of text", "rules re-implemented independently"),
 "C13": ("delivery monitor: recorded reads, same text in many chunkings", "chunkings sampled, small texts cut at every position"),
 "C14": ("monitor of the ja sub-filters against their definition", "token streams recorded and compared"),
 "C15": ("black-box monitor of the real command against library results", "output parsed and compared record by record"),
 "C16": ("race detector in the server plus exchange-by-exchange comparison under concurrent hostile clients", "schedules are sampled; library results stand for the library"),
 "C17": ("fault injection in the renderer with page parser, goroutine and process monitors", "HTML5 parser of golang.org/x/net trusted; renderer faults enumerated from a list"),
 "C18": ("life-cycle monitor with requests held at known points, cancellation and signals", "requests held at four kinds of points; timing sampled"),
 "C19": ("monitor of option checks and of the real commands against a model of the documented options", "independent reading of the option syntax"),
 "C20": ("pool ownership monitor (hook), poison while pooled, race detector", "hook behind build tag verif; schedules sampled"),
 "C22": ("the same observed cases run natively, as linux/386 and as js/wasm, results compared by hash", "linux/386 and js/wasm in node stand for the other platforms"),
 "C23": ("monitor of the WebAssembly function in node and of what the pages' scripts hand to the document", "node and stand-ins for the document replace the browser"),
 "C24": ("output faults (full device, size limit at any byte, gone, early and slow readers) with an exit-status and completeness monitor", "points of failure are sampled"),
 "C25": ("growth monitor (thread processor time, allocated bytes) and leak monitor (live heap, goroutines over rounds)", "two lengths a factor of 16 apart stand for all; a constant factor is not judged"),
 "C26": ("monitor of the output while the input is still open, and of the resident memory of endless runs", "pauses sampled; endless means tens of megabytes"),
 "C21": ("black-box monitor of the real commands against library results", "output parsed and compared"),
}
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "build tag verif", "enable": "go build -tags verif", "source_commits": ["f690fdae62bb6849455650a4d6fa2eb2ae438be1"]},
 "checks": [{"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"bash check.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
   "technique": "runtime monitoring: " + T[p][0], "level": "exploration", "level_note": T[p][1] + "; holds for what was executed, not a proof"} for p in props],
 "not_applicable": [],
 "notes": "Every check builds from /repo's working tree. All randomness derives from VERIF_SEED.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(root + "/MANIFEST.json", "a").write("\n")
