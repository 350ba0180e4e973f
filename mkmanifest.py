"""writes MANIFEST.json"""
import json
P = "/opt/pycold-venv/bin/python"
NOTE = {
 "C01": "Seeded search over worker counts, interleavings, block layouts, listing orders and stalls; every pixel's records compared with the detector. Sampling, not proof.",
 "C02": "Seeded search with kills, torn, short and failed writes; whatever is recognised as finished is checked after every storage operation.",
 "C03": "Seeded search with kills at any operation and restarts; final files compared with the uninterrupted result.",
 "C04": "Seeded search over worker counts, interleavings and layouts; maps and records compared with a whole-tile reference model.",
 "C05": "Seeded search with all fault kinds; liveness as: no configuration in which all workers poll for an hour of simulated time without any change on storage, and no worker fails.",
 "C06": "Seeded search with a seed map; land-cover maps compared with a single-process model trained the same way.",
 "C07": "Seeded search over collections, layouts, options, worker counts, interleavings and listing orders; every block file compared with a model of the scene. Sampling, not proof.",
 "C08": "Seeded search over damaged scenes (up to 19 kinds), kills inside any operation, failed and short writes, restarts; readiness checked after every storage operation.",
 "C09": "Seeded search over process counts, interleavings, layouts, kills and reruns; every exported raster compared with a model written from the property.",
 "C10": "Seeded histories of monitoring updates with storage, loss, retry, failing memory and changed heap contents, compared with the undisturbed history and with invariants over what was delivered.",
 "C11": "Seeded choice of failing requests (one, all later, some later) over generated series; outcome compared with the undisturbed call. Sampling of series and failure patterns.",
 "C13": "Seeded search over scenes (also damaged), collections, layouts, worker counts, schedules, kills and storage errors in all three jobs; yearly maps compared with the detector on raw observations.",
 "C12": "Seeded perturbations of memory contents, layout, call history and thread schedule; results compared bit by bit, guard zones checked.",
}
TECH = {}
checks = [{"property": p, "quick_cmd": "%s run.py --property %s --tier quick" % (P, p), "thorough_cmd": "%s run.py --property %s --tier thorough" % (P, p),
           "evidence_file": "evidence/%s.json" % p, "level": "exploration",
           "technique": TECH.get(p, "deterministic simulation with fault injection (seeded schedules and faults, replayable)"), "level_note": NOTE[p]} for p in sorted(NOTE)]
NA = {
 "C14": "Pure function of one observation series: no schedule, clock, fault or interleaving for a simulator to control.",
 "C15": "Pure function of in-memory arrays: no schedule, clock, fault or interleaving.",
 "C16": "Pure function of the call's parameters: no schedule, clock, fault or interleaving.",
}
json.dump({"version": 1, "setup_cmd": "%s -m sim.build plain autozero autopattern" % P, "checks": checks,
           "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)]}, open("MANIFEST.json", "w"), indent=1)
