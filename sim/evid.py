"""Evidence files."""
import json, os

FAULTS = ("kill", "torn_write", "restart", "short_write", "stall", "hold", "held_until_change", "resubmitted_after_io_error")


def nfaults(stats):
    return int(sum(v for k, v in stats.items() if k in ("kill", "torn_write", "short_write", "stall") or k.startswith("err_") or k.startswith("fault_")))


def write(verif, prop, tier, seed, rr, stats, ev, wall, status, viol, kf):
    from . import about
    A = about.ABOUT[prop]
    faults = {k: int(v) for k, v in sorted(stats.items()) if k in FAULTS or k.startswith("err_") or k.startswith("fault_")}
    twice = [e for e in ev if e["t"] == "twice"]
    nontriv = {e["sched"] for e in rr if A["nontrivial"](e["stats"])}
    samples = [{"index": e["i"], "scenario": e["scn"], "digest": e["digest"], "stats": e["stats"], **({"detail": e["sample"]} if "sample" in e else {})}
               for e in rr if e.get("scn")][:3]
    d = {"property": prop, "tier": tier, "seed": int(seed), "level": A.get("level", "exploration"), "wall_s": round(wall, 2),
         "violations": 1 if status == 1 else 0,
         "coverage": {
             "evaluations": len(rr),
             "distinct_nontrivial": len(nontriv),
             "rule": A["rule"],
             "samples": samples,
             "simulated_runs_per_hour": int(len(rr) / max(wall, 0.01) * 3600),
             "simulated_seconds": stats.get("sim_s", 0),
             "simulated_operations": int(stats.get("steps", 0)),
             "faults_injected": faults,
             "runs_with_faults": sum(1 for e in rr if nfaults(e["stats"])),
             "distinct_schedules": len({e["sched"] for e in rr}),
             "schedule_measure": A["measure"],
             "totals": {k: v for k, v in sorted(stats.items()) if k not in faults},
             "determinism_pairs_checked": len(twice),
             "determinism_mismatches": sum(1 for e in twice if not e["same"]),
             "violations_attributed_to_other_properties": sum(1 for e in ev if e["t"] == "elsewhere"),
             "other_classes_seen": sorted({c for e in rr for c in e["other"]}),
             "real_components": A["real"], "stubbed_components": A["stub"],
         },
         "assumptions": A["assumptions"]}
    if viol:
        d["coverage"]["violation"] = {k: viol[k] for k in ("class", "text", "i", "digest")}
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    p = os.path.join(verif, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(p + ".tmp", p)
