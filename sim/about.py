"""What each check does, for the evidence files."""
TREAL = ["pycold.imagetool.tile_processing (main of every worker, in its own process)", "pycold.ob_analyst", "pycold.utils", "pycold.app",
         "native detectors built from the tree", "numpy / joblib / scikit-learn / OpenCV / scikit-image / astropy"]
TSTUB = ["file system calls, clock, sleep, directory order, pids and randomness pass through the simulator (backed by real files in a scratch directory)",
         "process kill = SIGKILL at a storage operation; user-space buffers are lost, completed writes survive"]
TASSUME = ["storage keeps the order of completed operations (a network file system without close-to-open caching anomalies)",
           "interleavings are decided at storage, clock and MPI operations: workers share nothing else",
           "the tree's own per-pixel detector is the oracle for pixel values"]
TMEAS = "hash of the sequence (worker, kind of operation) over the whole run"


def tile(rule, nontrivial):
    return dict(rule=rule, nontrivial=nontrivial, measure=TMEAS, real=TREAL, stub=TSTUB, assumptions=TASSUME)


NREAL = ["native detectors built from the tree (C, Fortran, Cython)", "pycold.colds", "numpy", "GSL (linked statically)"]
NSTUB = ["memory requests of the detectors, of GSL and of the Fortran solver pass through the simulator's allocator",
         "thread schedule: one thread runs at a time, handed over by the seed", "crash and endless loop are observed in forked processes (CPU-time limit %d s)" % 30]
NASSUME = ["memory requests of numpy and the Python interpreter do not fail", "series are generated (14 regimes), not all possible ones"]

sw = lambda s: s.get("switches", 0) > 0
fl = lambda s: sum(v for k, v in s.items() if k in ("kill", "torn_write", "short_write", "stall") or k.startswith("err_")) > 0
BASE = "Scenarios are drawn from (seed, index): tile layout, data, settings, number of workers, directory order, clock skew, scheduling policy, fault mix. "
STACK = ("Raw scenes of one tile (HLS 2.0 folders, HLS 1.4 HDF files, Landsat ARD collection 1 and 2 archives, Landsat collection 2 archives) are generated "
         "and stacked by 1-11 simulated workers; collection, layout, scenes, options, schedule and faults are drawn from (seed, index). ")
SREAL = ["pycold.imagetool.prepare_ard (main of every worker, in its own process)", "GDAL (also warping), tarfile, fiona, numpy / pandas"]
SASSUME = TASSUME[:2] + ["the source folder holds scenes of one collection only, one per sensor and day", "storage errors while an archive is unpacked count as a bad scene and are not injected"]
ABOUT = {
    "C01": tile(BASE + "Non-trivial: at least one forced context switch between workers.", sw),
    "C02": tile(BASE + "Non-trivial: at least one fault (kill, torn, short or failed write, stall) fired.", fl),
    "C03": tile(BASE + "Non-trivial: at least one worker was killed and started again.", lambda s: s.get("restart", 0) > 0),
    "C04": tile(BASE + "Non-trivial: at least one forced context switch between workers.", sw),
    "C05": tile(BASE + "Non-trivial: a forced context switch or a fault.", lambda s: sw(s) or fl(s)),
    "C06": tile(BASE + "Non-trivial: a forced context switch or a fault.", lambda s: sw(s) or fl(s)),
    "C07": dict(rule=STACK + "Non-trivial: a forced context switch or a stall.", nontrivial=lambda s: sw(s) or fl(s), measure=TMEAS, real=SREAL, stub=TSTUB, assumptions=SASSUME),
    "C08": dict(rule=STACK + "Scenes are damaged in up to 19 ways, workers are killed (also inside a write), writes fail. Non-trivial: a damaged scene or a fault.",
                nontrivial=lambda s: s.get("bad_scenes", 0) > 0 or fl(s), measure=TMEAS, real=SREAL, stub=TSTUB, assumptions=SASSUME),
    "C09": dict(rule="Record files of one tile are generated (all kinds of segments, missing and empty blocks), exported by 1-7 simulated MPI processes; "
                "layout, year range, method, coefficient layers, schedule and faults are drawn from (seed, index); a killed or failed job is run again. "
                "Non-trivial: a forced context switch or a fault.", nontrivial=lambda s: sw(s) or fl(s), measure=TMEAS,
                real=["pycold.imagetool.export_change_map (main of every process, in its own process)", "GDAL", "numpy / pandas"],
                stub=["MPI (broadcast, barrier: delivery and blocking are decided by the simulator)"] + TSTUB,
                assumptions=TASSUME[:2] + ["when one process of an MPI job dies, the launcher ends the others", "record files are generated, not detected"]),
    "C10": dict(rule="One monitoring history per scenario: initial detection, then updates in batches cut by the seed; the disturbed run adds restarts "
                "(state stored and reloaded in four formats), updates computed and lost, speculative updates, failing memory requests and other "
                "memory contents. Non-trivial: at least one such event.", nontrivial=lambda s: any(k.startswith("fault_") for k in s),
                measure="hash of (history, sequence of events)", real=NREAL + ["pycold.utils (state storage)"], stub=NSTUB, assumptions=NASSUME),
    "C11": dict(rule="One detector call (or a detection followed by near-real-time updates) per scenario, on a generated series; 12 trials in "
                "which a chosen memory request fails (alone, with all later ones, or with some later ones); call sites are sampled uniformly. "
                "Non-trivial: at least one request failed.", nontrivial=lambda s: s.get("fault_failed_request", 0) > 0,
                measure="hash of the set of (call site of the failing request, failure mode, outcome) of a run", real=NREAL, stub=NSTUB, assumptions=NASSUME),
    "C12": dict(rule="One detector call per scenario, repeated under 14 perturbations: initial heap and stack contents, guard zones around every "
                "block and input array, array layout, other calls before it (also ones whose memory requests fail), several threads. "
                "Non-trivial: at least one perturbation was applied.", nontrivial=lambda s: any(k.startswith("fault_") for k in s),
                measure="hash of (call, sequence of perturbations)", real=NREAL, stub=NSTUB, assumptions=NASSUME),
    "C13": dict(rule="Raw scenes of a synthetic tile (pixel histories with and without breaks, some scenes damaged) are stacked, processed and exported by three "
                "simulated jobs one after another, each with its own workers, schedule and faults; the yearly maps are compared with the detector run on "
                "the pixels' raw observations. Non-trivial: a forced context switch or a fault.", nontrivial=lambda s: sw(s) or fl(s), measure=TMEAS,
                real=SREAL + TREAL + ["pycold.imagetool.export_change_map"], stub=["MPI (broadcast, barrier)"] + TSTUB, assumptions=SASSUME + TASSUME[2:]),
}
