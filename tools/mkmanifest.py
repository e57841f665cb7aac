# Writes MANIFEST.json from properties.jsonl and the scenarios present in sim/.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = "deterministic simulation with fault injection: seeded search over %s, replayable seed and minimised trace"
WHAT = {
 "C01": ("decks, read chunkings, interrupted reads and target histories", "executable reference model of the deck"),
 "C02": ("decks, cut positions and read errors", "leading records of the deck from the generator"),
 "C03": ("neutral meshes, chunkings, cuts, damaged tokens and read errors", "generator's own data"),
 "C04": ("output, log-file, clock and memory-content faults on whole analyses", "bit-exact comparison with an undisturbed isolated run"),
 "C05": ("analyses, write/open/close faults and crash points", "snapshots parsed and compared with what an in-process observer saw"),
 "C06": ("analyses, recorder sets, write/open/close faults and crash points", "reaction sums from an in-process observer"),
 "C07": ("disturbances of the equation solver (noise, stalls, NaN, exceptions)", "convergence protocol replayed from the recorded solver calls"),
 "C08": ("models, solver perturbations, constraint sets", "independent Newton solution and residual evaluation"),
 "C09": ("models, registration/assembly schedules and initial memory contents", "independent dense extended-precision solution"),
 "C10": ("models, time windows, Newmark parameters and interleaved users of the equation solver", "independent Newmark recurrence"),
 "C11": ("interleavings and nestings of several analyses", "bit-exact comparison with each analysis run alone"),
 "C12": ("allocation failure points", "fault-free baseline, memory-error detector, fresh analysis after the failure"),
 "C13": ("histories of build, solve, delete and rebuild operations", "fresh storage with the same model, live-block accounting"),
 "C14": ("models, dump cuts, write/read faults and byte corruption", "stored-entry comparison model"),
 "C15": ("time windows and step/iteration histories", "executable model of the load clock"),
 "C16": ("command lines, decks, reference curves and file faults", "expected verdict from the generator"),
 "C17": ("interleavings of clients of the shared equation solver", "independent dense solution and singularity test"),
 "C18": ("registration histories", "set model of registered DoFs, bijection check"),
 "C19": ("operation histories on matrices sharing patterns", "dense matrix model"),
 "C24": ("operation histories on vectors, windows and dense matrices with failing allocations", "array model of every object, live-block accounting"),
}
NA = {
 "C20": "an element routine is a pure function of geometry, material constants and DoF values: no schedule, clock, I/O, fault or history takes part, so a simulator has nothing to control (histories that do matter, such as solving again, are in C13)",
 "C21": "pure closed-form functions of a deformation tensor; nothing to schedule or to fail",
 "C22": "pure arithmetic on fixed-size operands; nothing to schedule or to fail (allocation failure of the dynamic matrix is in C12)",
 "C23": "the SWIG module is not built in this configuration and swig is not installed, so the bindings cannot be run inside the simulator",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in WHAT and os.path.exists(f"{V}/sim/prop_{i}.cpp"):
        over, oracle = WHAT[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
          evidence_file=f"evidence/{i}.json", technique=TECH % over, level="exploration",
          level_note=f"The property held on every simulated run of the seeded search ({over}); oracle: {oracle}. Not exhaustive. Trusted: the simulator, g++ and libstdc++, AddressSanitizer; the code runs in the non-MKL configuration built by /opt/vp/build.sh, all of it real except disk, clock and allocator."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "scenario not built yet")))
json.dump(dict(version=1, setup_cmd="make -s -j8 base", checks=checks, not_applicable=na,
  notes="No hooks in /repo: disk, clock, allocator, exit/abort are interposed at link level; schedules enter through the library's own callback interfaces."),
  open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
