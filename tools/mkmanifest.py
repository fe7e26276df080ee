"""Write MANIFEST.json: claimed are the properties that have a module in sim/props."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

NOTE = {
    "C01": "Seeded search: every sample of random spaces under plain and distorted random streams is judged by a reference model of the definition. Trusts the model; abstains within 1e-9 of continuous thresholds.",
    "C02": "Seeded search with bursts of unlucky draws: exact counts, and work bounded by a budget in control-flow events and drawn values. Shares of acceptable candidates below 3 percent are not explored.",
    "C03": "Seeded search: each history runs twice under disturbed global state, and a sample of them again in interpreters with other hash seeds; results must be identical.",
    "C04": "Seeded search over build orders and batchings the model accepts; behaviour of the resulting spaces must be identical.",
    "C05": "Seeded search over histories of accepted, rejected and interrupted additions against a twin that never saw the failed call and a reference model.",
    "C06": "Seeded search over interleaved and abandoned neighbour streams with plain and distorted randomness; every neighbour is judged by the model's assignment semantics.",
    "C07": "Seeded search over assignment histories with interrupts at chosen calls, against the model step by step.",
    "C08": "Seeded search over histories of reads, assignments, failures and copies; all views must agree with each other and the model.",
    "C09": "Seeded search over build-up histories; verdicts on valid and broken assignments must be the model's.",
    "C10": "Seeded search over save and load histories on a fault-injecting file layer (full disk, I/O errors, short and torn writes, crashes). No claim about power loss.",
    "C11": "Seeded search over histories with restarts through deep copies and pickles, against the run without restarts.",
    "C12": "Seeded search over thread interleavings at line granularity inside ConfigSpace; oracle is each program run alone. Preemption inside numpy and scipy calls is not modelled.",
    "C13": "Seeded search over thread interleavings at line granularity inside ConfigSpace; oracle is each program run alone. Preemption inside numpy and scipy calls is not modelled.",
    "C14": "Seeded search over nesting histories including rejected and interrupted ones, against the composed reference model and untouched twins.",
    "C15": "Seeded search over query histories against an untouched twin; caller-owned inputs and returned objects are compared and altered.",
    "C16": "Seeded search over queries interrupted at chosen calls and retried, against an untouched twin.",
    "C17": "Seeded search over sources and random streams, including spaces with few or no neighbours; validity by the model, termination by an event budget.",
    "C18": "Seeded search over hyperparameter definitions and random streams including extreme and repeated draws; legality by definition.",
    "C19": "Seeded long streams judged by statistical bounds with a total false-alarm probability below one in a million; deviations too small for the stream length are not detected.",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "sim/props", i.lower() + ".py")):
            checks.append({
                "property": i,
                "quick_cmd": f"{PY} check.py {i}",
                "thorough_cmd": f"{PY} check.py {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation with fault injection (seeded search, replayable plans)",
                "level": "exploration",
                "level_note": NOTE[i],
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
    m = {
        "version": 1,
        "setup_cmd": f"{PY} tools/setup.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every seam is an argument the API takes, an interpreter facility (sys.monitoring) or the file system. Replay a failure with check.py --replay <file>.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


PURE = "A pure function of its input: no schedule, clock, fault, randomness or I/O takes part, so simulation has nothing to decide. "
NA = {
    "P01": PURE + "That densities do not disturb other results is part of C15.",
    "P02": PURE + "Enumerating grids would be input testing.",
    "P03": PURE,
    "P04": PURE + "The text is built and parsed in memory by one call each.",
    "P05": PURE,
    "P06": "PyYAML is not installed here and cannot be fetched, so the code cannot run at all.",
}

main()
