"""Write MANIFEST.json from properties.jsonl and the checks there are."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
    "C01": ("AddressSanitizer and UBSan build of the contour engine under hostile inputs and call orders",
            "No sanitizer report in the executions explored; trusts the sanitizers of gcc and a "
            "deterministic generator of arrays, call orders and re-initialisations."),
    "C02": ("online checker of every traced contour against the grid edges the level crosses",
            "Exact conservation of crossings (each edge one vertex) for the fields generated."),
    "C03": ("traced allocations (engine compiled onto tracemalloc) over repeated operations",
            "No growth of the traced memory over the repetitions run."),
    "C04": ("auditing monitor of every reported eddy against independent geometry",
            "Each eddy observed is judged; margins around the limits are not."),
    "C05": ("conservation monitor: contours traced versus eddies and discards reported",
            "One to one matching in every level observed; reasons recomputed independently."),
    "C06": ("monitor of extrema and signs against point-in-polygon of another library",
            "Every eddy observed on regular, rotated, descending and large grids."),
    "C07": ("recall oracle over planted Gaussians anywhere on the globe",
            "Counts and parameters of the planted eddies within the tolerance of the grid."),
    "C08": ("differential replay after injected failures, interruptions and in fresh processes",
            "Byte equality of the tables over the histories run."),
    "C09": ("write-protected inputs and before/after digests around every operation",
            "No write reached an input in the operations observed."),
    "C10": ("transition checker of the event log of levels (before, alone, after)",
            "Each transition observed is exactly one the specification allows."),
    "C11": ("online checker of the table of tracks against each snapshot analysed alone",
            "Exact equality of contents at each time observed."),
    "C12": ("offline checker of linking decisions replayed from the table of tracks",
            "Each decision observed is the one the specification determines; near ties excluded."),
    "C13": ("prefix comparison of recorded tracks",
            "Exact equality of every prefix of the runs observed."),
    "C14": ("linking checker under injected absences and empty snapshots",
            "Each gap planted is bridged or broken as specified."),
    "C15": ("differential replay on datasets cut to the window, with observed reads of times",
            "Exact equality up to the shift of times; the snapshots read are recorded."),
    "C16": ("file-system observation and exact read-back of stored snapshots",
            "Files, rows and values compared for every run observed."),
    "C17": ("online comparison of every filtered point with a naive reference",
            "Each point of the fields generated, with missing data and edges."),
    "C18": ("differential runs: treated missing data versus prefilled data",
            "Exact equality in the runs observed."),
    "C19": ("crash and watchdog monitor over hostile fields",
            "No exception and no watchdog over the fields generated."),
    "C20": ("metamorphic and reference monitor of areas of polygons",
            "Known areas (caps, quadrangles, ellipses) anywhere on the globe within discretisation."),
    "C21": ("reference monitor of ellipse fits under translation, rotation, scaling, permutation",
            "Parameters recovered within numerical tolerance in the fits observed."),
    "C22": ("reference dynamic program and metamorphic monitor of curve similarity",
            "Exact up to 300 points; within the subsampling bound above."),
    "C23": ("monitor of bounds, improvement and recovery of every Gaussian fit",
            "Every fit observed, called directly and inside detections."),
    "C24": ("monitor of the accept/reject decision by size over latitudes",
            "Decisions observed at both sides of the limit, away from a 2% margin."),
    "C25": ("conservation monitor of generated fields and a bound on the steps of the generator",
            "Fields recomputed from the listed eddies; termination counted in random draws."),
    "C26": ("differential runs over layouts of the same dataset",
            "Equality of the eddies for every layout observed."),
    "C27": ("metamorphic monitor of detection under symmetries",
            "Equality (exact for powers of two, otherwise within rounding) of the eddies observed."),
    "C28": ("monitor of exported dictionaries and tables against the measured properties",
            "Exact equality of the exports observed."),
    "C29": ("differential runs with data altered or removed away from the eddies",
            "Equality of the eddies out of reach of the alteration in the runs observed."),
    "C30": ("differential runs over sources of the same data (memory, files, patterns, chunks, packed)",
            "Exact equality of tables; digests of the files before and after."),
    "C31": ("monitor of the drawn artists of each figure against the tables given to it",
            "One to one matching of contours, centres, colours and legends in the figures observed."),
    "C33": ("stress of concurrent analyses with injected thread switches, compared with each alone",
            "Exact equality of every analysis in the interleavings observed; independent trackers."),
    "C32": ("membership monitor of filled polygons and online checker of masked lines",
            "Each sampled point judged; saddles count as either version."),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, missing = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "checks", i + ".py")) and i in HOW:
            checks.append({
                "property": i, "quick_cmd": "bash run.sh %s" % i,
                "thorough_cmd": "bash run.sh %s thorough" % i,
                "evidence_file": "evidence/%s.json" % i, "technique": HOW[i][0],
                "level": "exploration", "level_note": HOW[i][1]})
        else:
            missing.append({"property": i, "reason": "no check yet"})
    out = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": missing,
           "notes": "Runtime monitoring: every check runs the code of /repo with the contour engine "
                    "compiled from its working tree, under generated workloads, and its monitors "
                    "decide. No hooks were needed in /repo."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
