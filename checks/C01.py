"""C01: memory safety of the contour engine, decided by ASan + UBSan."""
import json
import os
import subprocess
import sys

import build

RULE = ("Each input is one array (shape, values, mask, coordinates, dtype, layout) or order of "
        "calls given to an engine compiled from the working tree with AddressSanitizer and "
        "UndefinedBehaviorSanitizer; distinct = (kind, shape) pairs reached; non-trivial = "
        "contours were traced or the call was refused.")
ASSUMPTIONS = ["ASan finds accesses next to heap buffers and to freed memory, not far ones inside "
               "another live block", "PYTHONMALLOC=malloc, so every engine buffer has red zones"]
NEEDS_TRACKEDDY = False
WATCHDOG = 300
REQUIRED = {"traces": 2000, "traces_with_contours": 800, "vertices": 20000, "inputs": 1500}
KINDS = ["dims", "rand", "mask", "two", "chunk", "saddle", "coords", "layout", "objects",
         "big", "package"]
ENGINE = None


def prepare(tier, seed):
    global ENGINE
    ENGINE = build.build_engine(build.ASAN)


def cases(tier, seed):
    reps = 2 if tier == "quick" else 16
    count = 500 if tier == "quick" else 1500
    for r in range(reps):
        for k in KINDS:
            yield {"kind": k, "seed": seed * 1000 + r, "count": count}


def lib(name):
    return subprocess.run(["gcc", "-print-file-name=" + name], capture_output=True,
                          text=True).stdout.strip()


def run(case, report):
    env = dict(os.environ)
    env.update(
        LD_PRELOAD=lib("libasan.so") + " " + lib("libubsan.so"),
        ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:"
                     "detect_stack_use_after_return=0:allocator_may_return_null=1",
        UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=78",
        PYTHONMALLOC="malloc", PYTHONPATH=build.REPO)
    cmd = [sys.executable, os.path.join(os.path.dirname(build.__file__), "asan_driver.py"),
           ENGINE, case["kind"], str(case["seed"]), str(case["count"])]
    try:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=200,
                           errors="replace")
    except subprocess.TimeoutExpired as exc:
        out = exc.stdout or b""
        last = [l for l in out.decode(errors="replace").splitlines() if l.startswith("AT ")][-1:]
        report.violate("does-not-return", "no answer after 200 s, last input: %s" % last)
        return
    last = [l for l in r.stdout.splitlines() if l.startswith("AT ")][-1:]
    summary = [l for l in r.stdout.splitlines() if l.startswith("SUMMARY ")]
    err = r.stderr
    if "AddressSanitizer" in err or "runtime error:" in err or r.returncode < 0:
        lines = [l for l in err.splitlines()
                 if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "cntr.c" in l]
        first = lines[0] if lines else "died of signal %d" % -r.returncode
        what = "asan" if "AddressSanitizer" in err else "ubsan" if "runtime error" in err else "signal"
        report.violate("%s:%s" % (what, kind_of(first)), "%s | last input: %s | %s" % (
            first[:200], last, " / ".join(l.strip() for l in lines[1:4])[:300]),
            stderr=err[-3000:])
        report.evaluate((case["kind"], "report"))
        return
    end = (err.strip().splitlines() or [""])[-1]
    if r.returncode and end.split(":")[0] in (
            "SystemError", "KeyError", "IndexError", "TypeError", "ValueError", "AttributeError"):
        report.violate("unusable-result:" + end.split(":")[0], "%s | last input: %s" % (
            end[:200], last), stderr=err[-3000:])
        return
    if r.returncode or not summary:
        raise RuntimeError("driver failed (%s): %s %s" % (r.returncode, last, err[-1500:]))
    s = json.loads(summary[0][8:])
    for k, v in s["obs"].items():
        report.see(k, v)
    report.evaluate(None, s["obs"]["inputs"])
    for shape in s["shapes"]:
        report.evaluate((case["kind"], tuple(shape)), 0)
    report.sample = {"case": case, "last_input": last, "observed": s["obs"]}


def kind_of(line):
    for k in ("heap-buffer-overflow", "heap-use-after-free", "double-free", "SEGV",
              "stack-buffer-overflow", "bad-free", "alloc-dealloc", "null pointer",
              "signed integer overflow", "shift", "out of bounds", "misaligned",
              "not representable", "negative-size", "allocation-size"):
        if k in line:
            return k.replace(" ", "-")
    return "other"
