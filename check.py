#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--jobs N] [--keep]

Decides one property with the Kani/CBMC model checker on the current sources of /repo.

Exit 0: every harness verified and every reachability witness satisfied.
Exit 1: a harness failed and the counterexample reproduces natively; prints a VIOLATION line.
Exit 2: no verdict (build failure, time limit, bound too small, witness unreachable,
        counterexample that does not replay)."""

import argparse
import json
import os
import re
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import specs  # noqa: E402

WORK = os.path.join(VERIF, ".work")
EVIDENCE = os.path.join(VERIF, "evidence")
NATIVE_TOOLCHAIN = "nightly"


def env(extra=None):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUST_BACKTRACE": "0"})
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(extra or {})
    return e


def run(cmd, cwd, timeout, log, extra_env=None, stop=None):
    """Runs cmd in its own process group, output to log; the exit code, None on timeout, or what
    `stop` returned on the output so far, if anything."""
    with open(log, "w") as out:
        p = subprocess.Popen(cmd, cwd=cwd, env=env(extra_env), stdout=out, stderr=subprocess.STDOUT,
                             start_new_session=True)
        end = time.time() + timeout
        try:
            while True:
                try:
                    return p.wait(timeout=1)
                except subprocess.TimeoutExpired:
                    why = stop and stop(open(log, errors="replace").read())
                    if why or time.time() > end:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        return why or None
        except BaseException:
            os.killpg(p.pid, signal.SIGKILL)
            raise


def fail(msg, log=None):
    print(f"NO-VERDICT: {msg}")
    if log and os.path.exists(log):
        lines = [l for l in open(log, errors="replace").read().splitlines()
                 if not re.match(r"(aborting path|Unwinding|Not unwinding)", l)]
        print("\n".join(lines[-40:]))
    sys.exit(2)


def fname(h):
    return h.replace("::", ".")


def outcomes(text):
    """Harnesses that failed an assertion so far, from Kani's interleaved terse output:
    {harness: [descriptions]}."""
    current, block, failed = {}, None, {}
    for line in text.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+)\.\.\.", line)
        if m:
            current[m.group(1)] = m.group(2)
            block = m.group(2)
            continue
        m = re.match(r"Thread (\d+): *$", line)
        if m:
            block = current.get(m.group(1))
            continue
        m = re.match(r"Failed Checks: (.*)", line)
        if m and block and not NO_VERDICT.search(m.group(1)):
            failed.setdefault(block, []).append(m.group(1))
    return failed


NO_VERDICT = re.compile(r"unwinding assertion|is not currently supported by Kani|unsupported|recursion unwinding|LIMIT:")


class Check:
    def __init__(self, pid, tier, jobs):
        self.pid, self.tier = pid, tier
        self.spec = specs.SPECS[pid]
        self.crate = self.spec["crate"]
        self.dir = os.path.join(VERIF, "harness", self.crate)
        self.work = os.path.join(WORK, self.crate)
        self.jobs = jobs or self.spec.get("jobs", 8)
        os.makedirs(self.work, exist_ok=True)
        self.start = time.time()
        self.limit = specs.LIMIT[tier]
        self.lockfile()

    def lockfile(self):
        """Cargo.lock is committed; restore it should cargo ever want to change it."""
        self.lock = os.path.join(self.dir, "Cargo.lock")
        self.lock_text = open(self.lock).read() if os.path.exists(self.lock) else None

    def restore(self):
        if self.lock_text is not None and open(self.lock).read() != self.lock_text:
            open(self.lock, "w").write(self.lock_text)

    def left(self):
        return self.limit - (time.time() - self.start)

    def kani(self, harnesses, log, out_json, stop):
        budget = min(self.spec.get("harness_timeout", specs.HARNESS_TIMEOUT)[self.tier], max(30, self.left() - 60))
        cmd = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options",
               "--target-dir", os.path.join(self.work, "kani"), "--lib",
               "-j", str(self.jobs), "--output-format", "terse", "--exact",
               "--export-json", out_json, "--harness-timeout", f"{int(budget)}s"]
        cmd += ["--no-assertion-reach-checks"] + self.spec.get("kani_args", [])
        for h in harnesses:
            cmd += ["--harness", h]
        if os.path.exists(out_json):
            os.remove(out_json)
        rc = run(cmd, self.dir, max(30, self.left() - 40), log, stop=stop)
        self.restore()
        return rc

    def main(self):
        harnesses = list(self.spec["quick"])
        if self.tier == "thorough":
            harnesses += self.spec.get("thorough", [])
        known = [k for k in specs.known_findings() if k["property"] == self.pid and k["status"] == "known"]
        log = os.path.join(self.work, f"{self.pid}.log")
        out_json = os.path.join(self.work, f"{self.pid}.json")
        self.summary = {"functions": set(), "checks": 0, "vccs": 0, "solver_s": 0.0, "symex_s": 0.0,
                        "steps": 0, "covers": 0}
        undecided, tried = [], {}
        known_seen = set()

        def attempt(h, whats):
            """Replays the counterexample of a failed harness; True if it is a violation to report."""
            if h not in tried:
                tried[h] = self.replay(h)
            if tried[h] is None:
                undecided.append((h, "counterexample did not replay natively: " + whats[0]))
                return False
            what, path = tried[h]
            for k in known:
                if k["harness"] == h and k["check"] in what:
                    known_seen.add(k["what"])
                    return False
            self.evidence(harnesses, 1)
            print(f"  {h}: {what}")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.exit(1)

        known_harnesses = {k["harness"] for k in known}

        def stop(text):
            new = {h: w for h, w in outcomes(text).items() if h not in tried and h not in known_harnesses}
            return new or None

        while True:
            rc = self.kani([h for h in harnesses if h not in tried], log, out_json, stop)
            if isinstance(rc, dict):
                for h, whats in rc.items():
                    attempt(h, whats)
                if self.left() < 60:
                    fail("time limit reached", log)
                continue
            break
        if rc is None:
            for h, whats in outcomes(open(log, errors="replace").read()).items():
                attempt(h, whats)
            fail("time limit reached", log)
        if not os.path.exists(out_json):
            fail("the model checker produced no result (does the code compile?)", log)
        data = json.load(open(out_json))
        os.remove(out_json)
        results = {r["harness_id"]: r for r in data["verification_results"]["results"]}
        stats = {c["harness_id"]: (c.get("cbmc_stats") or {}) for c in data["cbmc"]}
        missing = [h for h in harnesses if h not in results and h not in tried]
        if missing:
            fail(f"harnesses not run: {', '.join(missing)}", log)
        suspects = []
        self.slowest = []
        for h in harnesses:
            if h not in results:
                continue
            r, s = results[h], stats.get(h, {})
            self.summary["vccs"] += int(s.get("vccs_remaining") or 0)
            self.summary["steps"] += int(s.get("size_program_expression") or 0)
            self.summary["solver_s"] += float(s.get("runtime_decision_procedure_s") or 0)
            self.summary["symex_s"] += float(s.get("runtime_symex_s") or 0)
            self.slowest.append((float(s.get("runtime_symex_s") or 0) + float(s.get("runtime_decision_procedure_s") or 0), h))
            bad, unwind, covers = [], [], []
            for c in r["checks"]:
                where = str(c["location"].get("file", ""))
                if "/repo/" in where or where.startswith("../../../repo"):
                    self.summary["functions"].add(c["function"])
                st, cat = c["status"].lower(), c["category"]
                if cat == "cover":
                    covers.append(c)
                    continue
                self.summary["checks"] += 1
                if st == "failure":
                    (unwind if cat in ("unwind", "unwinding", "unsupported_construct") or NO_VERDICT.search(c["description"])
                     else bad).append(c)
            self.summary["covers"] += len(covers)
            if bad:
                suspects.append((h, [c["description"] for c in bad]))
            elif unwind:
                undecided.append((h, "bound or construct: " + unwind[0]["description"] + " in " + unwind[0]["function"]))
            elif r["status"].lower() != "success":
                undecided.append((h, f"status {r['status']} (time or memory limit of {h})"))
            elif not covers:
                undecided.append((h, "no reachability witness"))
            else:
                for c in covers:
                    if c["status"].lower() != "satisfied":
                        undecided.append((h, f"witness not reachable: {c['description']} ({c['status']})"))
        for h, whats in suspects:
            attempt(h, whats)
        for what in sorted(known_seen):
            print(f"KNOWN-FINDING: property={self.pid} {what}")
        self.evidence(harnesses, 0)
        if undecided:
            for h, why in undecided:
                print(f"  {h}: {why}")
            fail(f"{len(undecided)} of {len(harnesses)} harnesses undecided", None)
        print(f"OK property={self.pid} tier={self.tier} harnesses={len(harnesses)} vccs={self.summary['vccs']} "
              f"solver_s={self.summary['solver_s']:.1f} wall_s={time.time() - self.start:.0f} slowest={max(self.slowest)}")

    def counterexamples(self, h):
        """Concrete input values, one list per failing check."""
        log = os.path.join(self.work, f"{self.pid}.{fname(h)}.playback.log")
        cmd = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options", "-Z", "concrete-playback",
               "--concrete-playback=print", "--target-dir", os.path.join(self.work, "kani"), "--lib",
               "--exact", "--harness", h]
        cmd += ["--no-assertion-reach-checks"] + self.spec.get("kani_args", [])
        rc = run(cmd, self.dir, max(60, self.left()), log)
        self.restore()
        if rc is None:
            return []
        out = []
        text = open(log, errors="replace").read()
        for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S):
            vals = [v.replace(",", " ").split() for v in re.findall(r"^\s*vec!\[(.*?)\],?\s*$", m.group(1), re.M)]
            out.append(vals)
        return out

    def native(self):
        for profile in ([], ["--release"]):
            log = os.path.join(self.work, "native.log")
            cmd = ["cargo", "build", "--example", "replay", "--target-dir", os.path.join(self.work, "native")] + profile
            rc = run(cmd, self.dir, 600, log, {"RUSTUP_TOOLCHAIN": NATIVE_TOOLCHAIN})
            self.restore()
            if rc != 0:
                fail("native replay does not build", log)

    def replay(self, h):
        """Re-executes the harness natively; (description, replay file) or None."""
        self.native()
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        for i, vals in enumerate(self.counterexamples(h)):
            path = os.path.join(EVIDENCE, "replay", f"{self.pid}.{fname(h)}.{i}.txt")
            with open(path, "w") as f:
                f.write("\n".join(" ".join(v) for v in vals) + "\n")
            for profile in ("debug", "release"):
                exe = os.path.join(self.work, "native", profile, "examples", "replay")
                p = subprocess.run([exe, h], env=env({"VK_REPLAY": path}), capture_output=True, text=True, timeout=120)
                if p.returncode in (42, 101, 134, -6, -11):
                    lines = p.stderr.splitlines()
                    what = [l for l in lines if l.startswith("VK: violated")]
                    what = what[-1] if what else " ".join(l.strip() for l in lines if "panicked at" in l or not l.startswith("VK:"))[:300]
                    with open(path + ".log", "w") as f:
                        f.write(f"# {self.pid} {h} ({profile} profile, exit {p.returncode})\n"
                                f"# cd {self.dir} && VK_REPLAY={path} cargo +{NATIVE_TOOLCHAIN} run --offline --example replay -- {h}\n"
                                + p.stderr)
                    return what, path
        return None

    def evidence(self, harnesses, violations):
        s = self.summary
        os.makedirs(EVIDENCE, exist_ok=True)
        doc = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": self.spec.get("level", "other"),
            "coverage": {
                "explanation": "Bounded symbolic execution of the real sources with Kani/CBMC; the SAT solver decides "
                               "every assertion for all values of the symbolic inputs within the bounds.",
                "functions_encoded": sorted(s["functions"]),
                "bounds": self.spec["bounds"],
                "harnesses": harnesses,
                "queries_discharged": s["vccs"],
                "assertions_checked": s["checks"],
                "reachability_witnesses": s["covers"],
                "program_steps": s["steps"],
                "symex_s": round(s["symex_s"], 2),
                "solver_s": round(s["solver_s"], 2),
            },
            "wall_s": round(time.time() - self.start, 1),
            "assumptions": specs.COMMON_ASSUMPTIONS + self.spec.get("assumptions", []),
            "violations": violations,
        }
        with open(os.path.join(EVIDENCE, f"{self.pid}.json"), "w") as f:
            json.dump(doc, f, indent=1)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args()
    Check(a.property, a.tier, a.jobs).main()


main()
