#!/usr/bin/env python3
"""Runs the monitors of one property:  run.py C01 [--tier quick|thorough] [--seed N]
   Replays a reported violation:       run.py --replay replays/<file>.json
   Builds everything beforehand:       run.py --setup

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself could not do its work."""
import json, os, re, resource, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF / "harness"))
import build as B
from checks import CHECKS

SHARDS = 8
HANG = 90          # seconds without finishing a case before it is looked at on its own
HANG_ALONE = 180   # seconds the case gets on its own
VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no"]
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:"
                    "check_initialization_order=1:allocator_may_return_null=0:hard_rss_limit_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=67",
}


class Inconclusive(Exception):
    pass


def environment():
    e = dict(os.environ)
    e.update(SAN_ENV)
    for k in ("LLVM_SYMBOLIZER",):
        e.pop(k, None)
    e["OMP_NUM_THREADS"] = "1"
    return e


def limits(config):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if config in ("plain", "quad", "cov"):
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def last_case(progress):
    try:
        lines = progress.read_text().split()
    except FileNotFoundError:
        return None
    return lines[-1] if lines else None


def tail(path, n=2500):
    try:
        s = path.read_bytes().decode(errors="replace")
    except FileNotFoundError:
        return ""
    # the head of a sanitizer report is what matters
    m = re.search(r"(==\d+== ?[A-Z]|WARNING: ThreadSanitizer|runtime error|Assertion)", s)
    return s[m.start():m.start() + n] if m else s[-n:]


def describe_failure(rc, err):
    m = re.search(r"SUMMARY: (.*)", err)
    if m:
        return m.group(1)
    m = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid|Syscall param|Source and dest|Mismatched|Process terminating)[^\n]*", err)
    if m:
        frames = re.findall(r"==\d+== +(?:at|by) 0x[0-9A-F]+: ([^\n]*)", err)
        here = next((x for x in frames if "matslise" in x), "")
        return "valgrind: " + m.group(0).split("== ", 1)[1] + (" at " + here[:160] if here else "")
    m = re.search(r"([^\n]*(runtime error|Assertion)[^\n]*)", err)
    if m:
        return m.group(1)
    return f"signal {-rc}" if rc < 0 else f"exit status {rc}"


class Part:
    """One driver in one build configuration."""

    def __init__(self, prop, spec, tier, seed, work):
        self.prop, self.spec, self.tier, self.seed, self.work = prop, spec, tier, seed, work
        self.config = spec.get("config", "plain")
        self.name = f"{spec['driver']}-{self.config}"
        self.violations, self.notes = [], []

    def command(self, extra):
        return (VALGRIND if self.config == "vg" else []) + [str(self.exe), "--seed", str(self.seed), "--tier", self.tier, "--cases", str(self.cases)] + extra

    def build(self):
        self.exe = B.build(self.config, self.spec["driver"], matscs=self.spec.get("matscs", False),
                           extra=self.spec.get("extra", ()))
        self.cases = self.spec["cases"][0 if self.tier == "quick" else 1]

    def alone(self, case):
        """Runs one case again. Returns None when it ends normally, otherwise what happened."""
        err = self.work / f"{self.name}.alone.err"
        with open(err, "wb") as e:
            p = subprocess.Popen(self.command(["--only", str(case)]), stdout=subprocess.DEVNULL, stderr=e,
                                 env=environment(), preexec_fn=limits(self.config))
            try:
                rc = p.wait(HANG_ALONE)
            except subprocess.TimeoutExpired:
                kill(p)
                return "does not end", f"no end after {HANG_ALONE} s"
        if rc in (0, 1):
            return None
        t = tail(err)
        return describe_failure(rc, t), t

    def shard(self, k):
        start = 0
        outs = []
        attempt = 0
        while True:
            attempt += 1
            base = self.work / f"{self.name}.{k}.{attempt}"
            out, viol, prog, err = (base.with_suffix(s) for s in (".out", ".viol", ".prog", ".err"))
            # with_suffix would eat the attempt number
            out, viol, prog, err = (Path(str(base) + s) for s in (".out", ".viol", ".prog", ".err"))
            outs.append((out, viol))
            with open(err, "wb") as e:
                p = subprocess.Popen(
                    self.command(["--shard", f"{k}/{SHARDS}", "--start", str(start), "--out", str(out), "--viol", str(viol),
                                  "--progress", str(prog)]), stdout=subprocess.DEVNULL, stderr=e, env=environment(),
                    preexec_fn=limits(self.config))
                hung = False
                seen, since = None, time.time()
                while True:
                    try:
                        rc = p.wait(1)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    if self.stop:
                        kill(p)
                        return outs
                    now = prog.stat().st_size if prog.exists() else 0
                    if now != seen:
                        seen, since = now, time.time()
                    elif time.time() - since > HANG:
                        hung = True
                        kill(p)
                        rc = -9
                        break
            last = last_case(prog)
            if rc in (0, 1) and last == "done":
                return outs
            t = tail(err)
            if last in (None, "done"):
                # e.g. leaks found at exit: the whole shard is the witness
                if last == "done":
                    self.violations.append({"case": -1, "oracle": describe_failure(rc, t), "detail": t, "problem": f"shard {k}/{SHARDS}",
                                            "shard": k})
                    return outs
                raise Inconclusive(f"{self.name} did not start: {t}")
            case = int(last)
            what = self.alone(case)
            if what is None and not hung and self.config == "tsan":
                # a race that was reported once is a race
                what = (describe_failure(rc, t), t)
            if what is None:
                self.notes.append(f"case {case}: {'slow' if hung else describe_failure(rc, t)}, not reproduced")
                if len(self.notes) > 4:
                    raise Inconclusive("; ".join(self.notes))
            else:
                self.violations.append({"case": case, "oracle": what[0][:300], "detail": what[1], "problem": ""})
                if len(self.violations) >= 3 or hung:
                    self.stop = True
                    return outs
            start = case + 1

    def run(self):
        self.stop = False
        with ThreadPoolExecutor(SHARDS) as ex:
            outs = [o for r in ex.map(self.shard, range(SHARDS)) for o in r]
        s = {"cases": 0, "skipped": 0, "evaluations": 0, "counts": {}, "observed": {}, "worst": {}, "distinct": set(), "samples": []}
        for out, viol in outs:
            if out.exists():
                d = json.loads(out.read_text(), strict=False)
                for k in ("cases", "skipped", "evaluations"):
                    s[k] += d[k]
                for k in ("counts", "observed"):
                    for n, v in d[k].items():
                        s[k][n] = s[k].get(n, 0) + v
                for n, v in d["worst"].items():
                    if n not in s["worst"] or v[0] > s["worst"][n][0]:
                        s["worst"][n] = v
                s["distinct"] |= set(d["distinct"])
                s["samples"] += d["samples"][:2]
            if viol.exists():
                for line in viol.read_text(errors="replace").splitlines():
                    try:
                        self.violations.append(json.loads(line, strict=False))
                    except json.JSONDecodeError:
                        self.violations.append({"case": -1, "oracle": "unreadable report", "detail": line, "problem": ""})
        for v in self.violations:
            v["part"] = self.spec["driver"]
            v["config"] = self.config
        self.summary = s
        return s


def known_findings():
    f = VERIF / "known-findings.json"
    return json.loads(f.read_text())["findings"] if f.exists() else []


def matches(finding, prop, v):
    return (finding["property"] == prop and finding["oracle"] == v["oracle"] and
            finding.get("part", v["part"]) == v["part"] and finding["problem"] in v["problem"])


def main():
    args = sys.argv[1:]
    if args[:1] == ["--setup"]:
        print("setup: the checks build what they need from /repo")
        return 0
    if args[:1] == ["--replay"]:
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = 1.0
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
        elif args[i] == "--seed":
            seed = int(args[i + 1])
        elif args[i] == "--scale":
            scale = float(args[i + 1])
        i += 2
    t0 = time.time()
    check = CHECKS[prop]
    parts, findings_seen, fresh = [], {}, []
    with tempfile.TemporaryDirectory(prefix=f"verif-{prop}-") as w:
        for spec in check["parts"]:
            if tier == "quick" and not spec["cases"][0]:
                continue
            part = Part(prop, spec, tier, seed, Path(w))
            part.build()
            part.cases = max(1, int(part.cases * scale))
            part.run()
            parts.append(part)
    known = known_findings()
    for part in parts:
        for v in part.violations:
            f = next((f for f in known if matches(f, prop, v)), None)
            if f:
                findings_seen[f["what"]] = f
            else:
                fresh.append((part, v))
    for f in known:
        if f["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {f['what']}" + ("" if f["what"] in findings_seen else " (not reached by this run)"))

    evidence(prop, check, parts, tier, seed, time.time() - t0, len(fresh))
    if fresh:
        shown = set()
        for part, v in fresh:
            key = (part.name, v["oracle"])
            if key in shown or len(shown) >= 8:
                continue
            shown.add(key)
            rdir = Path(os.environ.get("VERIF_REPLAYS", VERIF / "replays"))
            rdir.mkdir(exist_ok=True)
            path = rdir / f"{prop}-{part.name}-{seed}-{v['case']}-{len(shown)}.json"
            path.write_text(json.dumps({"property": prop, "spec": part.spec, "tier": tier, "seed": seed, "cases": part.cases, **v}, indent=1))
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {part.name} case {v['case']}: {v['oracle']}: {v['detail'][:600]}")
            if v["problem"]:
                print(f"  {v['problem'][:600]}")
        print(f"{prop}: {len(fresh)} violations")
        return 1
    for part in parts:
        s = part.summary
        floor = part.spec.get("floor", 0.5)
        if s["cases"] < floor * part.cases or s["evaluations"] == 0:
            raise Inconclusive(f"{part.name} observed too little: {s['cases']} of {part.cases} cases, {s['evaluations']} evaluations")
        for n in part.spec.get("must_see", ()):
            if not s["observed"].get(n):
                raise Inconclusive(f"{part.name} never observed '{n}'")
    n = sum(p.summary["cases"] for p in parts)
    e = sum(p.summary["evaluations"] for p in parts)
    print(f"{prop}: held on {n} cases, {e} oracle evaluations, {time.time() - t0:.0f} s")
    return 0


def evidence(prop, check, parts, tier, seed, wall, violations):
    d = Path(os.environ.get("VERIF_EVIDENCE", VERIF / "evidence"))
    d.mkdir(exist_ok=True)
    cov = {
        "evaluations": sum(p.summary["cases"] for p in parts),
        "distinct_nontrivial": sum(len(p.summary["distinct"]) for p in parts),
        "rule": check["rule"],
        "samples": [x for p in parts for x in p.summary["samples"][:6]][:12] or ["none"],
        "oracle_evaluations": sum(p.summary["evaluations"] for p in parts),
        "parts": [{"name": p.name, "cases": p.summary["cases"], "skipped": p.summary["skipped"],
                   "oracles": p.summary["counts"], "observed": p.summary["observed"],
                   "worst_error_over_allowed": p.summary["worst"], "notes": p.notes} for p in parts],
    }
    out = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": check.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    tmp = d / f"{prop}.json.tmp"
    tmp.write_text(json.dumps(out, indent=1))
    os.replace(tmp, d / f"{prop}.json")


def replay(path):
    r = json.loads(Path(path).read_text())
    with tempfile.TemporaryDirectory() as w:
        part = Part(r["property"], r["spec"], r["tier"], r["seed"], Path(w))
        part.build()
        part.cases = r["cases"]
        extra = ["--only", str(r["case"])] if r["case"] >= 0 else ["--shard", f"{r['shard']}/{SHARDS}", "-v"]
        rc = subprocess.run(part.command(extra), env=environment()).returncode
        if rc not in (0, 1):
            print(f"ended with {rc}")
        return 1 if rc else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (Inconclusive, B.BuildError) as e:
        print(f"INCONCLUSIVE: {e}", file=sys.stderr)
        sys.exit(2)
