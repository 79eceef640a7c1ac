#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   decide one property on /repo's current tree
   check.py --replay <file>               run one recorded failing case again
   check.py --setup                       build everything once"""
import json, os, re, subprocess, sys, time, threading, queue, shutil
import vbuild

VERIF = vbuild.VERIF
LIBNAME = {c: v["fft"] for c, v in vbuild.CONFIGS.items()}
NPROC = max(2, min(8, os.cpu_count() or 2))

# ---- what counts as a violation -------------------------------------------------------------
FATAL = {"crash", "asan", "ubsan", "valgrind", "hang", "deadlock", "no-progress", "collective-mismatch", "result", "exit", "sizes", "canary", "mpi-after-finalize"}
COMM = {"mpi-usage", "truncation", "buffer-overlap", "send-buffer-modified"}
LEAK = {"leak-comm", "leak-group", "leak-request", "leak-type", "heap-growth", "freed-user-memory", "leftover-message", "unfinished-collective"}
EXTRA = {
    "C04": {"input-modified"}, "C06": {"input-modified"}, "C07": {"stage", "input-modified"},
    "C05": {"repeat"},
    "C08": COMM | {"freed-user-memory"},
    "C09": LEAK, "C10": COMM | {"schedule-dependent", "leftover-message", "unfinished-collective"},
    "C11": COMM | {"leftover-message"}, "C12": {"tune-agree", "tune-stats", "tune-best", "tune-time"}, "C13": {"reject"}, "C14": {"iface", "input-modified"},
    "C15": {"history", "repeat", "input-modified", "freed-user-memory"}, "C16": set(), "C17": {"pyiface"}, "C18": {"traffic"},
}

PROBE = {"X08": " [data array aligned to its scalar type only]"}

# ---- plan: config -> number of cases, per tier ----------------------------------------------
PLAN = json.load(open(os.path.join(VERIF, "plan.json")))

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=255:allocator_may_return_null=1:"
                       "detect_stack_use_after_return=0:handle_abort=1:strict_string_checks=1:quarantine_size_mb=32:thread_local_quarantine_size_kb=64")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1"
VALGRIND = ["valgrind", "-q", "--error-exitcode=94", "--track-origins=no", "--leak-check=no", "--max-threads=300", "--num-callers=12",
            "--main-stacksize=8388608", "--exit-on-first-error=yes"]


def worker_cmd(cfg, exe, prop, seed, tier, extra, valgrind=False):
    if cfg == "py":                       # the Python interface: calls into recording callbacks, and every tenth case a real job
        return [shutil.which("python3-vt") or sys.executable, os.path.join(VERIF, "harness", "pymon.py"), "--src", os.path.join(vbuild.REPO, "src"),
                "--libs1", exe[0], "--libs2", exe[1], "--real", "10", "--seed", str(seed)] + extra
    cmd = [exe, "--lib", LIBNAME[cfg], "--prop", prop, "--seed", str(seed), "--tier", tier] + extra
    return (VALGRIND + cmd) if valgrind else cmd


def classify(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    if m:
        top = re.search(r"#0 0x[0-9a-f]+ [^\n]*?(libfftw3f?)\.so", err)
        return "asan", m.group(1)[:160] + (" inside " + top.group(1) if top else "") + where(err)
    m = re.search(r"([^\n]*runtime error: [^\n]*)", err)
    if m:
        return "ubsan", m.group(1)[:240]
    if rc == 94:
        m = re.search(r"==\d+== ([A-Z][^\n]*)", err)
        return "valgrind", (m.group(1) if m else "error")[:160] + where(err)
    if rc == 95:
        return "hang", "the case did not finish within its CPU time limit"
    if rc in (97, 98):
        return "harness", err[-500:]
    if rc < 0:
        return "crash", "killed by signal %d" % -rc
    return "crash", "worker ended with status %d: %s" % (rc, err[-200:])


def where(err):
    fr = re.findall(r"(?:#\d+ 0x[0-9a-f]+ in|(?:at|by) 0x[0-9A-F]+:) ([^\n]*)", err)
    fr = [f for f in fr if "/repo/src" in f or "remap" in f or "fft" in f.lower() or "pack" in f]
    return (" in " + "; ".join(x.strip()[:110] for x in fr[:3])) if fr else ""


OPTIONAL = {"w2", "mk"}                  # over stand-ins, which may lack a function that a later version of the library uses


def build_all(cfgs):
    exes = {}
    try:
        if cfgs & OPTIONAL:
            exes = vbuild.build(sorted(cfgs - {"py"}), fortran=True)
    except vbuild.BuildError:
        cfgs = cfgs - OPTIONAL
    if not exes and cfgs - {"py"}:
        exes = vbuild.build(sorted(cfgs - {"py"}), fortran=True)
    if "py" in cfgs:
        exes["py"] = (vbuild.build_shared(True), vbuild.build_shared(False))
    return exes


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.lock = threading.Lock()
        self.viol, self.others, self.harness = [], {}, []
        self.n = dict(evaluations=0, runs=0, steps=0, switches=0, messages=0, colls=0, bytes=0, blocked=0, any=0, preempts=0, values=0, exact=0, ops=0)
        self.sigs, self.scheds, self.notes, self.calls, self.tags = set(), set(), {}, {}, {}
        self.samples, self.percfg, self.worst, self.maxP = [], {}, 0.0, 0
        self.stop = False
        self.allowed = FATAL | EXTRA.get(prop, set())
        self.skipped = self.outside = 0

    def record(self, cfg, vg, i, kind, detail, text, probe=None):
        if kind == "harness":
            self.harness.append("%s case %d: %s" % (cfg, i, detail))
            return
        if kind not in self.allowed:
            self.others[kind] = self.others.get(kind, 0) + 1
            return
        v = dict(config=cfg, valgrind=vg, case=i, kind=kind, detail=detail, input=text)
        if probe:
            v["probe"] = probe
        self.viol.append(v)
        if len([x for x in self.viol if "probe" not in x]) >= 6:
            self.stop = True

    def event(self, cfg, vg, e):
        with self.lock:
            n = self.n
            n["evaluations"] += 1
            for k in ("runs", "steps", "switches", "messages", "colls", "bytes", "blocked", "any", "preempts", "values", "exact", "ops"):
                n[k] += e[k]
            if e["nt"]:
                self.sigs.add(e["sig"])
            self.scheds.update(e["sched"])
            self.maxP = max(self.maxP, e["P"])
            for k, v in e["notes"].items():
                self.notes[k] = self.notes.get(k, 0) + v
            for k, v in e["calls"].items():
                self.calls[k] = self.calls.get(k, 0) + v
            self.tags[e["tag"]] = self.tags.get(e["tag"], 0) + 1
            self.percfg[cfg + ("+valgrind" if vg else "")] = self.percfg.get(cfg + ("+valgrind" if vg else ""), 0) + 1
            if "text" in e and len(self.samples) < 12:
                self.samples.append("[%s] case %d: %s | %d messages, %d collectives, %d values compared" % (cfg, e["i"], e["text"][:420], e["messages"], e["colls"], e["values"] + e["exact"]))
            seen = set()
            for kind, detail, rank in e["v"]:
                if kind in seen:
                    continue
                seen.add(kind)
                self.record(cfg, vg, e["i"], kind, detail, e.get("text", ""))

    def chunk(self, cfg, vg, exe, a, b, deadline, prop=None):
        while a < b and not self.stop and time.time() < deadline:
            cmd = worker_cmd(cfg, exe, prop or self.prop, self.seed, self.tier, ["--from", str(a), "--to", str(b), "--budget", "%.0f" % max(1, deadline - time.time()),
                             "--casecpu", "600" if vg else "90"], vg)
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, text=True, errors="replace", cwd=self.scratch)
            err = []
            t = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
            t.start()
            timer = threading.Timer(max(20, deadline - time.time() + 150), p.kill)
            timer.start()
            cur, done = a - 1, False
            for line in p.stdout:
                if line.startswith("B "):
                    cur = int(line[2:])
                elif line.startswith("E "):
                    try:
                        self.event(cfg, vg, json.loads(line[2:]))
                    except ValueError:
                        with self.lock:
                            self.harness.append("unreadable record: " + line[:200])
                elif line.startswith("D "):
                    done = True
                    with self.lock:
                        self.worst = max(self.worst, float(line[2:]))
                if self.stop:
                    p.kill()
            p.wait()
            killed = not timer.is_alive()
            timer.cancel()
            t.join(5)
            if self.stop and p.returncode == -9:
                return
            if done and p.returncode == 0:
                with self.lock:
                    self.skipped += max(0, b - 1 - cur)
                return
            if killed:
                return
            if p.returncode == -9:                    # ended from outside (memory pressure): says nothing about the code
                with self.lock:
                    self.skipped += 1
                    self.outside += 1
                    if self.outside > 20:
                        self.harness.append("workers are being killed from outside")
                        self.stop = True
                a = max(cur, a) + 1
                continue
            kind, detail = classify(p.returncode, err[0] if err else "")
            with self.lock:
                self.n["evaluations"] += 1
                self.record(cfg, vg, cur, kind, detail + (PROBE.get(prop, "") if prop else ""), "", prop)
                if kind == "harness":
                    return
            if cur < a:
                return
            a = cur + 1

    def go(self, plan, deadline):
        exes = build_all({c.split("+")[0] for c in plan})
        self.scratch = os.path.join(vbuild.BUILD, "scratch-%d" % os.getpid())
        os.makedirs(self.scratch, exist_ok=True)
        self.exes = exes
        q = []
        for c, cnt in plan.items():
            cfg, vg = c.split("+")[0], c.endswith("+valgrind")
            if cfg not in exes:
                self.notes["not_built_" + cfg] = 1
                continue
            step = 4 if vg else max(4, min(60, cnt // 16))
            # different configurations look at different cases
            base = 1000000 * (list(vbuild.CONFIGS) + ["py"]).index(cfg) + (500000 if vg else 0)
            q += [(k, cfg, vg, base + k, base + min(k + step, cnt)) for k in range(0, cnt, step)]
        q.sort(key=lambda x: (not x[2], x[0]))
        work = queue.SimpleQueue()
        for x in q:
            work.put(x)

        def loop():
            while not self.stop and time.time() < deadline:
                try:
                    _, cfg, vg, a, b = work.get_nowait()
                except queue.Empty:
                    return
                self.chunk(cfg, vg, exes[cfg], a, b, deadline)
        th = [threading.Thread(target=loop) for _ in range(NPROC)]
        [t.start() for t in th]
        [t.join() for t in th]
        if self.prop == "C08" and not self.stop:
            for cfg in [c for c in ("fd", "fs") if c in exes]:
                self.chunk(cfg, False, exes[cfg], 0, 4, deadline + 60, prop="X08")
        while not work.empty():
            x = work.get_nowait()
            self.skipped += x[4] - x[3]
        shutil.rmtree(self.scratch, ignore_errors=True)


def known(prop):
    """entries 'known: property=<id> kind=<kind> match=<regex> <what fails>'; 'fixed:' entries suppress nothing"""
    out = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    except FileNotFoundError:
        pass
    return out


def main():
    if sys.argv[1:2] == ["--setup"]:
        build_all({c.split("+")[0] for p in PLAN["cases"].values() for c in p["quick"]})
        return 0
    if sys.argv[1:2] == ["--replay"]:
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = PLAN["cases"][prop][tier]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    plan = {c: max(1, int(n * scale)) for c, n in plan.items()}
    r = Run(prop, tier, seed)
    try:
        r.go(plan, t0 + PLAN["deadline"][tier])
    except vbuild.BuildError as e:
        print("check %s: could not build the monitored library\n%s" % (prop, e))
        return 2
    kn, real, quiet = known(prop), [], []
    for v in r.viol:
        k = [x for x in kn if x[0] == v["kind"] and x[1].search(v["detail"])]
        (quiet if k else real).append((v, k))
    for what in sorted({k[0][2] for _, k in quiet}):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    lines = []
    if real:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        for v, _ in real[:3]:
            path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, v["config"], seed, v["case"]))
            with open(path, "w") as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, **v), f, indent=1)
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s [%s] case %d: %s" % (v["kind"], v["config"], v["case"], v["detail"][:400]))
            if v["input"]:
                print("    " + v["input"][:600])
    wall = time.time() - t0
    n = r.n
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(real),
              coverage=dict(
                  evaluations=n["evaluations"], distinct_nontrivial=len(r.sigs),
                  rule="one evaluation = one generated job run to its end under the monitors; distinct = distinct hashes of (grid, both tilings, permutation, settings, operations), counted only when more than one rank takes part or an invalid request is made",
                  samples=r.samples or ["(no case reached its end)"],
                  monitored=dict(jobs=n["runs"], distinct_interleavings=len(r.scheds), scheduler_steps=n["steps"], context_switches=n["switches"], steps_with_a_choice=n["preempts"], blocking_waits=n["blocked"],
                                 completion_order_choices=n["any"], messages=n["messages"], collectives=n["colls"], bytes_communicated=n["bytes"], values_compared_with_tolerance=n["values"],
                                 values_compared_exactly=n["exact"], library_operations=n["ops"], mpi_calls_observed=r.calls, max_ranks=r.maxP),
                  events=r.notes, case_kinds=r.tags, per_build=r.percfg, cases_not_reached_in_time=r.skipped,
                  worst_error_over_tolerance=round(r.worst, 4), other_observations=r.others))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct, %d interleavings, %d messages, %d values compared, %.1f s%s" %
          (prop, tier, n["evaluations"], len(r.sigs), len(r.scheds), n["messages"], n["values"] + n["exact"], wall, (" other: %s" % r.others) if r.others else ""))
    for l in lines:
        print(l)
    if real:
        return 1
    if r.harness:
        print("check %s: harness problem: %s" % (prop, r.harness[0][:800]))
        return 2
    if n["evaluations"] < 10:
        print("check %s: too few cases ran" % prop)
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    exe = build_all({v["config"]})[v["config"]]
    p = subprocess.run(worker_cmd(v["config"], exe, v.get("probe") or v["property"], v["seed"], v["tier"], ["--case", str(v["case"]), "--casecpu", "600"], v.get("valgrind", False)), env=ENV, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    print(p.stdout[-6000:], p.stderr[-6000:])
    bad = p.returncode != 0
    for line in p.stdout.splitlines():
        if line.startswith("E "):
            bad = bad or bool(json.loads(line[2:])["v"])
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
