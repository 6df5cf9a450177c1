"""Driver shared by all checks: builds, runs the monitored programs, matches known findings,
writes the evidence file and prints the verdict."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B

KNOWN = os.path.join(VERIF, "known_findings.txt")
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=97:detect_leaks=%(leak)s:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:malloc_context_size=12:max_allocation_size_mb=8192",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98:suppressions=" + os.path.join(HERE, "ubsan.supp"),
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:report_signal_unsafe=0:second_deadlock_stack=1:suppressions=%(supp)s",
    "LSAN_OPTIONS": "exitcode=96:print_suppressions=0:suppressions=" + os.path.join(HERE, "lsan.supp"),
}


def known_findings(pid):
    out = []
    try:
        for line in open(KNOWN):
            m = re.match(r"KNOWN-FINDING:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def san_key(text):
    """A stable key for a sanitizer report: kind + the innermost frames inside the code under test."""
    kinds = re.findall(r"(?:ERROR|WARNING): (\w+Sanitizer): ([\w-]+(?: [\w-]+){0,2})", text)
    ub = re.search(r"runtime error: (.*)", text)
    fr = []
    for m in re.finditer(r"^\s*#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.+?)(?: \(?(?:/[^\s:)]+)(?::\d+)*.*)?$", text, re.M):
        line = m.group(0)
        if "/repo/" in line or "lm::" in line:
            f = re.sub(r"\(.*", "", m.group(1)).strip()
            f = re.sub(r"<.*", "", f)
            if f not in fr:
                fr.append(f)
        if len(fr) >= 2:
            break
    kind = ub and "ub:" + re.sub(r"[^a-z]+", "-", ub.group(1).lower())[:48] or (kinds and kinds[0][0] + ":" + kinds[0][1].strip().replace(" ", "-")) or "san"
    return kind + "@" + "/".join(fr)


class Run:
    """One monitored program execution."""
    def __init__(self, name, prog, argv, flavour, timeout=300, env=None, leaks=False, expect_finish=True, weight=1):
        self.name, self.prog, self.argv, self.flavour = name, prog, argv, flavour
        self.timeout, self.env, self.leaks, self.weight = timeout, env or {}, leaks, weight
        self.expect_finish = expect_finish


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.viol = []          # (key, message, replay dict)
        self.counters, self.cover, self.samples = {}, {}, []
        self.errors = []
        self.runs = 0
        self.memory_only = False   # judge sanitizer reports, crashes and hangs only
        self.build_s = 0.0

    # ---- building --------------------------------------------------------------------------------
    def build(self, flavour, harnesses, libs=()):
        r = B.build(flavour, harnesses, libs)
        self.build_s += r["build_s"]
        self.tools = getattr(self, "tools", {})
        return r

    # ---- running ---------------------------------------------------------------------------------
    def _exec(self, r, attempt):
        d = os.path.join(self.work, re.sub(r"\W+", "_", r.name) + "_%d" % attempt)
        os.makedirs(os.path.join(d, "scratch"), exist_ok=True)
        out = os.path.join(d, "out.json")
        env = {k: v for k, v in os.environ.items() if not k.startswith(("LD_", "OMP_", "GOMP_"))}
        supp = os.path.join(HERE, "tsan.supp")
        for k, v in SAN_ENV.items():
            env[k] = v % {"leak": "1" if r.leaks else "0", "supp": supp} if "%(" in v else v
        env.update(r.env)
        cmd = r.argv if r.prog is None else [r.prog] + r.argv
        cmd = cmd + ["--out", out, "--dir", os.path.join(d, "scratch"), "--seed", str(self.seed), "--tier", self.tier]
        log = os.path.join(d, "log.txt")
        t = time.time()
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env,
                                 cwd=os.path.join(d, "scratch"), start_new_session=True)
            try:
                rc = p.wait(r.timeout)
                to = False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc, to = -9, True
        return d, out, log, rc, to, cmd, time.time() - t

    def _one(self, r):
        d, out, log, rc, to, cmd, wall = self._exec(r, 0)
        if to:                                            # a hang is reported only when it happens twice
            d, out, log, rc, to, cmd, wall = self._exec(r, 1)
        return r, d, out, log, rc, to, cmd, wall

    def run(self, runs, parallel=8):
        with concurrent.futures.ThreadPoolExecutor(parallel) as ex:
            for r, d, out, log, rc, to, cmd, wall in ex.map(self._one, runs):
                self._absorb(r, d, out, log, rc, to, cmd, wall)

    def _absorb(self, r, d, out, log, rc, to, cmd, wall):
        self.runs += 1
        try:
            text = open(log, "rb").read()
            text = text[:2000000].decode("utf-8", "replace") + ("" if len(text) < 2000000 else text[-200000:].decode("utf-8", "replace"))
        except OSError:
            text = ""
        prog = ""
        try:
            prog = open(out + ".prog").read().strip()
        except OSError:
            pass
        rep = {"run": r.name, "cmd": cmd, "cwd": "a scratch directory", "env": r.env, "seed": self.seed, "tier": self.tier, "case": prog}
        found = behavioural = False
        try:
            for line in open(out + ".viol", encoding="utf-8", errors="replace"):
                v = json.loads(line)
                if self.memory_only:
                    behavioural = True
                    self.counters["behavioural reports left to other properties"] = self.counters.get("behavioural reports left to other properties", 0) + 1
                    continue
                self.add(v["key"], v["detail"], dict(rep, case=v["case"]))
                found = True
        except (OSError, ValueError):
            pass
        finished = False
        try:
            j = json.load(open(out))
            finished = j.get("finished", False)
            for k, v in j["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            for k, v in j["cover"].items():
                c = self.cover.setdefault(k, {"n": 0, "items": set()})
                c["n"] = max(c["n"], v["n"])
                c["items"] |= set(v["items"])
            self.samples += j["samples"]
        except (OSError, ValueError, KeyError):
            pass
        # sanitizer reports
        blocks = re.split(r"(?=^={10,}\n)", text, flags=re.M)
        seen = set()
        for b in blocks:
            if re.search(r"(ERROR|WARNING): \w+Sanitizer", b):
                k = san_key(b)
                if k not in seen:
                    seen.add(k)
                    self.add("san:" + k, b[:1800], rep)
                    found = True
        for m in re.finditer(r"^.*runtime error: .*(?:\n\s+#.*)*", text, re.M):
            k = san_key(m.group(0))
            if k not in seen:
                seen.add(k)
                self.add("san:" + k, m.group(0)[:1800], rep)
                found = True
        for b in re.split(r"^==\d+== *\n", text, flags=re.M):      # memcheck
            m = re.search(r"^==\d+== (Conditional jump|Use of uninit|Invalid (?:read|write|free)|Syscall param|Mismatched free|Source and dest|Jump to|Process terminating).*", b, re.M)
            if not m:
                continue
            fr = [f for f in re.findall(r"^==\d+==    (?:at|by) 0x[0-9A-F]+: (.+?)(?: \(|\(|<|$)", b, re.M)]
            fr = [f for f in fr if "lm::" in f][:2] or fr[:1]
            k = m.group(1).replace(" ", "-") + "@" + "/".join(fr)
            if k not in seen:
                seen.add(k)
                self.add("memcheck:" + k, re.sub(r"(?m)^==\d+== ", "", b)[:1800], rep)
                found = True
        if to:
            self.add("hang:" + r.name, "no end within %d s, twice; last case: %s" % (r.timeout, prog), rep)
            found = True
        if rc == 3:
            self.errors.append("%s: harness error: %s" % (r.name, text[-1500:]))
        elif not found and ((rc != 0 and not (behavioural and finished)) or (r.expect_finish and not finished)):
            self.add("crash:%s:%s" % (r.name, self.crash_kind(rc, text)), "exit status %s; last case: %s; output: %s" % (rc, prog, text[-1200:]), rep)
        self.counters["wall_ms:" + r.name] = int(wall * 1000)

    @staticmethod
    def crash_kind(rc, text):
        m = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
        if m:
            return "uncaught-" + m.group(1)
        return "signal-%d" % -rc if rc < 0 else "exit-%d" % rc

    def add(self, key, detail, rep):
        self.viol.append((key, detail, rep))

    def t(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---- verdict ---------------------------------------------------------------------------------
    def finish(self, level, evaluations, distinct, rule, assumptions=(), minimum=1, extra=None):
        shutil.rmtree(self.work, ignore_errors=True)
        known = known_findings(self.pid)
        fresh, knownhit = [], {}
        for v in self.viol:
            for k, what in known:
                if k == v[0] or (k.endswith("*") and v[0].startswith(k[:-1])):
                    knownhit[k] = what
                    break
            else:
                fresh.append(v)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {"evaluations": int(evaluations), "distinct_nontrivial": int(distinct), "rule": rule,
                         "samples": [s[:600] for s in self.samples[:20]],
                         "counters": dict(sorted(self.counters.items())),
                         "distinct": {k: {"n": v["n"], "items": sorted(v["items"])[:40]} for k, v in sorted(self.cover.items())},
                         "program_runs": self.runs},
            "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1),
            "violations": len(fresh),
        }
        if extra:
            ev["coverage"].update(extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        for k, what in knownhit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if fresh:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            shown = set()
            for i, (key, detail, rep) in enumerate(fresh):
                if key in shown:
                    continue
                shown.add(key)
                if len(shown) > 8:
                    break
                p = os.path.join(VERIF, "replays", "%s-%d.json" % (self.pid, len(shown)))
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "key": key, "detail": detail, "replay": rep,
                               "how": "python3 %s/run.py %s --tier %s --seed %d (rebuilds and reruns); the run named in 'run' reports this case" % (VERIF, self.pid, self.tier, self.seed)}, f, indent=1)
                print("VIOLATION property=%s replay=%s key=%s" % (self.pid, p, key))
                print("  " + detail.strip().replace("\n", "\n  ")[:700])
            return 1
        if self.errors:
            print("ERROR (inconclusive): " + "\n".join(self.errors))
            return 2
        if distinct < minimum:
            print("ERROR (inconclusive): the monitors observed too little (%d < %d)" % (distinct, minimum))
            return 2
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d build_s=%.0f wall_s=%.0f" %
              (self.pid, self.tier, self.seed, evaluations, distinct, self.build_s, time.time() - self.t0))
        return 0
