#!/usr/bin/env python3
"""Run the check of one property: build from /repo, explore, compare, report."""
import array, json, os, re, shutil, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import CHECKS

VERIF = B.VERIF
NCPU = os.cpu_count() or 4


def known_findings(prop):
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == prop and k["status"] == "open"]


def match(kfs, case, msg):
    for k in kfs:
        if re.fullmatch(k["case"], case, re.S) and re.search(k["message"], msg, re.S):
            return k
    return None


class Shard:
    def __init__(self, exe, i, n, tier, work, args, env):
        self.exe, self.i, self.n, self.tier, self.work, self.args, self.env = exe, i, n, tier, work, args, env
        self.start = 0
        self.results, self.crashes, self.states = [], [], array.array("Q")
        self.run_no = 0
        self.proc = None

    def cmd(self, extra):
        return [self.exe, "--tier", self.tier, "--cur", self.cur, "--out", self.out, "--scratch", self.scratch] + extra + self.args

    def spawn(self):
        self.run_no += 1
        tag = "%d.%d" % (self.i, self.run_no)
        self.cur, self.out = (os.path.join(self.work, x + tag) for x in ("cur", "out"))
        self.st, self.err = (os.path.join(self.work, x + tag) for x in ("states", "err"))
        self.scratch = os.path.join(self.work, "scratch" + tag)
        os.makedirs(self.scratch, exist_ok=True)
        self.proc = subprocess.Popen(self.cmd(["--states", self.st, "--shard", "%d/%d" % (self.i, self.n), "--start", str(self.start)]),
                                     stdout=open(self.err, "wb"), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                     env=self.env, cwd=self.scratch)

    def finish(self):
        """True when the shard is complete, False when it must be resumed."""
        rc = self.proc.wait()
        if os.path.exists(self.out) and rc in (0, 4):
            self.results.append(json.load(open(self.out)))
        if os.path.exists(self.st):
            self.states.frombytes(open(self.st, "rb").read())
        shutil.rmtree(self.scratch, ignore_errors=True)
        if rc == 0:
            return True
        index, hang, ln = struct.unpack("<QII", open(self.cur, "rb").read(16))
        case = open(self.cur, "rb").read()[16:16 + ln].decode("latin-1")
        if rc != 4:
            log = open(self.err, "rb").read().decode(errors="replace")
            why = "no result within the CPU limit" if hang else "crash (exit %d): %s" % (rc, summarise(log))
            if ln == 0 or "SELFTEST" in log:
                raise SystemExit("harness failed before its first case (exit %d)\n%s" % (rc, log[-3000:]))
            self.crashes.append((case, why))
        if len(self.crashes) >= 12 or index <= self.start and rc != 4:
            return True
        self.start = index
        return False


def summarise(log):
    m = re.search(r"(SUMMARY: .*|[^\n]*runtime error: [^\n]*|[^\n]*Assertion [^\n]*|terminate called[^\n]*\n[^\n]*)", log)
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*/repo/[^\n]*)", log)[:3]
    return (m.group(1) if m else log[-500:].strip()) + (" @ " + " <- ".join(f.strip() for f in frames) if frames else "")


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[prop]
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    rp_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rp_dir, exist_ok=True)
    deadline = t0 + cfg.get("limit", {"quick": 850, "thorough": 11000}[tier] if True else 0)

    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        part = cfg["parts"][rp["part"]]
        exe = B.build(part["harness"], part.get("variant", "asan"), part.get("cli", False), ["mc.cc"] + part.get("extra", []), part.get("link", ()))
        ok, what = replay(exe, part, rp["case"], rp.get("tier", tier))
        print("reproduced: %s" % what if not ok else "not reproduced")
        sys.exit(0 if ok else 1)

    total = dict(cases=0, executed=0, transitions=0, traces=0)
    outcomes, samples, viol = {}, [], []
    allstates = set()
    nstates = 0
    late = False
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        for pi, part in enumerate(cfg["parts"]):
            if part.get("tier") and part["tier"] != tier:
                continue
            exe = B.build(part["harness"], part.get("variant", "asan"), part.get("cli", False), ["mc.cc"] + part.get("extra", []), part.get("link", ()))
            n = part.get("shards", NCPU)
            shards = [Shard(exe, i, n, tier, os.path.join(work), part.get("args", []), child_env(part)) for i in range(n)]
            active = list(shards)
            for s in active:
                s.spawn()
            while active:
                time.sleep(0.05)
                for s in list(active):
                    if s.proc.poll() is not None:
                        if s.finish():
                            active.remove(s)
                        else:
                            s.spawn()
                if time.time() > deadline:
                    for s in active:
                        s.proc.kill()
                    late = True
                    if not any(s.crashes or any(r["violations"] for r in s.results) for s in shards):
                        print("check error: exploration did not finish within its time limit")
                        sys.exit(2)
                    break
            allstates = set()
            for s in shards:
                allstates.update(s.states)
                for r in s.results:
                    for k in ("executed", "transitions", "traces"):
                        total[k] += r[k]
                    for o, c in r["outcomes"].items():
                        o = part.get("name", part["harness"]) + ": " + o if len(cfg["parts"]) > 1 else o
                        outcomes[o] = outcomes.get(o, 0) + c
                    if len(samples) < 12:
                        samples += r["samples"][:2]
                    for c, m in r["violations"]:
                        viol.append((pi, c, m))
                    if r["nviolations"] > len(r["violations"]):
                        viol.append((pi, "(overflow)", "%d violations, only %d recorded" % (r["nviolations"], len(r["violations"]))))
                total["executed"] += len(s.crashes)
                viol += [(pi, c, m) for c, m in s.crashes]
            total["cases"] += max([r["cases"] for s in shards for r in s.results] or [0])
            nstates += len(allstates)
            if late:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)

    kfs = known_findings(prop)
    new, seen_known = [], {}
    for pi, c, m in viol:
        k = match(kfs, c, m)
        if k:
            seen_known.setdefault(k["id"], [k, 0])[1] += 1
        else:
            new.append((pi, c, m))
    for k, n in seen_known.values():
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, k["what"], n))

    coverage = dict(states=nstates, transitions=total["transitions"], traces_validated_against_impl=total["traces"],
                    evaluations=total["executed"], outcomes=outcomes, samples=samples[:6], exhaustive=True,
                    space=cfg["space"][tier] if isinstance(cfg.get("space"), dict) else cfg.get("space", ""))
    if cfg["level"] in ("fault_enumeration", "exploration"):
        coverage["distinct_nontrivial"] = nstates
        coverage["rule"] = cfg["rule"]
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage=coverage,
              assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new),
              known_findings={k: n for k, (_, n) in seen_known.items()})
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)

    if not new and late:
        print("check error: exploration did not finish within its time limit")
        sys.exit(2)
    if not new and (total["executed"] == 0 or nstates == 0):
        print("check error: nothing was explored")
        sys.exit(2)
    if not new:
        print("%s: held on %d cases, %d states, %d transitions (%.0f s)" % (prop, total["executed"], nstates, total["transitions"], time.time() - t0))
        sys.exit(0)

    # shortest first; confirm by replaying the case alone before reporting it
    new.sort(key=lambda v: len(v[1]))
    if "-v" in sys.argv:
        groups = {}
        for pi, c, m in new:
            groups.setdefault(re.sub(r"[0-9]+|'[^']*'", "#", m)[:160], []).append((c, m))
        for g in list(groups.values())[:int(os.environ.get("VERIF_SHOW", "15"))]:
            print("  %6d  case %s\n          %s" % (len(g), g[0][0][:400], g[0][1][:700]))
        print("  %d in all" % len(new))
    confirmed = None
    for pi, c, m in new[:3]:
        part = cfg["parts"][pi]
        exe = B.build(part["harness"], part.get("variant", "asan"), part.get("cli", False), ["mc.cc"] + part.get("extra", []), part.get("link", ()))
        ok, what = replay(exe, part, c, tier)
        if not ok:
            confirmed = (pi, c, m, what)
            break
    pi, c, m = (confirmed or new[0])[:3]
    path = os.path.join(rp_dir, prop + ".json")
    json.dump(dict(property=prop, part=pi, case=c, message=m, tier=tier, reproduced_alone=bool(confirmed),
                   all_cases=len(new), more=[x[1] for x in new[:20]],
                   how="python3 tools/check.py %s --replay %s" % (prop, path)), open(path, "w"), indent=1)
    print("case: %s\nwhat: %s" % (c[:600], m[:1500]))
    print("%d cases fail%s" % (len(new), "" if confirmed else " (not reproduced in isolation; depends on what ran before it)"))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.exit(1)


def child_env(part):
    e = dict(os.environ, LC_ALL="C.UTF-8", LANG="C.UTF-8", TZ="UTC",
             ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:handle_abort=1:detect_stack_use_after_return=0",
             UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
    e.update(part.get("env", {}))
    return e


def replay(exe, part, case, tier):
    """(ok, what) for the single case."""
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        cf = os.path.join(work, "case")
        open(cf, "wb").write(case.encode("latin-1"))
        out = os.path.join(work, "out")
        sc = os.path.join(work, "scratch")
        os.makedirs(sc)
        try:
            r = subprocess.run([exe, "--tier", tier, "--replay", cf, "--out", out, "--scratch", sc] + part.get("args", []),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=child_env(part), cwd=sc, timeout=300)
        except subprocess.TimeoutExpired:
            return False, "no result"
        if r.returncode not in (0, 4):
            return False, summarise(r.stdout.decode(errors="replace"))
        v = json.load(open(out))["violations"]
        return (not v), (v[0][1] if v else "")
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        main()
    except B.BuildError as e:
        print("check error: build failed\n%s" % e)
        sys.exit(2)
