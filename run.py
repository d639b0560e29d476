#!/usr/bin/env python3
"""Runs the checks.

  run.py check C01 [--tier quick|thorough] [--seed N] [--count N] [--workers N]
  run.py replay FILE            re-executes a replay file, exit 1 if it still fails
  run.py manifest               rewrites MANIFEST.json from checks.json

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not decide.
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
FRAME = "github.com/browles/drip/"
HANG_WALL = 30.0      # no new case for this long: look closer
PROCS = {"race": 4}   # the other flavours run one goroutine at a time
SPIN_CPU = 30.0       # this much CPU inside one case: endless loop (cases take milliseconds)


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def go_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("VERIF_") or k in ("GODEBUG", "GOEXPERIMENT", "GOFLAGS", "GOWORK"):
            del e[k]
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOFLAGS="-mod=mod", CGO_ENABLED="0")
    e.setdefault("HOME", "/root")
    return e


class Scratch:
    """Everything a run writes outside evidence/ lives here and is removed."""
    def __init__(self):
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-", dir=base)
        shm = "/dev/shm"
        ok = os.path.isdir(shm) and os.access(shm, os.W_OK)
        self.tmp = tempfile.mkdtemp(prefix="dripverif-", dir=shm if ok else None)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.tmp, ignore_errors=True)


def module_setup(sc):
    """go.mod used for the build: the committed one, with the repository path filled in."""
    mod = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    p = os.path.join(sc.dir, "go.mod")
    open(p, "w").write(mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(sc.dir, "go.sum"))
    return p


def build(sc, flavour):
    mod = module_setup(sc)
    out = os.path.join(sc.dir, flavour + ".test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-o", out]
    if flavour in ("sim", "simrace"):
        ov = os.path.join(sc.dir, "overlay")
        r = subprocess.run(["go", "run", "-modfile", mod, "./cmd/mkoverlay", REPO, ov], cwd=HARNESS, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            die("overlay: " + r.stdout)
        cmd += ["-overlay", os.path.join(ov, "overlay.json"), "-tags", "verifsim"]
    if flavour in ("race", "simrace"):
        cmd += ["-race"]
    cmd.append("./plain" if flavour == "plain" else "./sim")
    env = go_env()
    if flavour in ("race", "simrace"):
        env["CGO_ENABLED"] = "1"
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        die("the harness does not build against %s:\n%s" % (REPO, r.stdout[-4000:]))
    return out


def child_env(sc, cfg, procs=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("VERIF_"):
            del e[k]
    e["VERIF_WORKER"] = json.dumps(cfg)
    e["TMPDIR"] = sc.tmp
    e["GOTRACEBACK"] = "all"
    e["GOMAXPROCS"] = str(procs or 1)
    e["GOMEMLIMIT"] = "3GiB"
    e["HOME"] = sc.tmp
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    for k in ("GODEBUG", "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        e.pop(k, None)
    return e


def cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


def goroutine_blocks(text):
    return re.split(r"\n(?=goroutine \d+)", text)


def classify_death(stderr, rc):
    """('fail', sig, msg) when code under test brought the process down, else ('error', '', msg)."""
    race = re.search(r"^WARNING: DATA RACE\n(.*?)^==================", stderr, re.M | re.S)
    if race:
        sides = [x for x in race.group(1).split("\n\n") if re.match(r"(Previous )?(Read|Write|read|write|Atomic|atomic)", x.strip())]
        tops = []
        for x in sides[:2]:
            # the innermost frame that is not the runtime's or the standard library's
            fr = [l.strip() for l in x.split("\n")[1:] if l.startswith("  ") and not l.startswith("   ")]
            fr = [l for l in fr if FRAME in l or "dripverif" in l]
            tops.append(fr[0] if fr else "")
        if len(tops) == 2 and all(FRAME in x for x in tops):
            where = sorted(x.replace(FRAME, "").rsplit("(", 1)[0] for x in tops)
            return ("fail", "data race in " + " and ".join(where), "data race between %s and %s" % tuple(where))
        return ("error", "", "data race that does not lie in code under test: " + race.group(1)[:1500])
    m = re.search(r"^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*|SIGSEGV.*|WARNING: DATA RACE)$", stderr, re.M)
    if not m:
        return ("error", "", "worker died with status %s: %s" % (rc, stderr[-1500:]))
    head = m.group(1)
    blocks = goroutine_blocks(stderr[m.start():])
    running = [b for b in blocks if re.match(r"goroutine \d+[^\n]*\[running", b)] or blocks[1:2]
    pick = running[:1]
    if "all goroutines are asleep" in head:
        pick = [b for b in blocks if FRAME in b][:1]
    if "out of memory" in stderr and "fatal error" in stderr:
        # the allocation request that failed must come from code under test
        pick = [b for b in blocks if FRAME in b and "running" in b.split("\n", 1)[0]][:1] or pick
    if pick and FRAME in pick[0]:
        frames = [l.strip() for l in pick[0].split("\n") if FRAME in l and not l.startswith("\t")]
        where = frames[0].replace(FRAME, "").rsplit("(", 1)[0]
        return ("fail", "crash in " + where, "%s at %s" % (head[:300], " < ".join(frames[:5])[:900]))
    return ("error", "", "worker died: %s\n%s" % (head, stderr[m.start():][:2500]))


def classify_hang(stderr):
    """Looks at a SIGQUIT dump. Returns (verdict, where)."""
    blocks = [b for b in goroutine_blocks(stderr) if b.startswith("goroutine ")]
    drip = [b for b in blocks if FRAME in b]
    busy = [b for b in drip if re.match(r"goroutine \d+[^\n]*\[(running|runnable|sleep)", b)]
    where = ""
    for b in (busy or drip):
        for l in b.split("\n"):
            if FRAME in l and not l.startswith("\t"):
                where = l.strip().replace(FRAME, "").rsplit("(", 1)[0]
                break
        if where:
            break
    if busy:
        return ("spin", where)
    if drip:
        return ("blocked", where)
    return ("none", "")


class Watch:
    """Decides when a process that makes no progress is hung."""
    def __init__(self, pid):
        self.pid = pid
        self.reset()

    def reset(self):
        self.t0 = time.time()
        self.c0 = cpu_of(self.pid)

    def hung(self):
        wall, cpu = time.time() - self.t0, cpu_of(self.pid) - self.c0
        if wall < HANG_WALL:
            return None
        if cpu >= SPIN_CPU:
            return "spin"
        if cpu < 0.5 and wall >= HANG_WALL:
            return "blocked"
        return None


class Server:
    """A child that replays choice sequences."""
    def __init__(self, sc, binary, prop, flavour):
        self.sc, self.binary, self.prop, self.flavour = sc, binary, prop, flavour
        self.p = None
        self.n = 0

    def start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.n += 1
        self.errpath = os.path.join(self.sc.dir, "serve-err-%d" % self.n)
        err = open(self.errpath, "wb")
        sh = ["/bin/sh", "-c", 'exec "$0" -test.run "^TestWorker$" -test.timeout 0 3<&%d 4>&%d' % (r1, w2), self.binary]
        self.p = subprocess.Popen(sh, pass_fds=(r1, w2), cwd=self.sc.dir, env=child_env(self.sc, {"mode": "serve", "prop": self.prop}, PROCS.get(self.flavour)),
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err)
        err.close()
        os.close(r1); os.close(w2)
        self.w = os.fdopen(w1, "wb", buffering=0)
        self.r = r2
        os.set_blocking(self.r, False)
        self.watch = Watch(self.p.pid)

    def stop(self):
        if self.p:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.w.close()
            os.close(self.r)
            self.p = None

    def ask(self, req):
        import select
        if self.p is None:
            self.start()
        try:
            self.w.write((json.dumps(req) + "\n").encode())
        except BrokenPipeError:
            pass
        self.watch.reset()
        buf = b""
        while True:
            r, _, _ = select.select([self.r], [], [], 0.5)
            if r:
                try:
                    d = os.read(self.r, 1 << 20)
                except BlockingIOError:
                    continue
                if d == b"":
                    rc = self.p.wait()
                    err = open(self.errpath, errors="replace").read()
                    k, sig, msg = classify_death(err, rc)
                    self.stop()
                    return {"status": "fail" if k == "fail" else "harness", "sig": sig, "msg": msg, "died": True}
                buf += d
                if buf.endswith(b"\n"):
                    return json.loads(buf)
                continue
            h = self.watch.hung()
            if h:
                os.kill(self.p.pid, signal.SIGQUIT)
                try:
                    self.p.wait(20)
                except subprocess.TimeoutExpired:
                    self.p.kill()
                err = open(self.errpath, errors="replace").read()
                v, where = classify_hang(err)
                self.stop()
                if v == "none" or (h == "blocked" and v == "spin"):
                    return {"status": "harness", "sig": "", "msg": "no progress, but not in code under test", "died": True}
                return {"status": "fail", "sig": "hang in " + where, "msg": "%s: never returns (%s)" % (where, h), "died": True}


def same_failure(o, sig):
    return o["status"] == "fail" and o.get("sig") == sig


def shrink(srv, choices, sig, budget_s, tries=1):
    best = list(choices)
    end = time.time() + budget_s
    last = None

    def test(c):
        nonlocal best, last
        if time.time() > end:
            return False
        for _ in range(tries):
            o = srv.ask({"choices": c})
            if same_failure(o, sig):
                c2 = o.get("choices")
                if c2 is not None and (len(c2), c2) <= (len(c), c):
                    c = c2
                best, last = c, o
                return True
        return False

    improved = True
    while improved and time.time() < end:
        improved = False
        # delete chunks
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = len(best) - size
            while i >= 0 and time.time() < end:
                c = best[:i] + best[i + size:]
                if len(c) < len(best) and test(c):
                    improved = True
                    i = min(i, len(best)) - size
                else:
                    i -= max(1, size)
            size //= 2
        # zero chunks
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            for i in range(0, len(best), size):
                seg = best[i:i + size]
                if any(seg):
                    if test(best[:i] + [0] * len(seg) + best[i + size:]):
                        improved = True
            size //= 2
        # lower single values
        i = 0
        while i < len(best) and time.time() < end:
            if best[i] > 0:
                lo, hi = 0, best[i]
                if test(best[:i] + [hi - 1] + best[i + 1:]):
                    improved = True
                    hi = hi - 1
                    while lo < hi and time.time() < end:
                        mid = (lo + hi) // 2
                        if i < len(best) and test(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                        else:
                            lo = mid + 1
            i += 1
    return best, last


def load_known(prop):
    """known-findings.txt: lines 'known: property=<id> sig="<signature>" <what fails>' and
    'fixed: property=<id> <commit> <what failed>' (the latter suppress nothing)."""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) sig="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def write_replay(prop, flavour, seed, data):
    os.makedirs(EVID, exist_ok=True)
    h = hashlib.sha1(json.dumps(data, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(EVID, "replay-%s-%s.json" % (prop, h))
    data = dict(property=prop, flavour=flavour, seed=seed, how="python3 /verif/run.py replay " + path, **data)
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def check(a):
    prop = a.prop
    table = json.load(open(os.path.join(VERIF, "checks.json")))
    if prop not in table:
        die("no check for " + prop)
    meta = table[prop]
    flavour = meta["flavour"]
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(re.sub(r"\D", "", os.environ.get("VERIF_SEED", "1")) or 1)
    seed &= (1 << 63) - 1
    begin = time.time()
    sc = Scratch()
    try:
        results, build_s, rc = [], 0.0, 0
        flavours = [flavour] + meta.get("also", [])
        for fl in flavours:
            r = check1(a, prop, meta, fl, tier, seed, begin, sc, results, len(flavours))
            build_s += r["build_s"]
            if r["rc"] != 0:
                rc = r["rc"]
                break
        if rc != 0:
            return rc
        for s, what in sorted(load_known(prop).items()):
            n = sum(r["known"].get(s, 0) for r in results)
            print("KNOWN-FINDING: property=%s %s (met in %d cases)" % (prop, what, n))
        c = json.load(open(os.path.join(EVID, prop + ".json")))["coverage"]
        print("%s ok: %d cases, %d distinct non-trivial, %.1fs (build %.1fs) seed=%d tier=%s%s" % (
            prop, c["evaluations"], c["distinct_nontrivial"], time.time() - begin, build_s, seed, tier,
            " (cut short by the time budget)" if c["cut_short_by_time_budget"] else ""))
        return 0
    finally:
        sc.close()


def check1(a, prop, meta, flavour, tier, seed, begin, sc, all_results, nflavours):
    t0 = time.time()
    binary = build(sc, flavour)
    built = time.time()
    build_s = built - t0
    nw = a.workers or min(8, os.cpu_count() or 1)
    nw = min(nw, meta.get("workers", nw))
    known = load_known(prop)
    budget = (240.0 if tier == "quick" else 3600.0) / nflavours
    ws = []
    for i in range(nw):
        cfg = dict(mode="run", prop=prop, seed=seed, start=i, stride=nw, count=a.count or 0, tier=tier, budget_s=budget,
                   progress=os.path.join(sc.dir, "%s-progress-%d" % (flavour, i)), result=os.path.join(sc.dir, "%s-result-%d" % (flavour, i)),
                   known=sorted(known))
        err = os.path.join(sc.dir, "%s-err-%d" % (flavour, i))
        open(cfg["progress"], "w").write("%-20d" % i)
        p = subprocess.Popen([binary, "-test.run", "^TestWorker$", "-test.timeout", "0"], cwd=sc.dir,
                             env=child_env(sc, cfg, PROCS.get(flavour)), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(err, "wb"))
        ws.append(dict(p=p, cfg=cfg, err=err, watch=Watch(p.pid), last=None, done=False))
    failures, errors, results = [], [], []
    live = len(ws)
    while live:
        time.sleep(0.05)
        for w in ws:
            if w["done"]:
                continue
            rc = w["p"].poll()
            idx = open(w["cfg"]["progress"]).read().strip()
            if idx != w["last"]:
                w["last"] = idx
                w["watch"].reset()
            hang = None
            if rc is None:
                h = w["watch"].hung()
                if h:
                    os.kill(w["p"].pid, signal.SIGQUIT)
                    try:
                        w["p"].wait(20)
                    except subprocess.TimeoutExpired:
                        w["p"].kill()
                        w["p"].wait()
                    hang = h
                else:
                    continue
            w["done"] = True
            live -= 1
            stderr = open(w["err"], errors="replace").read()
            if hang:
                v, where = classify_hang(stderr)
                if v == "none" or (hang == "blocked" and v == "spin"):
                    errors.append("worker made no progress on case %s (%s), not attributable to code under test:\n%s" % (idx, hang, stderr[-1500:]))
                else:
                    failures.append(dict(index=int(idx), sig="hang in " + where, msg="%s never returns (%s)" % (where, hang), kind="hang"))
                continue
            if os.path.exists(w["cfg"]["result"]):
                r = json.load(open(w["cfg"]["result"]))
                results.append(r)
                f = r.get("fail")
                if f:
                    if f["status"] == "harness":
                        errors.append("harness error on case %d: %s" % (r["fail_index"], f["msg"]))
                    else:
                        failures.append(dict(index=r["fail_index"], sig=f["sig"], msg=f["msg"], desc=f.get("desc", ""), choices=f.get("choices"),
                                             fixed=r.get("fail_fixed"), kind="soft"))
            else:
                k, sig, msg = classify_death(stderr, rc)
                if k == "fail" and sig in known:
                    errors.append("known finding %s crashes the worker" % sig)
                elif k == "fail":
                    failures.append(dict(index=int(idx), sig=sig, msg=msg, kind="crash"))
                else:
                    errors.append("on case %s: %s" % (idx, msg))
    replay = None
    fail = None
    if failures:
        failures.sort(key=lambda f: (f["kind"] == "hang", f["index"]))
        fail = failures[0]
        confirmed, fail, replay = confirm(sc, binary, prop, flavour, seed, failures, tier, errors)
        if not confirmed:
            fail = None
    all_results += results
    ev = evidence(prop, meta, tier, seed, all_results, begin, 1 if fail else 0)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(os.path.join(EVID, prop + ".json.tmp"), os.path.join(EVID, prop + ".json"))
    if fail:
        print("property %s: %s\n  %s" % (prop, fail["sig"], fail["msg"][:3000]))
        if fail.get("desc"):
            print("  case: " + fail["desc"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        return dict(rc=1, build_s=build_s)
    if errors:
        die("; ".join(errors)[:6000])
    return dict(rc=0, build_s=build_s)


def confirm(sc, binary, prop, flavour, seed, failures, tier, errors):
    srv = Server(sc, binary, prop, flavour)
    try:
        for f in failures[:4]:
            if f.get("fixed"):
                path = write_replay(prop, flavour, seed, dict(fixed=f["fixed"], sig=f["sig"], message=f["msg"]))
                return True, f, path
            if f["index"] < 0:
                path = write_replay(prop, flavour, seed, dict(fixed_index=f["index"], sig=f["sig"], message=f["msg"]))
                return True, f, path
            choices = f.get("choices")
            repro = None
            attempts = 2 if f["kind"] == "hang" else 8
            for n in range(attempts):
                if choices is not None:
                    o = srv.ask({"choices": choices})
                else:
                    trace = os.path.join(sc.dir, "trace")
                    o = srv.ask({"index": f["index"], "seed": seed, "trace": trace})
                    if o["status"] == "fail":
                        choices = [int(x) for x in open(trace).read().split("\n")[:-1] if x]
                if o["status"] == "fail":
                    repro = o
                    break
            if repro is None:
                if f["kind"] == "hang":
                    errors.append("case %d made no progress once and did when repeated" % f["index"])
                    continue
                path = write_replay(prop, flavour, seed, dict(index=f["index"], choices=choices, sig=f["sig"], message=f["msg"],
                                                             description=f.get("desc", ""), note="seen once, depends on the scheduler; replaying may need several runs"))
                return True, f, path
            f["sig"], f["msg"] = repro["sig"], repro["msg"]
            slow = f["kind"] == "hang" or "hang" in repro["sig"]
            best, last = (choices, repro) if slow else shrink(srv, choices, repro["sig"], 40 if tier == "quick" else 120)
            if last:
                f["msg"] = last["msg"]
                if last.get("desc"):
                    f["desc"] = last["desc"]
            path = write_replay(prop, flavour, seed, dict(index=f["index"], choices=best, sig=f["sig"], message=f["msg"], description=f.get("desc", "")))
            return True, f, path
        return False, None, None
    finally:
        srv.stop()


def evidence(prop, meta, tier, seed, results, begin, violations):
    hashes = set()
    labels, samples = {}, []
    for r in results:
        hashes.update(r.get("hashes") or [])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    for k in range(3):
        for r in results:
            s = r.get("samples") or []
            if k < len(s) and len(samples) < 4:
                samples.append(s[k])
    rules = list(dict.fromkeys(r["rule"] for r in results))
    rule = " || ".join(rules) if rules else "no worker finished"
    cov = dict(evaluations=sum(r["evaluations"] for r in results), distinct_nontrivial=len(hashes), rule=rule, samples=samples or ["(none)"],
               discarded=sum(r["discards"] for r in results), fixed_regression_cases=sum(r["fixed"] for r in results),
               planned=max([r["planned"] for r in results] or [0]), classes=dict(sorted(labels.items())),
               cut_short_by_time_budget=any(r["cut_short"] for r in results),
               known_findings_met={k: v for r in results for k, v in r["known"].items()})
    return dict(property=prop, tier=tier, seed=seed, level=meta["level"], coverage=cov,
                assumptions=list(dict.fromkeys(x for r in results for x in (r.get("assume") or []))),
                wall_s=round(time.time() - begin, 2), violations=violations)


def replay(a):
    d = json.load(open(a.file))
    sc = Scratch()
    try:
        binary = build(sc, d["flavour"])
        srv = Server(sc, binary, d["property"], d["flavour"])
        try:
            for n in range(5):
                if d.get("fixed"):
                    o = srv.ask({"fixed": d["fixed"]})
                elif d.get("choices") is not None:
                    o = srv.ask({"choices": d["choices"]})
                else:
                    o = srv.ask({"index": d["index"], "seed": d["seed"]})
                if o["status"] == "fail":
                    break
        finally:
            srv.stop()
        print(json.dumps({k: v for k, v in o.items() if k != "choices"}, indent=1))
        if o["status"] == "fail":
            print("VIOLATION property=%s replay=%s" % (d["property"], a.file))
            return 1
        return 0 if o["status"] in ("pass", "discard") else 2
    finally:
        sc.close()


def manifest(a):
    table = json.load(open(os.path.join(VERIF, "checks.json")))
    ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i in table:
            m = table[i]
            checks.append(dict(property=i, quick_cmd="python3 run.py check %s --tier quick" % i,
                               thorough_cmd="python3 run.py check %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                               technique=m["technique"], level=m["level"], level_note=m["note"]))
        else:
            na.append(dict(property=i, reason="no check has been built for it yet"))
    d = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
             notes="All checks generate cases from VERIF_SEED; see DESIGN.md. No hooks in /repo: seams are import rewrites applied at build time through go build -overlay.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    return 0


def setup(a):
    sc = Scratch()
    try:
        table = json.load(open(os.path.join(VERIF, "checks.json")))
        for fl in sorted({f for m in table.values() for f in [m["flavour"]] + m.get("also", [])}):
            build(sc, fl)
            print("built", fl)
    finally:
        sc.close()
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier")
    c.add_argument("--seed", type=int)
    c.add_argument("--count", type=int)
    c.add_argument("--workers", type=int)
    r = sub.add_parser("replay")
    r.add_argument("file")
    sub.add_parser("manifest")
    sub.add_parser("setup")
    a = ap.parse_args()
    return dict(check=check, replay=replay, manifest=manifest, setup=setup)[a.cmd](a)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except KeyboardInterrupt:
        rc = 2
    except BaseException as e:  # any defect of the driver is an error exit, never a verdict
        import traceback
        traceback.print_exc()
        print("ERROR: %r" % (e,))
        rc = 2
    sys.exit(rc)
