#!/usr/bin/env python3
"""run.py ID: builds the check ID from /repo's working tree, runs it, and reports.

exit 0: the property held on every generated case; exit 1 with 'VIOLATION property=ID replay=FILE';
exit 2: the check itself could not run.  'run.py ID replay FILE' re-runs one saved case.
"""
import fcntl, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", V + "/build")
REPO = os.environ.get("VERIF_REPO", "/repo")
CFG = json.load(open(V + "/checks/checks.json"))
ID = sys.argv[1]
C = CFG["checks"][ID]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
T = 1 if TIER == "thorough" else 0
WORK = os.environ.get("VERIF_WORK", V + "/work") + "/" + ID
TARGET = C.get("target", ID.lower())
BIN = BUILD + "/checks/" + TARGET
CONC = C.get("concurrent", False)
START = time.time()
HANG = C.get("hang", 60)


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98:halt_on_error=1"
    e["TMPDIR"] = WORK
    for k in list(e):
        if k.startswith("HELICS_"):
            del e[k]
    return e


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = WORK + "/build.log"
        with open(log, "w") as f:
            if not os.path.exists(BUILD + "/build.ninja"):
                r = subprocess.run(["cmake", "-G", "Ninja", "-S", V, "-B", BUILD, "-DREPO=" + REPO,
                                    "-DCMAKE_CXX_COMPILER=clang++", "-DCMAKE_C_COMPILER=clang"], stdout=f, stderr=f)
                if r.returncode:
                    return log
            r = subprocess.run(["ninja", "-C", BUILD, TARGET], stdout=f, stderr=f)
            return log if r.returncode else None


def tail(p, n=4000):
    try:
        with open(p, "rb") as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - n))
            return f.read().decode("latin-1")
    except OSError:
        return ""


def launch(args, name):
    err = open(f"{WORK}/{name}.err", "wb")
    return subprocess.Popen([BIN] + args, stdout=subprocess.DEVNULL if not os.environ.get("PBT_OUT") else err,
                            stderr=err, env=env(), cwd=WORK, start_new_session=True)


def sig_of(text, rc):
    m = re.search(r"PBT-VIOLATION sig=(\S+)", text)
    if m:
        return m.group(1)
    if rc == 5 or "PBT-HANG" in text:
        return "hang"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"(\S+:\d+:\d+): runtime error: (.*)", text)
    if m:
        return "ubsan"
    return "crash"


def read_cur(path):
    import struct
    b = open(path, "rb").read()
    n = struct.unpack_from("<Q", b, 0)[0]
    prop = b[8:72].split(b"\0")[0].decode()
    n = min(n, (len(b) - 72) // 8)
    return prop, list(struct.unpack_from(f"<{n}Q", b, 72))


def write_replay(path, prop, vals, comment=""):
    with open(path, "w") as f:
        for l in comment.splitlines():
            f.write("# " + l[:1000] + "\n")
        f.write("prop " + prop + "\n" + " ".join(map(str, vals)) + "\n")


def replay(path, name, hang=None, cur=None):
    p = launch(["replay=" + path, "hang=" + str(hang or HANG)] + (["cur=" + cur] if cur else []), name)
    try:
        rc = p.wait(timeout=(hang or HANG) + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        rc = 5
    text = tail(f"{WORK}/{name}.err", 20000)
    return rc, sig_of(text, rc) if rc else "", text


def fails(prop, vals, sig, tries, name="shr", hang=None):
    path = f"{WORK}/{name}.txt"
    write_replay(path, prop, vals)
    for _ in range(tries):
        cur = f"{WORK}/{name}.cur"
        rc, s, text = replay(path, name, hang, cur)
        if rc and (s == sig or (s.split(":")[0] == sig.split(":")[0])):
            try:
                return text, read_cur(cur)[1]
            except Exception:
                return text, vals
    return None


def shrink(prop, vals, sig, budget, tries):
    end = time.time() + budget
    hang = 12 if sig == "hang" else None
    best = list(vals)
    text = None

    def attempt(c):
        nonlocal best, text
        if time.time() > end or c == best:
            return False
        r = fails(prop, c, sig, tries, hang=hang)
        if r:
            t, got = r
            text = t
            best = got if len(got) <= len(c) else c
            return True
        return False

    changed = True
    while changed and time.time() < end:
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if attempt(best[:i] + best[i + size:]):
                    changed = True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if time.time() > end or i >= len(best):
                break
            if best[i] and attempt(best[:i] + [0] + best[i + 1:]):
                changed = True
                continue
            lo, hi = 0, best[i] if i < len(best) else 0
            while hi - lo > 1 and time.time() < end and i < len(best):
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    hi = mid
                    changed = True
                else:
                    lo = mid
    return best, text


def campaign(seed, cases, secs, workers, label, known):
    procs = []
    for w in range(workers):
        n = f"{label}{w}"
        for suf in (".json", ".json.hash"):
            try:
                os.remove(f"{WORK}/{n}{suf}")
            except OSError:
                pass
        p = launch([f"seed={seed * 1000 + w}", f"cases={cases}", f"secs={secs}", f"out={WORK}/{n}.json",
                    f"cur={WORK}/{n}.cur", f"hang={HANG}", "known=" + ",".join(known)], n)
        procs.append((w, n, p))
    fail = None
    deadline = time.time() + secs + HANG + 60
    pending = list(procs)
    results = []
    while pending:
        for t in list(pending):
            w, n, p = t
            rc = p.poll()
            if rc is None:
                if time.time() > deadline:
                    os.killpg(p.pid, 9)
                    rc = 5
                else:
                    continue
            pending.remove(t)
            results.append((w, n, rc))
            if rc not in (0, 2) and fail is None:
                fail = (w, n, rc)
                deadline = min(deadline, time.time() + 10)  # let the others stop soon
                for _, _, q in pending:
                    if q.poll() is None:
                        os.killpg(q.pid, 9)
        time.sleep(0.05)
    return fail, [r for r in results]


def main():
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    log = build()
    if log:
        print(tail(log, 3000))
        print(f"ERROR: {ID}: the check does not build")
        return 2
    bt = time.time() - START
    if len(sys.argv) > 3 and sys.argv[2] == "replay":
        rc, s, text = replay(os.path.abspath(sys.argv[3]), "replay")
        print(text[-4000:])
        if rc:
            print(f"VIOLATION property={ID} replay={sys.argv[3]}")
            return 1
        return 0
    known = [k for k in CFG.get("known", []) if k["property"] == ID]
    for k in known:  # a listed finding is re-run, and its exact signature is excluded from the search
        rc, s, text = replay(V + "/" + k["replay"], "known")
        if rc and s == k["sig"]:
            print(f"KNOWN-FINDING: property={ID} {k['what']}")
        else:
            print(f"note: listed finding no longer fails: {k['what']}")
    cases, secs = C["cases"][T], C["secs"][T]
    workers = C.get("workers", 8)
    regress = []
    rdir = V + "/regress/" + ID
    fail = None
    if os.path.isdir(rdir):  # saved inputs of defects met before
        for f in sorted(os.listdir(rdir)):
            rc, s, text = replay(rdir + "/" + f, "regress")
            regress.append(f)
            if rc and s not in [k["sig"] for k in known]:
                print(text[-3000:])
                fail = ("regress", f, rc)
                print(f"VIOLATION property={ID} replay={rdir}/{f}")
                evidence([], workers, bt, 1, regress, [])
                return 1
    notes = []
    fail, results = campaign(SEED, cases, secs, workers, "w", [k["sig"] for k in known])
    if any(rc == 2 for _, _, rc in results):
        print(f"ERROR: {ID}: worker could not start")
        return 2
    if fail:
        w, n, rc = fail
        text = tail(f"{WORK}/{n}.err", 20000)
        sig = sig_of(text, rc)
        prop, vals = read_cur(f"{WORK}/{n}.cur")
        first = text
        rdirw = os.environ.get("VERIF_WORK", V + "/work") + "/replays"
        os.makedirs(rdirw, exist_ok=True)
        path = f"{rdirw}/{ID}-{sig.replace(':', '_').replace('/', '_')}-{SEED}.txt"
        confirmed = 0
        tries = 3
        maxt = 25 if CONC and sig != "hang" else 3
        write_replay(path, prop, vals, first[-3000:])
        for _ in range(maxt):
            rc2, s2, t2 = replay(path, "conf", hang=min(HANG, 30) if sig == "hang" else None)
            if rc2 and s2.split(":")[0] == sig.split(":")[0]:
                confirmed += 1
                if confirmed >= (1 if CONC and sig != "hang" else tries):
                    break
            elif not CONC:
                break
        ok = confirmed >= (1 if CONC and sig != "hang" else tries)
        if ok:
            budget = (120 if T else 40) if sig != "hang" else 60
            best, t = shrink(prop, vals, sig, budget, 2 if CONC else 1)
            write_replay(path, prop, best, (t or first)[-3000:])
            print((t or first)[-3500:])
            print(f"VIOLATION property={ID} replay={path}")
            evidence(results, workers, bt, 1, regress, notes)
            return 1
        # not reproduced from the saved case alone: run the whole campaign again
        fail2, results2 = campaign(SEED + (500 if CONC else 0), cases, secs, workers, "x", [k["sig"] for k in known])
        if fail2:
            t2 = tail(f"{WORK}/{fail2[1]}.err", 20000)
            s2 = sig_of(t2, fail2[2])
            if s2.split(":")[0] == sig.split(":")[0]:
                prop2, vals2 = read_cur(f"{WORK}/{fail2[1]}.cur")
                write_replay(path, prop2, vals2, t2[-3000:])
                print(t2[-3500:])
                print(f"VIOLATION property={ID} replay={path}")
                evidence(results, workers, bt, 1, regress, notes)
                return 1
            notes.append(f"unconfirmed: {s2}: {t2[-600:]}")
        notes.append(f"unconfirmed: {sig}: {first[-600:]}")
        print("note: a failure did not reproduce and is recorded as inconclusive: " + first[-1500:])
        if os.path.exists(WORK + "/x0.json") and not fail2:
            for wk in range(workers):
                for suf in (".json", ".json.hash"):
                    if os.path.exists(f"{WORK}/x{wk}{suf}"):
                        os.replace(f"{WORK}/x{wk}{suf}", f"{WORK}/w{wk}{suf}")
    evidence(results, workers, bt, 0, regress, notes)
    return 0


def evidence(results, workers, bt, nviol, regress, notes):
    tot = {"ran": 0, "discarded": 0, "nontrivial": 0}
    props, tags, knownHits, samples, seen, rule = {}, {}, {}, [], set(), ""
    for w in range(workers):
        p = f"{WORK}/w{w}.json"
        if not os.path.exists(p):
            continue
        j = json.load(open(p))
        for k in tot:
            tot[k] += j[k]
        rule = j["rule"]
        for src, dst in ((j["props"], props), (j["tags"], tags), (j["known"], knownHits)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        samples += j["samples"]
        b = open(p + ".hash", "rb").read()
        for i in range(0, len(b), 8):
            seen.add(b[i:i + 8])
    byp, pick = {}, []
    for s in samples:
        k = s.split(":")[0]
        byp[k] = byp.get(k, 0) + 1
        if byp[k] <= 2:
            pick.append(s)
    ev = {"property": ID, "tier": TIER, "seed": SEED, "level": C.get("level", "exploration"),
          "coverage": {"evaluations": tot["ran"], "distinct_nontrivial": len(seen), "rule": rule,
                       "samples": pick[:12] or ["(the run stopped at a violation before a sample was kept)"],
                       "discarded": tot["discarded"], "per_property": props, "classes": tags,
                       "saved_inputs_replayed": len(regress), "known_finding_hits": knownHits, "workers": workers},
          "wall_s": round(time.time() - START, 2), "violations": nviol}
    ev["coverage"]["build_s"] = round(bt, 2)
    if notes:
        ev["coverage"]["inconclusive"] = notes
    ev["assumptions"] = CFG.get("assumptions", []) + C.get("assumptions", [])
    with open(f"{V}/evidence/{ID}.json", "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{ID}: {tot['ran']} cases, {len(seen)} distinct non-trivial, {round(time.time()-START,1)} s")


sys.exit(main())
