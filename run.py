#!/usr/bin/env python3
"""Runs one property check: builds mJS from /repo's working tree, drives the
generated-input search, shrinks and confirms any failure, writes evidence.

  run.py P01 [--tier quick|thorough] [--replay FILE] [--budget SECONDS]
  run.py --build-all
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
NCPU = os.cpu_count() or 4
sys.path.insert(0, os.path.join(HERE, "props"))
sys.dont_write_bytecode = True
from registry import PROPS, CONFIGS  # noqa: E402


def die(msg):
    """An error of the check itself: neither a pass nor a violation."""
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(2)


def source_list():
    src = os.path.join(REPO, "src")
    mk = open(os.path.join(src, "mjs_sources.mk")).read()
    names = []
    for m in re.finditer(r"[\w./-]+\.c\b", mk):
        if m.group(0) not in names and os.path.exists(os.path.join(src, m.group(0))):
            names.append(m.group(0))
    if not names:
        die("no sources found in mjs_sources.mk")
    return names


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "lib"), os.path.join(HERE, "lib"), os.path.join(HERE, "props")):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                if f.endswith((".c", ".h", ".cc", ".mk", ".js")):
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    h.update(open(__file__, "rb").read())
    h.update(repr(CONFIGS).encode())
    return h.hexdigest()[:20]


def sh(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("%s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout[-4000:]))


def build(prop, configs, pool):
    """Compiles every config of a property; returns {config: binary}."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    root = os.path.join(BUILD, key)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        # drop trees of other versions
        for d in os.listdir(BUILD):
            p = os.path.join(BUILD, d)
            if d != key and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
        os.makedirs(root, exist_ok=True)
        jobs, bins = [], {}
        inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src", "frozen"), "-I" + REPO]
        spec = PROPS[prop]
        for c in configs:
            cfg = CONFIGS[c]
            od = os.path.join(root, c)
            os.makedirs(od, exist_ok=True)
            for s in source_list():
                o = os.path.join(od, s.replace("/", "_") + ".o")
                if not os.path.exists(o):
                    jobs.append((["clang", "-c", "-std=gnu99", "-w", "-g1"] + cfg["cflags"] + inc +
                                 ["-include", os.path.join(HERE, "lib", "verif_pre.h"),
                                  "-DMJS_EXPOSE_PRIVATE", "-DCS_ENABLE_STDIO", "-DMJS_ENABLE_DEBUG", "-DCS_MMAP",
                                  "-DMJS_MODULE_LINES", "-DMJS_MEMORY_STATS=1", "-DMJS_VERIF_HOOKS",
                                  os.path.join(REPO, "src", s)], o))
            cxx = ["engine.cc", "mjsx.cc"] + spec.get("libs", [])
            for s in cxx:
                o = os.path.join(od, "lib_" + s + ".o")
                if not os.path.exists(o):
                    jobs.append((["clang++", "-c", "-std=gnu++17", "-w", "-g1"] + cfg["cxxflags"] + inc +
                                 ["-I" + os.path.join(HERE, "lib"), os.path.join(HERE, "lib", s)], o))
            o = os.path.join(od, prop + ".o")
            if not os.path.exists(o):
                jobs.append((["clang++", "-c", "-std=gnu++17", "-w", "-g1"] + cfg["cxxflags"] + inc +
                             ["-I" + os.path.join(HERE, "lib"), '-DVERIF_CONFIG="%s"' % c,
                              '-DVERIF_REPO="%s"' % REPO, '-DVERIF_HOME="%s"' % HERE,
                              os.path.join(HERE, "props", spec["file"])], o))

        def one(j):
            cmd, o = j
            tmp = o + ".tmp%d" % os.getpid()
            sh(cmd + ["-o", tmp], "compile")
            os.rename(tmp, o)
        list(pool.map(one, jobs))
        for c in configs:
            cfg = CONFIGS[c]
            od = os.path.join(root, c)
            b = os.path.join(od, prop)
            if not os.path.exists(b):
                objs = [os.path.join(od, s.replace("/", "_") + ".o") for s in source_list()]
                objs += [os.path.join(od, "lib_" + s + ".o") for s in ["engine.cc", "mjsx.cc"] + spec.get("libs", [])]
                sh(["clang++"] + cfg["ldflags"] + ["-rdynamic", "-o", b + ".tmp", os.path.join(od, prop + ".o")] +
                   objs + ["-ldl", "-lm", "-lpthread"], "link")
                os.rename(b + ".tmp", b)
            bins[c] = b
        os.utime(root)
        return bins
    except RuntimeError as e:
        die(str(e))
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--build-all", action="store_true")
    ap.add_argument("--selftest", action="store_true", help="check that the tools are there")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    pool = cf.ThreadPoolExecutor(NCPU)
    if a.selftest:
        for t in ("clang", "clang++"):
            if not shutil.which(t):
                die(t + " is missing")
        print("%d properties, %d sources" % (len(PROPS), len(source_list())))
        return 0
    if a.build_all:
        for p in PROPS:
            build(p, [c for c, _ in PROPS[p]["configs"]], pool)
        return 0
    prop = a.prop
    if prop not in PROPS:
        die("unknown property %r" % prop)
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    t0 = time.time()
    scratch = "/tmp/verif_%s_%d" % (prop, os.getpid())
    os.makedirs(scratch)
    os.environ["VERIF_SCRATCH"] = scratch
    os.environ["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    procs = []
    try:
        configs = [c for c, _ in spec["configs"]]
        if a.replay:
            m = re.search(r"^config (\S+)", open(a.replay).read(), re.M)
            if m and m.group(1) in configs:
                configs = [m.group(1)]
        bins = build(prop, configs, pool)
        if a.replay:
            bad = 0
            for c in configs:
                r = subprocess.run([bins[c], "replay", a.replay])
                bad |= r.returncode != 0
            return 1 if bad else 0
        return search(a, prop, spec, seed, bins, scratch, t0, procs)
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def search(a, prop, spec, seed, bins, scratch, t0, procs):
    budget = a.budget or spec[a.tier if a.tier in ("quick", "thorough") else "quick"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    # one worker per core; configs share them by weight
    total = sum(w for _, w in spec["configs"])
    slots = []
    nw = max(NCPU, len(spec["configs"]))
    for c, w in spec["configs"]:
        n = max(1, round(nw * w / total))
        slots += [c] * n
    workers = []
    for i, c in enumerate(slots):
        workers.append(dict(config=c, idx=i, start=0, out=os.path.join(scratch, "w%d_0" % i), round=0))

    def launch(w, left):
        cmd = [bins[w["config"]], "run", "--seed", str(seed), "--worker", str(w["idx"]), "--budget", "%.1f" % left,
               "--from", str(w["start"]), "--out", w["out"]]
        w["err"] = open(w["out"] + ".err", "wb")
        w["p"] = subprocess.Popen(cmd, stdout=w["err"], stderr=w["err"])
        procs.append(w["p"])

    tstart = time.time()
    for w in workers:
        launch(w, budget)
    results, violations, unconfirmed = [], [], []
    active = list(workers)
    hard = tstart + budget * 2 + 120

    def confirm(f):
        """Shrinks a failing case and replays the result three times."""
        rp = os.path.join(HERE, "replays", "%s_%s_s%d_w%d_c%d.txt" % (prop, f["config"], seed, f["worker"], f["case"]))
        b = bins[f["config"]]
        base = ["--seed", str(seed), "--worker", str(f["worker"]), "--case", str(f["case"]), "--config", f["config"]]
        for sb in ("40", "0"):
            r = subprocess.run([b, "shrink"] + base + ["--budget", sb, "--out", rp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 0 and os.path.exists(rp) and all(
                    subprocess.run([b, "replay", rp], stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL).returncode == 1 for _ in range(3)):
                return rp, r.stdout.strip()
        if os.path.exists(rp):
            os.unlink(rp)
        return None

    pending = []
    tp = cf.ThreadPoolExecutor(NCPU)
    while (active or pending) and not violations:
        time.sleep(0.05)
        for w in list(active):
            rc = w["p"].poll()
            if rc is None:
                if time.time() > hard:
                    w["p"].kill()
                    w["p"].wait()
                    active.remove(w)
                continue
            active.remove(w)
            w["err"].close()
            js = w["out"] + ".json"
            if rc in (0, 3) and os.path.exists(js):
                r = json.load(open(js))
                r["config"] = w["config"]
                r["hash"] = open(w["out"] + ".hash", "rb").read()
                results.append(r)
                if rc == 0:
                    continue
            if rc == 4:
                die("worker error: " + open(w["out"] + ".err", errors="replace").read()[-1000:])
            # failure or crash: which case?
            prog = open(w["out"] + ".prog", "rb").read(8)
            idx = int.from_bytes(prog, "little")
            f = dict(worker=w["idx"], case=idx, config=w["config"], rc=rc)
            pending.append((f, w, tp.submit(confirm, f)))
        for it in list(pending):
            f, w, fut = it
            if not fut.done():
                continue
            pending.remove(it)
            v = fut.result()
            if v:
                violations.append(v)
                continue
            unconfirmed.append(f)
            left = budget - (time.time() - tstart)
            if left > 1 and w["round"] < 20:
                w["round"] += 1
                w["start"] = f["case"] + 1
                w["out"] = os.path.join(scratch, "w%d_%d" % (w["idx"], w["round"]))
                launch(w, left)
                active.append(w)
    for w in active:
        w["p"].kill()
        w["p"].wait()
    for f, w, fut in pending:   # other failures being shrunk at the same time
        v = fut.result()
        if v:
            violations.append(v)
    evals = sum(r["evaluations"] for r in results)
    hashes = set()
    labels, samples, per = {}, [], {}
    for r in results:
        h = r["hash"]
        hashes.update(h[i:i + 8] for i in range(0, len(h), 8))
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        per[r["config"]] = per.get(r["config"], 0) + r["evaluations"]
        for s in r["samples"]:
            if len(samples) < 6 and s not in samples:
                samples.append(s)
    ev = dict(property=prop, tier=a.tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=spec["rule"], samples=samples,
                            labels=labels, evaluations_per_build=per, workers=len(slots), unconfirmed=unconfirmed),
              assumptions=spec["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(violations))
    if not a.no_evidence:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (prop, evals, len(hashes), time.time() - t0))
    for rp, msg in violations:
        print("\n".join("  " + l for l in msg.splitlines()[:12]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if unconfirmed:
        print("note: %d failure(s) did not replay and are not reported: %s" % (len(unconfirmed), unconfirmed))
    if violations:
        return 1
    if evals == 0:
        die("no case was evaluated")
    return 0


if __name__ == "__main__":
    sys.exit(main())
