#!/usr/bin/env python3
"""Runs one property's check: build the harness from /repo's working tree,
explore its spaces, judge the result, write the evidence.

  run.py C01 [--tier quick|thorough] [--space NAME]
  run.py --replay FILE          re-executes one recorded case
  run.py --build-all            (setup) compiles everything once
"""
import concurrent.futures as cf
import fnmatch, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))

COMMON = ["-std=c++17", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer", "-w",
          "-I" + REPO, "-I" + os.path.join(HERE, "lib"), "-I/usr/include/botan-2"]
VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address", "-DMC_ASAN"],
}
# harness -> variant, store needed, extra sources
import importlib.util
spec = importlib.util.spec_from_file_location("checks", os.path.join(HERE, "checks.py"))
checks = importlib.util.module_from_spec(spec)
spec.loader.exec_module(checks)
CHECKS = checks.CHECKS


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def die(msg, code=3):
    print("ERROR: " + msg)
    sys.exit(code)


def repo_lib_sources():
    """The library's sources as the repository's own build lists them."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\s*\(\s*RON_SOURCES\b([^)]*)\)", txt)
    srcs = []
    if m:
        srcs = [w for w in m.group(1).split() if w.endswith(".cc")]
        srcs = [w.replace("${CMAKE_SOURCE_DIR}/", "") for w in srcs]
    srcs = [s for s in srcs if os.path.exists(os.path.join(REPO, s))]
    if not srcs:
        srcs = sorted("ron/" + f for f in os.listdir(os.path.join(REPO, "ron"))
                      if f.endswith(".cc") and f != "string-parser.cc")
    return srcs


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dn, fn in os.walk(root):
                dn.sort()
                files += [os.path.join(d, f) for f in sorted(fn)
                          if f.endswith((".cc", ".hpp", ".h", ".txt"))]
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return src, 0, b""
    tmp = obj + ".tmp%d" % os.getpid()
    r = sh(["g++"] + flags + ["-c", src, "-o", tmp])
    if r.returncode == 0:
        os.rename(tmp, obj)
    return src, r.returncode, r.stdout


def build(ids):
    """Compiles the binaries of the given checks; returns {id: path}."""
    dirs = [os.path.join(REPO, d) for d in ("ron", "rdt", "db") if os.path.isdir(os.path.join(REPO, d))]
    base = tree_hash(dirs + [os.path.join(REPO, "CMakeLists.txt"), os.path.join(HERE, "lib")])
    os.makedirs(BUILD, exist_ok=True)
    jobs, links, bins = {}, [], {}
    libs = repo_lib_sources()

    def obj(src, flags):
        own = b"" if src.startswith(REPO) else open(src, "rb").read()
        k = hashlib.sha256((base + src + " ".join(flags)).encode() + own).hexdigest()[:24]
        o = os.path.join(BUILD, os.path.basename(src) + "." + k + ".o")
        jobs[o] = (src, o, flags)
        return o

    for i in ids:
        c = CHECKS[i]
        flags = COMMON + VARIANTS[c.get("variant", "plain")] + c.get("flags", [])
        libflags = COMMON + VARIANTS[c.get("variant", "plain")]
        objs = [obj(os.path.join(HERE, "harness", c["src"]), flags)]
        for s in libs:
            objs.append(obj(os.path.join(REPO, s), libflags))
        for s in c.get("repo_src", []):
            objs.append(obj(os.path.join(REPO, s), libflags + c.get("repo_flags", [])))
        for s in c.get("extra_src", []):
            objs.append(obj(os.path.join(HERE, "lib", s), flags))
        k = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
        b = os.path.join(BUILD, i + "." + k)
        ld = ["-lbotan-2", "-lpthread", "-ldl"] + c.get("ld", [])
        bins[i] = b
        if not os.path.exists(b):
            links.append((i, ["g++"] + VARIANTS[c.get("variant", "plain")] + objs + ["-o", b + ".tmp"] + ld, b))
    with cf.ThreadPoolExecutor(8) as ex:
        for src, rc, out in ex.map(compile_one, list(jobs.values())):
            if rc:
                print(out.decode(errors="replace")[-4000:])
                die("cannot compile " + src)
        def link(l):
            r = sh(l[1])
            if r.returncode == 0:
                os.rename(l[2] + ".tmp", l[2])
            return l, r
        for l, r in ex.map(link, links):
            if r.returncode:
                print(r.stdout.decode(errors="replace")[-4000:])
                die("cannot link " + l[0])
    return bins


def known_findings(prop):
    """Lines 'finding: property=ID space=S case=HEX <what fails>' (exact case)."""
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\w+) space=(\S+) case=([0-9a-f]*) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            s = os.statvfs(d)
            if s.f_bavail * s.f_frsize > 4 << 30:
                return d
    return HERE


def run_bin(prop, binary, args, env):
    work = tempfile.mkdtemp(prefix="vf-" + prop + "-", dir=scratch_root())
    try:
        p = subprocess.Popen([binary, "--work", work] + args, env=env, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        try:
            rc = p.wait()
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        return rc, work
    except BaseException:
        shutil.rmtree(work, ignore_errors=True)
        raise


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "--build-all":
        build(sorted(CHECKS))
        print("built", len(CHECKS), "harnesses")
        return 0
    env = dict(os.environ)
    if a[0] == "--replay":
        r = json.load(open(a[1]))
        b = build([r["property"]])[r["property"]]
        env["VERIF_TIER"] = r.get("tier", "quick")
        rc, work = run_bin(r["property"], b, ["--replay", r["space"], r["case_hex"] or "00"[:0]], env)
        shutil.rmtree(work, ignore_errors=True)
        return rc
    prop = a[0]
    if prop not in CHECKS:
        die("unknown check " + prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    env["VERIF_TIER"] = tier
    t0 = time.time()
    b = build([prop])[prop]
    tb = time.time() - t0
    outf = tempfile.NamedTemporaryFile(prefix="vf-out-", suffix=".json", delete=False, dir=scratch_root())
    outf.close()
    args = ["--out", outf.name]
    if "--space" in a:
        args += ["--space", a[a.index("--space") + 1]]
    work = None
    try:
        rc, work = run_bin(prop, b, args, env)
        if rc != 0:
            die("the explorer of %s ended with %d" % (prop, rc))
        res = json.load(open(outf.name))
    finally:
        os.unlink(outf.name)
        if work:
            shutil.rmtree(work, ignore_errors=True)
    return judge(prop, tier, seed, res, t0, tb)


def judge(prop, tier, seed, res, t0, tb):
    c = CHECKS[prop]
    known = known_findings(prop)
    new, seen_known, unconfirmed = [], [], 0
    for v in res["violations"]:
        k = [x for x in known if x[0] == v["space"] and x[1] == v["case_hex"]]
        if k:
            seen_known.append(k[0])
        elif v["confirmed"]:
            new.append(v)
        else:
            unconfirmed += 1
    for k in sorted(set(seen_known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    sp = res["spaces"]
    tot = lambda key: sum(s[key] for s in sp)
    level = c.get("level", "model_checking")
    cov = {
        "spaces": {s["name"]: {"cases": s["cases"], "distinct_states": s["states"], "calls_into_the_code": s["transitions"],
                               "nontrivial": s["nontrivial"], "complete": s["complete"] and s["cases"] == s["size"],
                               "rule": s["rule"]} for s in sp},
        "evaluations": tot("cases"),
        "distinct_nontrivial": tot("nontrivial"),
        "rule": c["rule"],
        "samples": [{"space": s["name"], "case": x} for s in sp for x in s["samples"]][:40],
        "exhaustive": all(s["complete"] and s["cases"] == s["size"] for s in sp) and not new,
        "build_s": round(tb, 1),
    }
    if level == "model_checking":
        cov["states"] = tot("states")
        cov["transitions"] = tot("transitions")
        cov["traces_validated_against_impl"] = tot("traces")
    elif level == "fault_enumeration":
        cov["histories"] = tot("cases")
        cov["evaluations"] = tot("traces")
        cov["distinct_nontrivial"] = tot("states")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(new[:5]):
            path = os.path.join(rd, "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "space": v["space"], "case": v["case"],
                           "case_hex": v["case_hex"], "message": v["msg"], "reproduced": v["how"]}, f, indent=1)
                f.write("\n")
            print("in %s, case %r:\n  %s" % (v["space"], v["case"][:300], v["msg"][:600].replace("\n", "\n  ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unconfirmed:
        die("%d failures did not reproduce" % unconfirmed)
    if not cov["exhaustive"]:
        # known findings that crash cost a restart each, but skip nothing
        short = [s["name"] for s in sp if not s["complete"] or s["cases"] != s["size"]]
        die("spaces not fully explored: " + ", ".join(short))
    print("%s: %d cases, %d states, %d transitions in %.1f s: holds" %
          (prop, cov["evaluations"], tot("states"), tot("transitions"), time.time() - t0))
    return 0


sys.exit(main())
