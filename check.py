#!/usr/bin/env python3
"""Run the static checks of one property (or several) against /repo's tree.

usage: check.py <property id>... [--tier quick|thorough] [--keep]

exit 0  every obligation of the property is discharged (known findings aside)
exit 1  at least one obligation is not; one VIOLATION line each
exit 2  the analysis itself is broken (driver does not compile, an anchor or a
        positive control vanished, ...)
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VS_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
JOBS = min(8, os.cpu_count() or 1)

CXX = "clang++"
CFLAGS = ["-std=c++23", "-O1", "-g", "-Xclang", "-disable-llvm-passes",
          "-fno-strict-aliasing", "-fno-delete-null-pointer-checks", "-fwrapv",
          "-fsanitize=return,null,shift,bounds,integer-divide-by-zero", "-fstrict-flex-arrays=3",
          "-fsanitize-trap=all", "-include", "vs_pre.h", "-w", "-ferror-limit=3"]
DEFAULT_TRUST = ["clang 18 front end and LLVM 18 IR semantics",
                 "LLVM normalisation passes (inlining, SROA, GVN, loop passes) preserve semantics",
                 "tools/vsan.cpp transfer functions and Fourier-Motzkin entailment",
                 "drivers/*.cpp state the property for the listed instantiations"]


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_tool(name):
    """build tools/<name>.cpp on demand; rebuilt when the source changes"""
    src = os.path.join(VERIF, "tools", name + ".cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, f"{name}-{h}")
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, f".{name}.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        cfg = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
        cfg = [f for f in cfg if f not in ("-std=c++17", "-fno-exceptions")]
        ld = sh(["llvm-config-18", "--ldflags", "--libs"]).stdout.split()
        libs = []
        first = open(src).readline()
        m = re.search(r"libs=(\S+)", first)
        if m:
            libs = m.group(1).split(",")
        tmp = out + ".tmp%d" % os.getpid()
        r = sh([CXX, "-std=c++20", "-O2", "-g1", *cfg, "-fexceptions", "-frtti", src, "-o", tmp, *libs, *ld])
        if r.returncode != 0:
            raise Broken(f"cannot build {name}: {r.stderr[-2000:]}")
        os.rename(tmp, out)
    return out


def header_opts(path):
    """// vs: key=value key=value   (first lines of a driver file)"""
    o = {}
    for ln in open(path).read().splitlines()[:12]:
        m = re.match(r"//\s*vs:\s*(.*)", ln)
        if m:
            for kv in m.group(1).split():
                k, _, v = kv.partition("=")
                o[k] = v
    return o


def compile_tu(path, tmp, tier):
    """bitcode of one driver file; compile errors inside the library or in a
    static_assert of the driver are findings, anything else is a broken check"""
    o = header_opts(path)
    base = os.path.basename(path)
    bc = os.path.join(tmp, base + ".bc")
    extra = [f for f in o.get("flags", "").split(",") if f]
    if tier == "thorough":
        extra.append("-DVS_THOROUGH")
    cmd = [CXX, *CFLAGS, *extra, "-I" + os.path.join(VERIF, "drivers"), "-I" + os.path.join(REPO, "include"),
           "-c", "-emit-llvm", path, "-o", bc]
    r = sh(cmd)
    if r.returncode == 0:
        return bc, o, []
    v = []
    for ln in r.stderr.splitlines():
        m = re.match(r"(\S+?):(\d+):\d+: (?:fatal )?error: (.*)", ln)
        if not m:
            continue
        f, line, msg = m.groups()
        if "static assertion failed" in msg or "static assertion expression" in msg or f.startswith(REPO + "/include"):
            v.append(dict(driver="(compile time)", file=base, rule="compile-time witness", msg=msg[:300], gave_up=False,
                          where=f"{f}:{line}", path=[]))
    if not v:
        raise Broken(f"{base} does not compile against {REPO}/include:\n{r.stderr[:3000]}")
    return None, o, v


def defined_drivers(bc, o):
    """drivers of a compiled file; `// vs: skip=a,b` leaves some out"""
    r = sh(["llvm-nm-18", bc])
    if r.returncode != 0:
        raise Broken(f"cannot list {bc}: {r.stderr[:500]}")
    skip = set(o.get("skip", "").split(","))
    ds = [ln.split()[-1][len("vs_drv_"):] for ln in r.stdout.splitlines() if " T vs_drv_" in ln]
    return [d for d in ds if d not in skip]


class Pool:
    """compiles driver files and analyses every driver of them, JOBS at a time"""

    def __init__(self, tmp, tier):
        self.tmp, self.tier = tmp, tier
        self.ex = concurrent.futures.ThreadPoolExecutor(JOBS)
        self.deadline = time.time() + (780 if tier == "quick" else 7200)
        self.tool = build_tool("vsan")

    def one(self, bc, o, drv):
        args = [self.tool, bc, "--driver=" + drv]
        if "disjuncts" in o:
            args.append("--max-disjuncts=" + o["disjuncts"])
        if os.path.basename(bc).startswith("controls."):
            args += ["--budget-ms=4000"]  # all good ones are done long before
        elif self.tier == "thorough":
            args += ["--budget-steps=1500000", "--budget-ms=400000"]
        limit = max(5, min(300 if self.tier == "quick" else 1800, self.deadline - time.time()))
        try:
            r = sh(args, timeout=limit)
        except subprocess.TimeoutExpired:
            return dict(driver=drv, obligations=[dict(msg="analysis did not finish", open=True, by="")], findings=[],
                        reach=[], functions=[], steps=0, accesses=0, gave_up=True, returned=False)
        if r.returncode != 0:
            raise Broken(f"analyser failed on {drv}: rc={r.returncode} {r.stderr[-2000:]}")
        try:
            js = json.loads(r.stdout)
        except ValueError as e:
            raise Broken(f"analyser output for {drv}: {e}")
        for d in js["drivers"]:
            if d["driver"] == drv:
                return d
        raise Broken(f"driver {drv} is not in the compiled module")

    def file(self, path):
        bc, o, v = compile_tu(path, self.tmp, self.tier)
        if bc is None:
            return dict(file=os.path.basename(path), opts=o, ct=v, futs=[])
        ds = defined_drivers(bc, o)
        if len(ds) < int(o.get("min", "1")):
            raise Broken(f"{os.path.basename(path)}: only {len(ds)} drivers")
        return dict(file=os.path.basename(path), opts=o, ct=v,
                    futs=[self.ex.submit(self.one, bc, o, d) for d in ds])

    def files(self, paths):
        with concurrent.futures.ThreadPoolExecutor(JOBS) as cx:
            return list(cx.map(self.file, paths))


def check_controls(js):
    """positive and negative controls of the engine, on every run"""
    n = 0
    for f in js["futs"]:
        d = f.result()
        opens = {ob["msg"] for ob in d["obligations"] if ob["open"]}
        acc = [f for f in d["findings"] if f["kind"] == "access"]
        dead = [r["msg"] for r in d["reach"] if not r["reachable"]]
        bad = d["driver"].startswith("bad_")
        n += 1
        if bad and not opens and not acc and not dead:
            raise Broken(f"positive control {d['driver']} no longer fires")
        if not bad and (opens or acc or dead or d["gave_up"]):
            raise Broken(f"negative control {d['driver']} is no longer discharged: {sorted(opens)}")
    if n < 12:
        raise Broken(f"only {n} control drivers were analysed")
    return n


def run_drivers(pid, files, tier, tmp):
    pool = Pool(tmp, tier)
    res = pool.files([os.path.join(VERIF, "drivers", "controls.cpp"), *files])
    nctl = check_controls(res[0])
    res = res[1:]
    violations, functions = [], set()
    stats = dict(tus=len(files), drivers=0, obligations=0, discharged=0, by_normalisation=0, by_relational=0,
                 access_checks=0, reach_witnesses=0, transfer_steps=0, controls=nctl)
    samples = []
    for js in res:
        stats["obligations"] += len(js["ct"])
        violations += js["ct"]
        for fu in js["futs"]:
            d = fu.result()
            stats["drivers"] += 1
            stats["transfer_steps"] += d["steps"]
            stats["access_checks"] += d["accesses"]
            functions.update(d["functions"])
            fmap = {}
            for f in d["findings"]:
                fmap.setdefault(f["msg"], f)
            for ob in d["obligations"]:
                stats["obligations"] += 1
                if not ob["open"]:
                    stats["discharged"] += 1
                    stats["by_" + ob["by"]] += 1
                    if len(samples) < 6:
                        samples.append(f"{d['driver']}: {ob['msg']} ({ob['by']})")
                else:
                    violations.append(dict(driver=d["driver"], file=js["file"], rule="obligation", msg=ob["msg"],
                                           gave_up=d["gave_up"], where=fmap.get(ob["msg"], {}).get("where", ""),
                                           path=fmap.get(ob["msg"], {}).get("path", [])))
            nacc = 0
            for f in d["findings"]:
                if f["kind"] == "access":
                    nacc += 1
                    violations.append(dict(driver=d["driver"], file=js["file"], rule="memory access", msg=f["msg"],
                                           gave_up=d["gave_up"], where=f["where"], path=f["path"]))
            stats["obligations"] += max(d["accesses"], nacc)
            stats["discharged"] += max(d["accesses"] - nacc, 0)
            for rch in d["reach"]:
                stats["reach_witnesses"] += 1
                stats["obligations"] += 1
                if rch["reachable"]:
                    stats["discharged"] += 1
                else:
                    violations.append(dict(driver=d["driver"], file=js["file"], rule="reachability", gave_up=False,
                                           msg="never happens: " + rch["msg"], where="", path=[]))
            if not d["returned"] and not d["gave_up"] and not any(v["driver"] == d["driver"] for v in violations):
                violations.append(dict(driver=d["driver"], file=js["file"], rule="reachability", gave_up=False,
                                       msg="the operation never completes", where="", path=[]))
    return violations, stats, functions, samples, res


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def run_property(pid, tier):
    t0 = time.time()
    files = sorted(glob.glob(os.path.join(VERIF, "drivers", pid + "_*.cpp")))
    rules = sorted(glob.glob(os.path.join(VERIF, "rules", pid + "_*.py")))
    if not files and not rules:
        raise Broken(f"no analysis registered for {pid}")
    tmp = tempfile.mkdtemp(prefix=f"vs-{pid}-")
    violations, stats, functions, samples = [], {}, set(), []
    try:
        if files:
            violations, stats, functions, samples, _ = run_drivers(pid, files, tier, tmp)
        for rl in rules:
            ns = {"__file__": rl, "__name__": "vs_rule"}
            exec(compile(open(rl).read(), rl, "exec"), ns)
            v, st, fn, sm = ns["run"](dict(repo=REPO, verif=VERIF, tmp=tmp, tier=tier, build_tool=build_tool, sh=sh,
                                          Broken=Broken, jobs=JOBS, cxx=CXX))
            violations += v
            for k, x in st.items():
                stats[k] = stats.get(k, 0) + x if isinstance(x, (int, float)) else x
            functions |= set(fn)
            samples += sm
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = [k for k in load_known().get("findings", []) if k["property"] == pid]
    seen_known, fresh = [], []
    for v in violations:
        k = next((k for k in known if k["driver"] == v["driver"] and v["msg"].startswith(k["obligation"])), None)
        (seen_known if k else fresh).append((v, k))
    for v, k in seen_known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    os.makedirs(EVID, exist_ok=True)
    for n in glob.glob(os.path.join(EVID, pid + ".replay-*.json")):
        os.unlink(n)
    out_v = []
    for i, (v, _) in enumerate(fresh):
        rp = os.path.join(EVID, f"{pid}.replay-{i}.json")
        json.dump(v, open(rp, "w"), indent=1)
        out_v.append(dict(what=f"{v['file']}:{v['driver']}: {v['rule']}: {v['msg']}", replay=rp))
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  driver {v['driver']} ({v['file']}), {v['rule']}: {v['msg']}" + (" [analysis budget exhausted]" if v.get("gave_up") else ""))
        if v.get("where"):
            print(f"  at {v['where']}")
        for p in v.get("path", [])[-8:]:
            print(f"     via {p}")
    mf = os.path.join(VERIF, "MANIFEST.json")
    man = {c["property"]: c for c in json.load(open(mf))["checks"]} if os.path.exists(mf) else {}
    level = man.get(pid, {}).get("level", "proof")
    cov = dict(obligations=stats.get("obligations", 0), discharged=stats.get("discharged", 0),
               checker_cmd=f"python3 {VERIF}/check.py {pid} --tier {tier}", trusted_base=DEFAULT_TRUST,
               analysed=dict(stats), library_functions=sorted(functions),
               rules=["every CHECK of every driver is unreachable", "no undefined behaviour trap is reachable",
                      "every access through a declared region stays inside it", "every REACH witness and every driver exit is reachable"],
               samples=samples)
    if level == "other":
        cov["explanation"] = man.get(pid, {}).get("level_note", "custom static rule over the compiler's representation of the tree")
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, coverage=cov,
              wall_s=round(time.time() - t0, 2),
              assumptions=["analysed for the template instantiations named in the drivers, libstdc++ 13, x86-64",
                           "pointers passed in are null or user-space addresses; lengths do not wrap the address space"],
              violations=len(out_v), violation_list=out_v)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print(f"{pid}: {stats.get('obligations', 0)} obligations, {stats.get('discharged', 0)} discharged, "
          f"{len(fresh)} violation(s), {len(seen_known)} known, {ev['wall_s']} s")
    return 1 if fresh else 0


def main():
    a = [x for x in sys.argv[1:]]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a == ["--setup"]:
        for t in sorted(glob.glob(os.path.join(VERIF, "tools", "*.cpp"))):
            print(build_tool(os.path.basename(t)[:-4]))
        return 0
    if a == ["all"]:
        a = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
    rc = 0
    for pid in a:
        try:
            r = run_property(pid, tier)
        except Broken as e:
            print(f"ANALYSIS BROKEN ({pid}): {e}", file=sys.stderr)
            r = 2
        rc = max(rc, r) if rc != 1 else rc
    return rc


if __name__ == "__main__":
    sys.exit(main())
