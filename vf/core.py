"""Shared machinery of the checks: build the code under test, run TLC, run the harness, judge traces, write evidence."""
import collections, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMMUNITY = "/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = os.cpu_count() or 8


class CheckError(Exception):
    """The check itself could not run (not a verdict)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


# ------------------------------------------------------------------ building
INCLUDES = ["-I" + os.path.join(REPO, d, "include") for d in ("rct_optimizations", "rct_common", "rct_image_tools")]
BASEFLAGS = ["-std=c++17", "-O1", "-DNDEBUG", "-w", "-fPIC", "-pthread"]
SYSINC = ["-I/usr/include/eigen3", "-I/usr/include/opencv4"]
OPT = os.path.join(REPO, "rct_optimizations/src/rct_optimizations")
IMG = os.path.join(REPO, "rct_image_tools/src/rct_image_tools")
ROS = os.path.join(REPO, "rct_ros_tools/src")
H = os.path.join(ROOT, "harness")

def srcs(d, exclude=()):
    r = [f for f in glob.glob(d + "/**/*.cpp", recursive=True) if os.path.basename(f) not in exclude]
    return sorted(r)

SHIM = ["-I" + os.path.join(H, "ceres_shim")]
KIN = SHIM + ["-include", os.path.join(H, "ceres_shim", "ceres20.h")]
DEBUG = ["-D_DEBUG"]
RENAME = ["-DcalculateHomographyError=calculateHomographyErrorReal"]
STUB = ["-I" + os.path.join(H, "ros_stub"), "-I" + os.path.join(REPO, "rct_ros_tools/include")]
CERES = ["-lceres", "-lglog", "-lyaml-cpp", "-lboost_filesystem", "-lquadmath"]
CV = ["-lopencv_core", "-lopencv_aruco", "-lopencv_features2d", "-lopencv_imgproc", "-lopencv_highgui", "-lopencv_imgcodecs", "-lopencv_calib3d"]

EX = os.path.join(REPO, "rct_examples/src/tools")
TOOLS = {"wrist": "camera_on_wrist_extrinsic", "static": "static_camera_extrinsic", "moving": "multi_static_camera_extrinsic",
         "steps": "multi_static_camera_multi_step_extrinsic", "intr": "intrinsic_calibration", "valid": "camera_intrinsic_calibration_validation",
         "noise": "noise_qualification_2d", "pnp": "solve_pnp", "mpnp": "solve_multi_camera_pnp"}


def group_def(name):
    """(source, flags) pairs and libraries of one harness binary"""
    h = lambda flags, *n: [(os.path.join(H, x + ".cpp"), flags) for x in n]
    g = lambda flags, pat: [(f, flags) for f in sorted(glob.glob(os.path.join(H, pat)))]
    kinsrc = "dh_chain_kinematic_calibration.cpp"
    opt = [(f, SHIM) for f in srcs(OPT, exclude=(kinsrc,))]
    kin = [(f, KIN) for f in srcs(OPT) if os.path.basename(f) == kinsrc]
    img = [(f, DEBUG) for f in srcs(IMG)]
    base = h(SHIM, "hmain", "solve_hook")
    if name == "opt":
        return opt + base + h(SHIM, "h_calib") + g(SHIM, "opt_*.cpp"), CERES
    if name == "kin":
        return opt + kin + base + g(KIN, "kin_*.cpp"), CERES
    if name == "img":
        return opt + img + base + g(DEBUG, "img_*.cpp"), CERES + CV
    if name == "hist":
        # (addSubsetParameterization is defined in a header)
        return (opt + kin + img + base + h(SHIM, "h_calib", "hist") + g(SHIM, "opt_*.cpp") + g(DEBUG, "img_*.cpp") + g(KIN, "kin_*.cpp"), CERES + CV + ["-Wl,-z,muldefs"])
    if name == "ros":
        return ([(os.path.join(ROS, f), STUB) for f in ("data_set.cpp", "parameter_loaders.cpp", "loader_utils.cpp", "target_loader_plugins.cpp")]
                + [(os.path.join(ROS, "command_line_cal.cpp"), STUB + ["-Dmain=collector_main"])]
                + img + opt + base + g(STUB, "ros_*.cpp"), CERES + CV)
    if name.startswith("tool_"):
        # one tool; what the harness defines itself (the solvers) comes first and wins
        return (h(STUB, "tool") + [(os.path.join(EX, TOOLS[name[5:]] + ".cpp"), STUB + ["-Dmain=tool_main"])]
                + [(os.path.join(ROS, f), STUB) for f in ("data_set.cpp", "parameter_loaders.cpp", "loader_utils.cpp")]
                + img + [(f, fl + RENAME) if os.path.basename(f) == "homography_validation.cpp" else (f, fl) for f, fl in opt] + base, CERES + CV + ["-Wl,-z,muldefs"])
    raise CheckError("unknown group " + name)


def headers_digest():
    fs = []
    for d in ("rct_optimizations", "rct_common", "rct_image_tools", "rct_ros_tools", "rct_examples"):
        for base, _, names in os.walk(os.path.join(REPO, d)):
            if "/test" in base[len(REPO):]:
                continue
            fs += [os.path.join(base, n) for n in names if n.endswith((".h", ".hpp", ".inc", ".ipp", ".hxx", ".tpp"))]
    for base, _, names in os.walk(H):
        fs += [os.path.join(base, n) for n in names if n.endswith((".h", ".hpp"))]
    return digest(*[x for f in sorted(fs) for x in (f, read(f))])


def build(group, extra_flags=(), tag=""):
    sources, libs = group_def(group)
    hd = headers_digest()
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    jobs, objs = [], []
    for s, flags in sources:
        flags = list(flags) + list(extra_flags)
        if not os.path.exists(s):
            raise CheckError("missing source " + s)
        key = digest(hd, s, read(s), " ".join(BASEFLAGS + flags))
        o = os.path.join(objdir, os.path.basename(s)[:-4] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, flags))

    def comp(j):
        s, o, flags = j
        tmp = o + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = sh(["g++"] + BASEFLAGS + flags + INCLUDES + SYSINC + ["-c", s, "-o", tmp])
        if r.returncode:
            return "cannot compile %s:\n%s" % (s, "\n".join([l for l in r.stdout.splitlines() if "error" in l][:12]))
        os.rename(tmp, o)

    # big translation units first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(JOBS) as ex:
        for e in ex.map(comp, jobs):
            if e:
                raise CheckError(e)
    binp = os.path.join(BUILD, "bin", "%s%s-%s" % (group, tag, digest(*objs)))
    if not os.path.exists(binp):
        os.makedirs(os.path.dirname(binp), exist_ok=True)
        tmp = binp + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = sh(["g++", "-pthread"] + list(extra_flags) + ["-o", tmp] + objs + libs)
        if r.returncode:
            raise CheckError("cannot link %s:\n%s" % (group, r.stdout[-4000:]))
        os.rename(tmp, binp)
    return binp


def java_classes():
    src = os.path.join(ROOT, "java", "Rat.java")
    d = os.path.join(BUILD, "cls-" + digest(read(src)))
    if not os.path.exists(os.path.join(d, "Rat.class")):
        tmp = d + ".%d.tmp" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        r = sh(["javac", "-cp", TLA, "-d", tmp, src])
        if r.returncode:
            raise CheckError("javac: " + r.stdout)
        if os.path.exists(d):
            shutil.rmtree(tmp)
        else:
            os.rename(tmp, d)
    return d


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "No error has been found" in out
        self.lines = [json.loads(l) for l in out.splitlines() if l.startswith('"') and l.endswith('"')]

    def error(self):
        i = self.out.find("Error:")
        return self.out[i:i + 1500] if i >= 0 else self.out[-1500:]


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    return '"%s"' % v


def tlc(work, module, consts, invariants=(), properties=(), spec="Spec", init_next=None, tag="", timeout=800, workers=JOBS):
    cfg = os.path.join(work, "%s%s.cfg" % (module, tag))
    with open(cfg, "w") as f:
        if consts:
            f.write("CONSTANTS\n" + "".join(" %s = %s\n" % (k, tla_value(v)) for k, v in consts.items()))
        f.write("SPECIFICATION %s\n" % spec)
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for p in properties:
            f.write("PROPERTY %s\n" % p)
        f.write("CHECK_DEADLOCK FALSE\n")
    meta = os.path.join(work, "meta" + tag + module)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx6g", "-Djava.io.tmpdir=" + work,
           "-cp", java_classes() + ":" + TLA + ":" + COMMUNITY, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", meta, "-fp", "1", "-seed", "1", "-config", cfg, os.path.join(SPEC, module + ".tla")]
    try:
        r = sh(cmd, cwd=work, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC ran out of time on " + module)
    shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.stdout, r.returncode)


# ------------------------------------------------------------------ harness
def run_harness(binp, cases, work, tag="", limit=60, env=None, jobs=JOBS, budget=3000):
    """cases: list of dicts -> list of trace dicts, in order"""
    if not cases:
        return []
    if isinstance(binp, dict):
        # the binary depends on the case
        by = {}
        kinds = sorted(set(c["tool"] for c in cases))
        with ThreadPoolExecutor(len(kinds)) as ex:
            for r in ex.map(lambda k: run_harness(binp[k], [c for c in cases if c["tool"] == k], work, tag + k, limit, env, max(1, jobs // len(kinds)), budget), kinds):
                by.update((t["id"], t) for t in r)
        return [by[c["id"]] for c in cases]
    n = max(1, min(jobs, len(cases)))
    chunks = [cases[i::n] for i in range(n)]
    e = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", GLOG_minloglevel="3", VF_BUDGET=str(budget))
    e.update(env or {})

    def one(i):
        cin, cout = os.path.join(work, "case%s.%d.ndjson" % (tag, i)), os.path.join(work, "trace%s.%d.ndjson" % (tag, i))
        with open(cin, "w") as f:
            for c in chunks[i]:
                f.write(json.dumps(c) + "\n")
        r = subprocess.run([binp, cin, cout, str(limit)], env=e, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError("harness failed: %d %s" % (r.returncode, r.stdout[-500:]))
        with open(cout) as f:
            return [json.loads(l) for l in f]

    with ThreadPoolExecutor(n) as ex:
        got = list(ex.map(one, range(n)))
    by = {}
    for g in got:
        for t in g:
            by[t["id"]] = t
    return [by[c["id"]] for c in cases]


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    """lines 'known: property=<id> match=<regex> <what fails>' of known_findings.txt"""
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3).strip()))
    return out


# ------------------------------------------------------------------ one check
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", "%s-%s-%d" % (pid, tier, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.cov = collections.OrderedDict(states=0, transitions=0, traces_validated_against_impl=0)
        self.samples, self.rejects, self.models, self.assumptions = [], [], [], []
        self.counts = collections.Counter()
        self.splits = self.lone = 0

    thorough = property(lambda s: s.tier == "thorough")

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, consts, invariants=(), properties=(), tag="", spec="Spec", timeout=800):
        """Model-check a module; its printed cases are returned, sorted by id."""
        r = tlc(self.work, module, consts, invariants, properties, spec=spec, tag=tag, timeout=timeout)
        if not r.ok:
            with open(os.path.join(self.work, "tlc.out"), "w") as f:
                f.write(r.out)
            raise CheckError("the model %s does not hold:\n%s" % (module, r.error()))
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        self.models.append({"module": module, "constants": consts, "invariants": list(invariants), "properties": list(properties),
                            "states": r.states, "transitions": r.transitions})
        cases = [json.loads(l[5:]) for l in r.lines if l.startswith("CASE ")]
        seen, res = set(), []
        for c in sorted(cases, key=lambda c: [int(x) if x.isdigit() else x for x in re.split(r"(\d+)", c["id"])]):
            if c["id"] not in seen:
                seen.add(c["id"])
                res.append(c)
        return res

    def judge(self, module, traces, consts, tag="t"):
        """Trace validation: {id: None (accepted) | reason}"""
        if not traces:
            return {}
        path = os.path.join(self.work, "trace%s.ndjson" % tag)
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        r = tlc(self.work, module, dict(consts, TRACEFILE=path), tag=tag)
        verdict = {}
        for l in r.lines:
            if l.startswith("ACCEPT "):
                verdict.setdefault(l[7:], None)
        for l in r.lines:
            if l.startswith("REJECT "):
                i, why = l[7:].split(" ", 1)
                verdict[i] = why
        if "Parsing or semantic analysis failed" in r.out:
            raise CheckError("cannot parse %s:\n%s" % (module, r.error()))
        self.last_tlc = r
        missing = [t for t in traces if t["id"] not in verdict]
        if missing and len(traces) == 1:
            self.lone += 1
            verdict[traces[0]["id"]] = "the recorded call has no meaning in the model: " + " ".join(r.error().split())[:300]
        elif missing:
            if r.ok:
                for t in missing:
                    verdict[t["id"]] = "no step of the model explains the recorded call"
            elif self.splits > 60 and self.lone:
                # enough culprits are known: the rest stays unjudged
                verdict.update((t["id"], "unjudged") for t in missing)
            else:
                self.splits += 1
                # an evaluation error stops TLC: split until the culprits are alone
                half = max(1, len(missing) // 2)
                for part in (missing[:half], missing[half:]):
                    if part:
                        verdict.update(self.judge(module, part, consts, tag=tag))
                return verdict
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        return verdict

    def conform(self, binp, cases, module, consts, tag="t", limit=60, shrink=True, env=None, timeout_retry=True, jobs=JOBS, tries=1):
        """Replay cases into the implementation and check the recorded calls against the trace specification."""
        left = lambda most: max(5, min(most, self.t0 + 600 - time.time())) if not self.thorough else 20 * most
        traces = run_harness(binp, cases, self.work, tag=tag, limit=limit, env=env, jobs=jobs, budget=left(240))
        self.counts["outcome skipped"] += sum(t["out"].get("status") == "skipped" for t in traces)
        traces = [t for t in traces if t["out"].get("status") != "skipped"]
        verdict = self.judge(module, traces, consts, tag=tag)
        bad = [t for t in traces if verdict.get(t["id"]) not in (None, "unjudged")]
        # a rejection counts only if the same case is rejected again, run on its own
        if bad:
            self.splits = self.lone = 0
            self.counts["rejected once"] += len(bad)
            todo, confirmed = [t["in"] for t in bad[:60]], set()
            # (what depends on the schedule may need several tries)
            for k in range(tries):
                again = run_harness(binp, [c for c in todo if c["id"] not in confirmed], self.work, tag=tag + "r", limit=2 * limit, env=env, jobs=2 if k == 0 else jobs, budget=left(120))
                again = [t for t in again if t["out"].get("status") != "skipped"]
                v2 = self.judge(module, again, consts, tag=tag + "r")
                for t in again:
                    if v2.get(t["id"]) not in (None, "unjudged"):
                        confirmed.add(t["id"])
                        self.reject(t, v2[t["id"]], module)
                if len(confirmed) == len(todo) or k > 0 and confirmed:
                    break
            self.counts["not_reproduced"] += len(todo) - len(confirmed)
        self.cov["traces_validated_against_impl"] += sum(1 for t in traces if verdict.get(t["id"]) is None)
        for t in traces:
            self.counts["outcome " + t["out"].get("status", "?")] += 1
        if traces and len(self.samples) < 3:
            s = json.dumps(traces[len(traces) // 2])
            self.samples.append(s if len(s) < 3000 else s[:3000] + "...")
        return traces

    def reject(self, trace, why, module):
        self.rejects.append((trace, why, module))

    def finish(self, level="model_checking"):
        known = known_findings(self.pid)
        viol, hit = [], {}
        for t, why, module in self.rejects:
            key = "%s %s" % (t["id"], why)
            k = next((k for k in known if k[0].search(key)), None)
            if k:
                hit[k[1]] = hit.get(k[1], 0) + 1
            else:
                viol.append((t, why, module))
        for _, what in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        for i, (t, why, module) in enumerate(viol[:10]):
            d = os.path.join(ROOT, "replays", self.pid)
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, re.sub(r"[^A-Za-z0-9_.-]", "_", t["id"]) + ".json")
            with open(p, "w") as f:
                json.dump({"property": self.pid, "rejected_because": why, "trace_spec": module, "trace": t}, f, indent=1)
            print("rejected %s: %s" % (t["id"], why))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        cov = dict(self.cov)
        cov["models"] = self.models
        cov["outcomes"] = dict(self.counts)
        cov["samples"] = self.samples
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %d recorded calls accepted, %d rejected, %d states, %.1f s" % (
            self.pid, self.tier, cov["traces_validated_against_impl"], len(viol), cov["states"], time.time() - self.t0))
        return 1 if viol else 0
