"""V layer: extract the row-batch functions of /repo/src with vext and let Verus
decide the row contract of each, for any number of rows."""
import fcntl, glob, json, os, re, shutil, subprocess, time

import grid
import lsq
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
TARGET = os.path.join(BUILD, "vtarget")
VEXT = os.path.join(TARGET, "debug", "vext")
OUT = os.path.join(BUILD, "v")
SRC = "/repo/src"

TRUST = [
    "vext (extraction of the functions' statements into Verus; what it drops is listed in DESIGN.md)",
    "V layer: contracts assumed for the nalgebra containers (zeros/index/set/row/copy of a matrix read as rows; a scalar or fixed-size operation is a function of its arguments)",
    "Verus, its z3, and termination/overflow rules",
]
VISIT_TRUST = [
    "vext/src/visit.rs: the visitors' statements as they are, but for the rewritings listed there",
    "cargo/rustc's expansion of serde's derives (-Zunpretty=expanded); Serialize's keys and members are read from it; missing_field is an error for every field type of the crate",
    "contracts assumed for serde's MapAccess / SeqAccess (entries in input order; an unknown key or a value that does not parse is an error) and the derived field identifier; deserialize_struct calls the visitor with the input's entries",
]
# Verus reports of a failed obligation (anything else it prints is not a verdict).
FAILED = re.compile(r"error: (postcondition not satisfied|precondition not satisfied|invariant not satisfied.*|assertion failed|"
                    r"possible arithmetic (?:under|over)flow.*|decreases not satisfied.*|loop invariant not preserved|"
                    r"possible (?:division|bit shift).*)")

def build():
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    with open(os.path.join(BUILD, "vlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(HERE, "vext"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout

XTARGET = os.path.join(BUILD, "xtarget")

def expand():
    """the crate's source with its derives expanded: (path, problem)"""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=XTARGET, CARGO_NET_OFFLINE="true", RUSTC_BOOTSTRAP="1")
    out = os.path.join(BUILD, f"expanded-{os.getpid()}.rs")
    with open(os.path.join(BUILD, "xlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for d in glob.glob(os.path.join(XTARGET, "debug", ".fingerprint", "cam-geom-*")):
            shutil.rmtree(d, ignore_errors=True)
        try:
            r = subprocess.run(["cargo", "rustc", "--offline", "-q", "-p", "cam-geom", "--lib", "--", "-Zunpretty=expanded"],
                               cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400)
        except (OSError, subprocess.TimeoutExpired) as e:
            return None, f"expansion: {e}"
    if r.returncode != 0 or not r.stdout:
        return None, "expansion: " + r.stderr[-300:]
    with open(out, "w") as f:
        f.write(r.stdout)
    return out, None

def verus(path, timeout=120):
    try:
        r = subprocess.run(["verus", path, "--no-report-long-running"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except (OSError, subprocess.TimeoutExpired) as e:
        return "undecided", f"verus: {e}", 0
    m = re.search(r"verification results:: (\d+) verified, (\d+) errors", r.stdout)
    if m and m.group(2) == "0" and r.returncode == 0:
        return "proved", "", int(m.group(1))
    f = FAILED.search(r.stdout)
    if m and f and "Resource limit" not in r.stdout:
        return "failed", r.stdout, int(m.group(1))
    return "undecided", r.stdout, 0

def range_step(out):
    """num_iter::range_step at usize under contract, from the source the build uses"""
    t = time.time()
    rec = {"id": "num_iter__range_step", "file": "num-iter", "line": 0, "owner": "num_iter", "fn": "range_step", "kind": "dependency",
           "contract": "at usize, step >= 1: start, start + step, ... below stop, each once, in order; it ends, and does not overflow", "n": 0, "out": "", "why": ""}
    try:
        m = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=os.path.join(HERE, "harness"),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        p = [x["manifest_path"] for x in json.loads(m.stdout)["packages"] if x["name"] == "num-iter"]
        r = subprocess.run([VEXT, "--step", os.path.join(os.path.dirname(p[0]), "src", "lib.rs")], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=30)
        if r.returncode:
            raise ValueError(r.stderr.strip())
        f = os.path.join(out, "range_step.rs")
        open(f, "w").write(r.stdout)
        v, o, n = verus(f)
        rec.update(verdict="proved" if v == "proved" else "undecided", n=n, why=o[-300:])
    except (ValueError, LookupError, OSError, subprocess.TimeoutExpired) as e:
        rec.update(verdict="undecided", why=str(e))
    rec["secs"] = round(time.time() - t, 2)
    return rec

def run(only=None, src=SRC, out=OUT, derived=False):
    """[{id, file, line, owner, fn, verdict, why, obligations, secs}], problem"""
    ok, log = build()
    if not ok:
        return [], "vext does not build: " + log[-500:]
    d = os.path.join(out, str(os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    try:
        exp, eproblem = expand() if derived else (None, None)
        r = subprocess.run([VEXT, src, d] + ([exp] if exp else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        j = json.loads(r.stdout)
        if exp:
            os.remove(exp)
    except (ValueError, OSError, subprocess.TimeoutExpired) as e:
        return [], f"vext: {e}"
    def one(f):
        t = time.time()
        if f["status"] != "ok":
            f.update(verdict="undecided", out="", n=0)
            f["why"] = "outside the extracted subset: " + f["why"]
        else:
            v, o, n = verus(os.path.join(d, f["id"] + ".rs"))
            m = FAILED.search(o)
            f.update(verdict=v, out=o, n=n, why=(m.group(1) if m else o[-300:]) if v != "proved" else "")
            if f["kind"] == "visitor":
                f["contract"] = ("accepts exactly the inputs with every field once, no unknown key and values that parse; any number and order of entries" if f["fn"] == "visit_map" and "derived" not in f["file"]
                                 else "accepts the inputs with every field once and values that parse, and none with a field missing, repeated or not parsing; any number and order of entries" if f["fn"] == "visit_map"
                                 else "accepts exactly the inputs with an element for every field; any length")
                if v == "failed" and "postcondition not satisfied" not in o:
                    # the generated loop invariant does not fit this text: no claim
                    f.update(verdict="undecided")
            if f["kind"] == "all rows":
                f["contract"] = "the result is this function of the sums over all rays, any number of rays"
        f["secs"] = round(time.time() - t, 2)
        return f
    fs = [f for f in j["functions"] if only is None or only(f)]
    if j["impure"]:
        for f in fs:
            f.update(verdict="undecided", out="", n=0, secs=0, why="global state or unsafe code in the crate: " + "; ".join(j["impure"])[:200])
    else:
        with ThreadPoolExecutor(8) as ex:
            fs = list(ex.map(one, fs))
    # least-squares obligations, from the value of the function of all rays
    extra = []
    for f in fs:
        if f["kind"] == "all rows" and f["fn"] == "best_intersection_of_rays" and f["verdict"] != "undecided":
            t = time.time()
            v, why, n, o, wit, text = lsq.decide(f["cases"], os.path.dirname(d))
            if v == "proved" and f["verdict"] != "proved":
                v, why = "undecided", "the sums are not established"
            extra.append(dict(f, id=f["id"] + "_lsq", verdict=v, why=why, n=n, out=o, witness=wit, generated=text, back_end="lean",
                              contract="normal equations of the least-squares problem, C13 and C14 as theorems, any number of rays",
                              secs=round(time.time() - t, 2)))
    fs += extra
    # the round-trip utility
    u = {"id": "roundtrip_utility", "file": j["utility"].get("file", "src"), "line": j["utility"].get("line", 0), "owner": "", "fn": "roundtrip_intrinsics", "kind": "utility",
         "back_end": "lean", "contract": "the model is fed exactly the grid and the utility completes exactly when every pixel comes back close, every grid"}
    if only is not None and only(u):
        if j["impure"]:
            v, why, n, o, text, secs = "undecided", "global state or unsafe code in the crate: " + "; ".join(j["impure"])[:200], 0, "", "", 0
        else:
            v, why, n, o, text, secs = grid.decide(j["utility"], os.path.dirname(d))
        fs.append(dict(u, verdict=v, why=why, n=n, out=o, generated=text, secs=round(secs, 2)))
        if subprocess.run(["grep", "-rq", "range_step", src]).returncode == 0:
            fs.append(range_step(d))
    shutil.rmtree(d, ignore_errors=True)
    return fs, eproblem
