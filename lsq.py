"""The least-squares obligations of best_intersection_of_rays (C13, C14).

vext gives, for each number of rays, the value the extracted function returns:
an error, or the result in terms of sums over the rays and of the inverse of one
matrix. Here the obligations are generated from that text: the matrix and the
right-hand side are those of the normal equations (per ray, then for any number
of rays by induction), and Lean discharges them together with lean/Lsq.lean,
which concludes C13 and C14 from them."""
import json, math, os, random, re, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
TRUST = [
    "contract assumed for nalgebra's SVD::try_new(m, true, true, eps <= 1e-7, >= 100 iterations): it succeeds with orthogonal u and v and m = u diag(s) v^T (that pseudo_inverse(eps <= 1e-7) then gives the inverse, for singular values above eps, is the goal c13_pinv / c14_pinv)",
    "contracts assumed for Unit::new_normalize (division by the square root of the sum of squares), na::convert / try_convert (identity), and the fixed-size vector and matrix operations of the function (entry by entry)",
    "vext/src/eval.rs: symbolic evaluation of the extracted statements (the loops' structure is verified by Verus; sums and products are evaluated entry by entry)",
    "Lean 4 and Mathlib",
]

def parse(s):
    toks = re.findall(r"[()]|[^\s()]+", s)
    def go(i):
        if toks[i] != "(":
            return toks[i], i + 1
        f, i, a = toks[i + 1], i + 2, []
        while toks[i] != ")":
            x, i = go(i)
            a.append(x)
        return (f, a), i + 1
    return go(0)[0]

def lean(x, ray="r"):
    if isinstance(x, tuple):
        f, a = x
        a = [lean(y) for y in a]
        if f == "neg":
            return f"(-{a[0]})"
        if f == "sqrt":
            return f"(√{a[0]})"
        return f"({a[0]} {f} {a[1]})"
    if re.match(r"-?\d", x):
        return f"({x} : ℝ)"
    if x.startswith("S."):
        return f"(S t{x[2:]} l)"
    return x

def val(x, env):
    if isinstance(x, tuple):
        f, a = x
        a = [val(y, env) for y in a]
        if f == "neg":
            return -a[0]
        if f == "sqrt":
            return math.sqrt(a[0])
        return {"+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "/": lambda: a[0] / a[1]}[f]()
    if x in env:
        return env[x]
    if "/" in x:
        p, q = x.split("/")
        return int(p) / int(q)
    return float(x)

def subst(x, m):
    if isinstance(x, tuple):
        return (x[0], [subst(y, m) for y in x[1]])
    return m.get(x, x)

def tidy(x):
    if not isinstance(x, tuple):
        return x
    f, a = x[0], [tidy(y) for y in x[1]]
    if f == "*" and "0" in a:
        return "0"
    if f == "*" and "1" in a:
        return a[1 - a.index("1")]
    if f == "+" and "0" in a:
        return a[1 - a.index("0")]
    if f == "-" and a[1] == "0":
        return a[0]
    if f == "/" and a[0] == "0":
        return "0"
    if f == "neg" and a[0] == "0":
        return "0"
    return (f, a)

def sqrts(x, out):
    if isinstance(x, tuple):
        for y in x[1]:
            sqrts(y, out)
        if x[0] == "sqrt" and x not in out:
            out.append(x)

NAMES = ["xx", "xy", "xz", "xy", "yy", "yz", "xz", "yz", "zz"]

def ray_terms(env):
    d = [env["r.d" + a] for a in "xyz"]
    c = [env["r.c" + a] for a in "xyz"]
    w = sum(v * v for v in d)
    m = [[(i == j) - d[i] * d[j] / w for j in range(3)] for i in range(3)]
    return [m[i][j] for i in range(3) for j in range(3)], [sum(m[i][j] * c[j] for j in range(3)) for i in range(3)]

def solve3(m, b):
    det = lambda a: (a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]))
    D = det(m)
    out = []
    for k in range(3):
        a = list(m)
        for i in range(3):
            a[3 * i + k] = b[i]
        out.append(det(a) / D)
    return out

def inverse(m):
    cols = [solve3(m, [float(i == j) for i in range(3)]) for j in range(3)]
    return [cols[j][i] for i in range(3) for j in range(3)]

def random_ray(rng):
    return {f"r.{p}{a}": rng.uniform(-3, 3) for p in "cd" for a in "xyz"}

def witness(case):
    """A list of rays on which the extracted function's value is not the least-squares point."""
    rng = random.Random(20)
    sums = [parse(s) for s in case["sums"]]
    mat = [parse(s) for s in case["matrix"]]
    res = [parse(s) for s in case["result"]]
    for k in range(400):
        n = int(case["n"]) if not case["n"].endswith("+") else int(case["n"][:-1]) + k % 4
        rays = [random_ray(rng) for _ in range(n)]
        env = {}
        for j, s in enumerate(sums):
            env[f"S.{j}"] = sum(val(s, r) for r in rays)
        A, b = [0.0] * 9, [0.0] * 3
        for r in rays:
            m, c = ray_terms(r)
            A = [x + y for x, y in zip(A, m)]
            b = [x + y for x, y in zip(b, c)]
        want = solve3(A, b)
        try:
            if mat:
                P = inverse([val(x, env) for x in mat])
                for i in range(9):
                    env["P." + "abcdefghi"[i]] = P[i]
            got = [val(x, env) for x in res]
        except (ZeroDivisionError, ValueError):
            return {"rays": rays, "value": "undefined", "least_squares": want}
        if any(not abs(g - w) <= 1e-6 * (1 + abs(w)) for g, w in zip(got, want)):
            return {"rays": rays, "value": got, "least_squares": want}
    return None

def goal_text(case, tag):
    sums = [parse(s) for s in case["sums"]]
    mat = [parse(s) for s in case["matrix"]]
    res = [parse(s) for s in case["result"]]
    P = "abcdefghi"
    def basis(e, i):
        return tidy(subst(e, {"P." + c: ("1" if k == i else "0") for k, c in enumerate(P)}))
    rhs = [basis(res[0], b) for b in range(3)]
    # the common factor, read off numerically (Lean checks it)
    rng = random.Random(7)
    r = random_ray(rng)
    env = {f"S.{j}": val(s, r) for j, s in enumerate(sums)}
    k = val(mat[0], env) / ray_terms(r)[0][0]
    k = round(k * 720) / 720
    from fractions import Fraction
    k = Fraction(k).limit_denominator(720)
    ks = f"({k.numerator} / {k.denominator} : ℝ)" if k.denominator != 1 else f"({k.numerator} : ℝ)"
    o = [f"namespace {tag}"]
    o.append("variable (l : List Ray) (P : Mat)")
    qs = []
    for s in sums:
        sqrts(s, qs)
    for j, s in enumerate(sums):
        o.append(f"def t{j} (r : Ray) : ℝ := {lean(s)}")
    ents = [(f"m{P[i]}", mat[i], f"Ray.{NAMES[i]}") for i in range(9)] + [
        (f"c{i + 1}", rhs[i], ["Ray.bx", "Ray.by'", "Ray.bz"][i]) for i in range(3)]
    ts = ", ".join(f"t{j}" for j in range(len(sums)))
    for n, e, f in ents:
        o.append(f"def {n} : ℝ := {lean(e)}")
    o.append("def result : Pt := ⟨" + ", ".join(lean(x) for x in res) + "⟩")
    names = []
    for n, e, f in ents:
        one = lean(e).replace(" l)", " r)")
        one = re.sub(r"\(S t(\d+) r\)", r"(t\1 r)", one)
        o.append(f"theorem {n}_ray (r : Ray) (h : r.w ≠ 0) : {one} = {ks} * {f} r := by")
        o.append("  have hp := r.w_pos h")
        o.append("  have hs : √r.w * √r.w = r.w := Real.mul_self_sqrt hp.le")
        o.append("  have hn : √r.w ≠ 0 := (Real.sqrt_pos.mpr hp).ne'")
        for j, q in enumerate(qs):
            o.append(f"  have q{j} : {lean(q)} = √r.w := by first | rfl | (congr 1; done) | (congr 1; unfold Ray.w; ring)")
        o.append("  obtain ⟨s, e⟩ : ∃ s, √r.w = s := ⟨_, rfl⟩")
        o.append("  rw [e] at hs hn" + "".join(f" q{j}" for j in range(len(qs))))
        qq = "".join(f", q{j}" for j in range(len(qs)))
        o.append("  have hw : r.w = r.dx * r.dx + r.dy * r.dy + r.dz * r.dz := rfl")
        o.append(f"  simp only [{ts}, Ray.xx, Ray.xy, Ray.xz, Ray.yy, Ray.yz, Ray.zz, Ray.bx, Ray.by', Ray.bz{qq}]")
        o.append("  rw [← hs] at hw")
        o.append("  try rw [← hs]")
        o.append("  clear hp hs h e" + "".join(f" q{j}" for j in range(len(qs))))
        o.append("  first | (field_simp; done) | (field_simp; ring) | (field_simp; grind) | grind")
        o.append(f"theorem {n}_all (ok : Ok l) : {n} l = {ks} * S {f} l := by")
        o.append("  induction l with")
        o.append(f"  | nil => simp [{n}]")
        o.append("  | cons r l ih =>")
        o.append("    have a := ih ok.tail")
        o.append(f"    have b := {n}_ray r ok.head")
        o.append(f"    simp only [{n}, S_cons] at *")
        o.append("    linear_combination a + b")
        names += [f"{tag}.{n}_ray", f"{tag}.{n}_all"]
    o.append("/-- the postcondition of the code, for any number of rays -/")
    o.append("theorem returns (ok : Ok l) (inv : Inverse P ⟨" + ", ".join(f"m{c} l" for c in P) + "⟩) : Returns l (result l P) :=")
    o.append(f"  returns_of l ok {ks} P _ (c1 l) (c2 l) (c3 l) " + " ".join(f"(m{c}_all l ok)" for c in P) +
             " (c1_all l ok) (c2_all l ok) (c3_all l ok) inv _")
    o.append("    (by unfold result c1 c2 c3; first | rfl | (simp only [Pt.mk.injEq]; done) | (simp only [Pt.mk.injEq]; refine ⟨?_, ?_, ?_⟩ <;> ring))")
    o.append(f"end {tag}")
    names.append(f"{tag}.returns")
    return "\n".join(o), names

def decide(cases, workdir, timeout=400):
    """(verdict, why, obligations, verifier output, witness, generated text)"""
    t0 = time.time()
    bad = [c for c in cases if "unsupported" in c]
    for c in cases:
        if "unsupported" in c:
            continue
        n = int(c["n"].rstrip("+"))
        if n < 2 and c["value"] != "Err MinimumTwoRaysNeeded":
            return "failed", f"{c['n']} rays: the function returns {c['value']}, not the dedicated error", 0, json.dumps(c), None, ""
        if n >= 2 and c["value"] != "Ok":
            return "failed", f"{c['n']} rays: the function returns {c['value']}", 0, json.dumps(c), None, ""
    seen, texts, names = [], [], []
    for c in cases:
        if "unsupported" in c or int(c["n"].rstrip("+")) < 2:
            continue
        if c["side"]:
            return "failed", "precondition of an assumed contract: " + "; ".join(c["side"]), 0, json.dumps(c), None, ""
        key = (tuple(c["result"]), tuple(c["sums"]), tuple(c["matrix"]))
        if key in seen:
            continue
        seen.append(key)
        w = witness(c)
        if w:
            return "failed", "the value is not the least-squares point", 0, json.dumps(w), w, ""
        if not c["matrix"]:
            bad.append({"n": c["n"], "unsupported": "no matrix is inverted"})
            continue
        t, ns = goal_text(c, f"Code{len(texts)}")
        texts.append(t)
        names += ns
    if bad:
        return "undecided", f"outside the evaluated subset ({bad[0]['n']} rays): {bad[0]['unsupported']}", 0, "", None, ""
    theory = open(os.path.join(HERE, "lean", "Lsq.lean")).read()
    body = "\n".join(texts)
    for t in names:
        if t.endswith(".returns"):
            body += f"\n#print axioms {t}"
    text = theory.replace("\nend Lsq", "\nset_option linter.all false\n" + body + "\nend Lsq")
    assert body in text
    path = os.path.join(workdir, f"lsq-{os.getpid()}.lean")
    with open(path, "w") as f:
        f.write(text)
    try:
        r = subprocess.run(["lean", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except (OSError, subprocess.TimeoutExpired) as e:
        return "undecided", f"lean: {e}", 0, "", None, body
    finally:
        if os.path.exists(path):
            os.unlink(path)
    theorems = len(re.findall(r"^theorem ", body, re.M))
    errs = re.findall(r"error: .*", r.stdout)
    axioms = set(re.sub(r"\s", "", a) for l in re.findall(r"depends on axioms: \[([^\]]*)\]", r.stdout) for a in l.split(","))
    if not axioms <= {"propext", "Classical.choice", "Quot.sound"}:
        errs = errs or [f"error: axioms {axioms}"]
    if r.returncode == 0 and not errs and axioms and "sorry" not in r.stdout:
        return "proved", "", theorems, "", None, body
    # the value agrees with the least-squares point on every list tried: no claim either way
    return "undecided", "Lean does not accept the generated obligations: " + (errs[0] if errs else r.stdout[-200:]), 0, r.stdout, None, body
