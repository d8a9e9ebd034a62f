"""The round-trip utility (C18): vext gives the extracted statements of
roundtrip_intrinsics as Lean terms (loops as folds, the model opaque); Lean
proves their contract, for every grid, with lean/Grid.lean."""
import json, os, re, subprocess, time

HERE = os.path.dirname(os.path.abspath(__file__))
TRUST = [
    "vext/src/grid.rs: translation of the utility's statements to Lean terms (loops as folds over their ranges; usize arithmetic as natural numbers, each subtraction outside the loops proved not to underflow from border <= width, height; a counter is taken not to overflow)",
    "contracts assumed for step_by, where it is used (lo + k*step below hi; that of num_iter::range_step is proved), Vec, element access of OMatrix, num-to-scalar conversion as a function of the number, convert between equal scalars as identity",
    "contract assumed for assert_abs_diff_eq on matrices: panics unless the shapes agree and every element is close; closeness of scalars is an uninterpreted relation, symmetric in the two values",
    "Lean 4 and Mathlib",
]

PROOF = '''
variable {α β γ : Type} [Inhabited α]
def fed (conv : ℕ → α) (lit : String → α) (w h s b : ℕ) (eps : α) : Mat α := %(fed)s
def completes (conv : ℕ → α) (lit : String → α) (close : α → α → α → Prop) (P2C : Mat α → β) (POR : β → γ) (C2P : γ → Mat α) (w h s b : ℕ) (eps : α) : Prop := %(completes)s
variable (conv : ℕ → α) (lit : String → α) (close : α → α → α → Prop) (P2C : Mat α → β) (POR : β → γ) (C2P : γ → Mat α)
/-- no subtraction underflows -/
theorem no_underflow (w h s b : ℕ) (hw : b ≤ w) (hh : b ≤ h) : %(under)s := by
  try dsimp only
  first | trivial | exact ⟨hw, hh⟩ | exact ⟨hh, hw⟩ | (simp; done) | (simp; omega) | (constructor <;> omega) | (refine ⟨?_, ?_, ?_, ?_⟩ <;> omega)
/-- the rows fed to the model -/
theorem fed_rows (w h s b : ℕ) (eps : α) (hw : b ≤ w) (hh : b ≤ h) : (fed conv lit w h s b eps).rows.Perm (pixels conv w h s b) := by
  have g : pixels conv w h s b = (range b (h - b) s).flatMap fun row => (range b (w - b) s).map fun col => (conv col, conv row) := by
    simp [pixels, grid, List.map_flatMap, Function.comp_def]
  rw [g]
  simp only [fed, fold_push, fold_append, fold_push', fold_append', flatMap_single, fold_fill, fold_fill', fold_col, Mat.fill, rows_mk, map_lt, map_get, map_get2,
    List.nil_append, List.append_nil, List.map_map, List.map_flatMap, Function.comp_def, List.flatMap_assoc, List.flatMap_map, if_true, List.map_id',
    ite_true, OfNat.ofNat_ne_zero, OfNat.one_ne_ofNat, one_ne_zero, zero_ne_one, and_true, and_false, if_false, reduceIte]
  first | exact List.Perm.refl _ | exact swap _ _ _
/-- when it completes -/
theorem completes_iff (comm : ∀ a b e, close a b e ↔ close b a e) (w h s b : ℕ) (eps : α)
    (row : (C2P (POR (P2C (fed conv lit w h s b eps)))).n = (fed conv lit w h s b eps).n) :
    completes conv lit close P2C POR C2P w h s b eps ↔
      ∀ i < (fed conv lit w h s b eps).n, ∀ j < 2,
          close ((fed conv lit w h s b eps).val i j) ((C2P (POR (P2C (fed conv lit w h s b eps)))).val i j) eps := by
  first
  | exact and_true_iff.trans (close_is _ _ _ row)
  | exact and_true_iff.trans (close_comm comm _ _ _ row)
  | (simp only [two]
     first
     | exact each _ _ _
     | exact each_shape _ _ _ row
     | exact each_shape' _ _ _ row
     | exact each_comm comm _ _ _
     | exact each_comm' comm _ _ _ row
     | exact each_comm_shape comm _ _ _ row
     | exact each_comm_shape' comm _ _ _ row
     | exact each' _ _ _ row
     | exact each_swap _ _ _)
theorem contract (comm : ∀ a b e, close a b e ↔ close b a e) (w h s b : ℕ) (eps : α) (hw : b ≤ w) (hh : b ≤ h) :
    Contract conv close P2C POR C2P (fed conv lit w h s b eps) (completes conv lit close P2C POR C2P w h s b eps) w h s b eps :=
  ⟨fed_rows conv lit w h s b eps hw hh, completes_iff conv lit close P2C POR C2P comm w h s b eps⟩
#print axioms contract
#print axioms detects
#print axioms no_underflow
'''

EVAL = '''
instance : Inhabited Int := ⟨0⟩
def fed (conv : ℕ → Int) (lit : String → Int) (w h s b : ℕ) (eps : Int) : Mat Int := %(fed)s
abbrev close (a b e : Int) : Prop := (a - b).natAbs ≤ e.natAbs
abbrev completes (conv : ℕ → Int) (lit : String → Int) (C2P : Mat Int → Mat Int) (w h s b : ℕ) (eps : Int) : Prop :=
  let P2C : Mat Int → Mat Int := id; let POR : Mat Int → Mat Int := id; %(completes)s
def bad (m : Mat Int) (i j : ℕ) (d : Int) : Mat Int := ⟨m.n, fun a b => if a = i ∧ b = j then m.val a b + d else m.val a b⟩
def le (a b : Int × Int) : Bool := a.1 < b.1 ∨ (a.1 = b.1 ∧ a.2 ≤ b.2)
def conv (n : ℕ) : Int := 10 * n
def lit (s : String) : Int := -1
def sizes : List (ℕ × ℕ × ℕ × ℕ) := [%(sizes)s]
def wrongGrid := sizes.find? fun (w, h, s, b) => ((fed conv lit w h s b 3).rows.mergeSort le) != ((pixels conv w h s b).mergeSort le)
#eval s!"GRID {wrongGrid}"
def small : List (ℕ × ℕ × ℕ × ℕ) := [(1, 1, 1, 0), (3, 2, 1, 0), (7, 6, 2, 1)]
def wrongVerdict : Option ((ℕ × ℕ × ℕ × ℕ) × (ℕ × ℕ × Int)) := small.findSome? fun (w, h, s, b) =>
  let n := (fed conv lit w h s b 3).n
  ((List.range n).flatMap fun i => [0, 1].flatMap fun j => [(i, j, (0 : Int)), (i, j, 2), (i, j, -2), (i, j, 4), (i, j, -4), (i, j, 9), (i, j, -9), (i, j, 10000)]).findSome? fun (i, j, d) =>
    if decide (completes conv lit (fun m => bad m i j d) w h s b 3) == decide (d.natAbs ≤ 3) then none else some ((w, h, s, b), (i, j, d))
#eval s!"VERDICT {wrongVerdict}"
'''

def evaluate(u, workdir, timeout):
    """Evaluate the extracted terms on small grids: a difference from the contract is a failure."""
    sizes = [(w, h, s, b) for w in range(0, 7) for h in range(0, 6) for s in (1, 2, 3) for b in (0, 1, 2) if b <= w and b <= h]
    for k in sorted({int(x) for x in re.findall(r"\((\d+) : ℕ\)", u["fed"]) if 4 < int(x) < 600}):
        sizes += [(k + d, 2, 1, 0) for d in (-1, 0, 1, 2)] + [(2, k + d, 1, 0) for d in (-1, 0, 1, 2)] + [(k, 4, k + 1, 1)]
    p = dict(u, sizes=", ".join(f"({w}, {h}, {s}, {b})" for w, h, s, b in sizes))
    for k in ("fed", "completes"):
        p[k] = p[k].replace("α", "Int")
    body = EVAL % p
    theory = open(os.path.join(HERE, "lean", "Grid.lean")).read()
    i = theory.rindex("end Grid")
    path = os.path.join(workdir, f"grideval-{os.getpid()}.lean")
    with open(path, "w") as f:
        f.write(theory[:i] + "namespace Run\n" + body + "\nend Run\n" + theory[i:])
    try:
        r = subprocess.run(["lean", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except (OSError, subprocess.TimeoutExpired):
        return None, None
    finally:
        if os.path.exists(path) and not os.environ.get("VERIF_KEEP"):
            os.unlink(path)
    g = re.search(r"GRID \(some (.*)\)", r.stdout)
    v = re.search(r"VERDICT \(some (.*)\)", r.stdout)
    if g:
        return "the model is not fed the grid", {"width, height, step, border": g.group(1)}
    if v:
        return "the utility completes when it must not, or does not when it must", {"(width, height, step, border), (row, column, change; tolerance 3)": v.group(1)}
    if os.environ.get("VERIF_KEEP"):
        print(r.stdout[:3000])
    return None, None

def decide(u, workdir, timeout=300):
    """(verdict, why, obligations, verifier output, generated text, secs)"""
    t = time.time()
    if u is None or "unsupported" in u:
        return "undecided", "outside the extracted subset: " + (u or {}).get("unsupported", "?"), 0, "", "", 0.0
    body = "\nnamespace Code" + PROOF % u + "end Code\n"
    theory = open(os.path.join(HERE, "lean", "Grid.lean")).read()
    i = theory.rindex("end Grid")
    text = theory[:i] + "set_option linter.all false\n" + body + theory[i:]
    os.makedirs(workdir, exist_ok=True)
    path = os.path.join(workdir, f"grid-{os.getpid()}.lean")
    with open(path, "w") as f:
        f.write(text)
    try:
        r = subprocess.run(["lean", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except (OSError, subprocess.TimeoutExpired) as e:
        return "undecided", f"lean: {e}", 0, "", body, time.time() - t
    finally:
        if os.path.exists(path) and not os.environ.get("VERIF_KEEP"):
            os.unlink(path)
    theorems = len(re.findall(r"^theorem ", body, re.M))
    errs = re.findall(r"error: .*", r.stdout)
    lists = re.findall(r"depends on axioms: \[([^\]]*)\]", r.stdout)
    axioms = set(re.sub(r"\s", "", a) for l in lists for a in l.split(","))
    reported = len(lists) + r.stdout.count("does not depend on any axioms")
    if r.returncode == 0 and not errs and reported == 3 and axioms <= {"propext", "Classical.choice", "Quot.sound"} and "sorry" not in r.stdout:
        return "proved", "", theorems, "", body, time.time() - t
    why, wit = evaluate(u, workdir, timeout)
    if why:
        return "failed", why, 0, json.dumps(wit) + "\n" + r.stdout, body, time.time() - t
    return "undecided", "Lean does not accept the generated obligations: " + (errs[0] if errs else r.stdout[-200:]), 0, r.stdout, body, time.time() - t
