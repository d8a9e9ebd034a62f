import Mathlib.Data.List.Perm.Basic
import Mathlib.Data.List.Basic
import Mathlib.Data.List.Nodup
import Mathlib.Tactic.Ring
import Mathlib.Tactic.IntervalCases
import Mathlib.Data.List.Lattice

namespace Grid
variable {α β γ : Type}

/-- a matrix of two columns and `n` rows -/
structure Mat (α : Type) where
  n : ℕ
  val : ℕ → ℕ → α
def Mat.fill (n : ℕ) (v : α) : Mat α := ⟨n, fun _ _ => v⟩
def Mat.set (m : Mat α) (i j : ℕ) (v : α) : Mat α :=
  ⟨m.n, fun a b => if a = i ∧ b = j then v else m.val a b⟩
def Mat.rows (m : Mat α) : List (α × α) := (List.range m.n).map fun i => (m.val i 0, m.val i 1)
/-- contract assumed for `abs_diff_eq` of matrices: same shape, every element close -/
def Mat.close (close : α → α → α → Prop) (a b : Mat α) (e : α) : Prop :=
  a.n = b.n ∧ ∀ i < a.n, ∀ j < 2, close (a.val i j) (b.val i j) e

/-- contract assumed for `range_step` / `step_by`: see `mem_range` and `range_nodup` -/
def range (lo hi s : ℕ) : List ℕ := (List.range ((hi - lo + s - 1) / s)).map fun k => lo + k * s

theorem mem_range {lo hi s x : ℕ} (hs : 0 < s) : x ∈ range lo hi s ↔ ∃ k, x = lo + k * s ∧ x < hi := by
  simp only [range, List.mem_map, List.mem_range]
  constructor
  · rintro ⟨k, hk, rfl⟩
    refine ⟨k, rfl, ?_⟩
    rw [Nat.lt_div_iff_mul_lt hs] at hk
    omega
  · rintro ⟨k, rfl, hx⟩
    refine ⟨k, ?_, rfl⟩
    rw [Nat.lt_div_iff_mul_lt hs]
    omega
theorem range_nodup {lo hi s : ℕ} (hs : 0 < s) : (range lo hi s).Nodup := by
  unfold range
  refine List.Nodup.map ?_ List.nodup_range
  intro a b h
  simp only [Nat.add_left_cancel_iff] at h
  exact Nat.eq_of_mul_eq_mul_right hs h

/-- the pixels the utility must examine: (col, row) -/
def grid (w h s b : ℕ) : List (ℕ × ℕ) :=
  (range b (h - b) s).flatMap fun row => (range b (w - b) s).map fun col => (col, row)

/-- exactly the pixels whose coordinates run from `b` by `s` below `w - b` and `h - b` -/
theorem mem_grid {w h s b c r : ℕ} (hs : 0 < s) :
    (c, r) ∈ grid w h s b ↔ (∃ k, c = b + k * s ∧ c < w - b) ∧ (∃ k, r = b + k * s ∧ r < h - b) := by
  simp only [grid, List.mem_flatMap, List.mem_map, Prod.mk.injEq, ← mem_range hs]
  constructor
  · rintro ⟨x, hx, y, hy, rfl, rfl⟩; exact ⟨hy, hx⟩
  · rintro ⟨hy, hx⟩; exact ⟨_, hx, _, hy, rfl, rfl⟩
/-- each of them once -/
theorem grid_nodup {w h s b : ℕ} (hs : 0 < s) : (grid w h s b).Nodup := by
  have : grid w h s b = ((range b (h - b) s).product (range b (w - b) s)).map fun p => (p.2, p.1) := by
    simp [grid, List.product, List.map_flatMap, Function.comp_def]
  rw [this]
  refine List.Nodup.map ?_ (List.Nodup.product (range_nodup hs) (range_nodup hs))
  rintro ⟨a, b⟩ ⟨c, d⟩ h
  simp at h ⊢
  exact ⟨h.2, h.1⟩

def pixels (conv : ℕ → α) (w h s b : ℕ) : List (α × α) := (grid w h s b).map fun p => (conv p.1, conv p.2)

theorem and_true_iff {p : Prop} : (p ∧ True) ↔ p := ⟨fun h => h.1, fun h => ⟨h, trivial⟩⟩
theorem close_is {close : α → α → α → Prop} (x y : Mat α) (e : α) (h : y.n = x.n) :
    Mat.close close x y e ↔ ∀ i < x.n, ∀ j < 2, close (x.val i j) (y.val i j) e :=
  ⟨fun a => a.2, fun a => ⟨h.symm, a⟩⟩
theorem close_comm {close : α → α → α → Prop} (comm : ∀ a b e, close a b e ↔ close b a e) (x y : Mat α) (e : α) (h : x.n = y.n) :
    Mat.close close x y e ↔ ∀ i < y.n, ∀ j < 2, close (y.val i j) (x.val i j) e := by
  constructor
  · rintro ⟨h, a⟩
    exact fun i hi j hj => (comm _ _ _).mp (a i (h ▸ hi) j hj)
  · intro a
    exact ⟨h, fun i hi j hj => (comm _ _ _).mp (a i (h ▸ hi) j hj)⟩
theorem two {p : ℕ → Prop} : (∀ j < 2, p j) ↔ p 0 ∧ p 1 := by
  constructor
  · intro h; exact ⟨h 0 (by decide), h 1 (by decide)⟩
  · rintro ⟨h0, h1⟩ j hj
    interval_cases j <;> assumption

/-! assertions element by element -/
section Each
variable {close : α → α → α → Prop} (x y : Mat α) (e : α)
theorem each : ((∀ i ∈ List.range x.n, (close (x.val i 0) (y.val i 0) e) ∧ (close (x.val i 1) (y.val i 1) e) ∧ True) ∧ True) ↔ ∀ i < x.n, (close (x.val i 0) (y.val i 0) e ∧ close (x.val i 1) (y.val i 1) e) := by
  simp only [List.mem_range, and_true]
theorem each_swap : ((∀ i ∈ List.range x.n, (close (x.val i 1) (y.val i 1) e) ∧ (close (x.val i 0) (y.val i 0) e) ∧ True) ∧ True) ↔ ∀ i < x.n, (close (x.val i 0) (y.val i 0) e ∧ close (x.val i 1) (y.val i 1) e) := by
  simp only [List.mem_range, and_true]; exact forall₂_congr fun _ _ => and_comm
theorem each' (h : y.n = x.n) : ((∀ i ∈ List.range y.n, (close (x.val i 0) (y.val i 0) e) ∧ (close (x.val i 1) (y.val i 1) e) ∧ True) ∧ True) ↔ ∀ i < x.n, (close (x.val i 0) (y.val i 0) e ∧ close (x.val i 1) (y.val i 1) e) := by
  simp only [List.mem_range, and_true, h]
theorem each_shape (h : y.n = x.n) : ((x.n = y.n) ∧ (∀ i ∈ List.range x.n, (close (x.val i 0) (y.val i 0) e) ∧ (close (x.val i 1) (y.val i 1) e) ∧ True) ∧ True) ↔ ∀ i < x.n, (close (x.val i 0) (y.val i 0) e ∧ close (x.val i 1) (y.val i 1) e) := by
  simp only [List.mem_range, and_true, h, true_and]
theorem each_shape' (h : y.n = x.n) : ((y.n = x.n) ∧ (∀ i ∈ List.range x.n, (close (x.val i 0) (y.val i 0) e) ∧ (close (x.val i 1) (y.val i 1) e) ∧ True) ∧ True) ↔ ∀ i < x.n, (close (x.val i 0) (y.val i 0) e ∧ close (x.val i 1) (y.val i 1) e) := by
  simp only [List.mem_range, and_true, h, true_and]
variable (comm : ∀ a b e, close a b e ↔ close b a e)
include comm
theorem each_comm : ((∀ i ∈ List.range x.n, (close (y.val i 0) (x.val i 0) e) ∧ (close (y.val i 1) (x.val i 1) e) ∧ True) ∧ True) ↔ ∀ i < x.n, (close (x.val i 0) (y.val i 0) e ∧ close (x.val i 1) (y.val i 1) e) := by
  simp only [List.mem_range, and_true, comm (y.val _ _)]
theorem each_comm' (h : y.n = x.n) : ((∀ i ∈ List.range y.n, (close (y.val i 0) (x.val i 0) e) ∧ (close (y.val i 1) (x.val i 1) e) ∧ True) ∧ True) ↔ ∀ i < x.n, (close (x.val i 0) (y.val i 0) e ∧ close (x.val i 1) (y.val i 1) e) := by
  simp only [List.mem_range, and_true, comm (y.val _ _), h]
theorem each_comm_shape (h : y.n = x.n) : ((x.n = y.n) ∧ (∀ i ∈ List.range x.n, (close (y.val i 0) (x.val i 0) e) ∧ (close (y.val i 1) (x.val i 1) e) ∧ True) ∧ True) ↔ ∀ i < x.n, (close (x.val i 0) (y.val i 0) e ∧ close (x.val i 1) (y.val i 1) e) := by
  simp only [List.mem_range, and_true, comm (y.val _ _), h, true_and]
theorem each_comm_shape' (h : y.n = x.n) : ((y.n = x.n) ∧ (∀ i ∈ List.range x.n, (close (y.val i 0) (x.val i 0) e) ∧ (close (y.val i 1) (x.val i 1) e) ∧ True) ∧ True) ↔ ∀ i < x.n, (close (x.val i 0) (y.val i 0) e ∧ close (x.val i 1) (y.val i 1) e) := by
  simp only [List.mem_range, and_true, comm (y.val _ _), h, true_and]
end Each

/-! loops -/
theorem fold_push (f : β → γ) (l : List β) (a : List γ) :
    l.foldl (fun acc x => acc ++ [f x]) a = a ++ l.map f := by
  induction l generalizing a <;> simp [*]
theorem fold_append (f : β → List γ) (l : List β) (a : List γ) :
    l.foldl (fun acc x => acc ++ f x) a = a ++ l.flatMap f := by
  induction l generalizing a <;> simp [*]
theorem fold_push' (f : β → γ) (l : List β) (a : List γ) :
    l.foldl (fun acc x => (acc ++ [f x])) a = a ++ l.map f := fold_push f l a
theorem fold_append' (f : β → List γ) (l : List β) (a : List γ) :
    l.foldl (fun acc x => f x ++ acc) a = (l.reverse.flatMap f) ++ a := by
  induction l generalizing a <;> simp [*]
theorem flatMap_single (f : β → γ) (l : List β) : (l.flatMap fun x => [f x]) = l.map f := by
  induction l <;> simp [*]
theorem fold_fill (f g : ℕ → α) (m : Mat α) (n : ℕ) :
    (List.range n).foldl (fun m i => (m.set i 0 (f i)).set i 1 (g i)) m
      = ⟨m.n, fun a b => if a < n then (if b = 0 then f a else if b = 1 then g a else m.val a b) else m.val a b⟩ := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [List.range_succ, List.foldl_append, ih]
    simp only [List.foldl_cons, List.foldl_nil, Mat.set, Mat.mk.injEq, true_and]
    funext a b
    rcases Nat.lt_trichotomy a n with h | h | h
    · have h' : a < n + 1 := by omega
      have h'' : a ≠ n := by omega
      simp [h, h', h'']
    · subst h
      rcases b with _ | _ | b <;> simp
    · have h1 : ¬ a < n := by omega
      have h2 : ¬ a < n + 1 := by omega
      have h3 : a ≠ n := by omega
      simp [h1, h2, h3]
theorem fold_fill' (f g : ℕ → α) (m : Mat α) (n : ℕ) :
    (List.range n).foldl (fun m i => (m.set i 1 (g i)).set i 0 (f i)) m
      = ⟨m.n, fun a b => if a < n then (if b = 0 then f a else if b = 1 then g a else m.val a b) else m.val a b⟩ := by
  rw [← fold_fill]
  congr 1
  funext m i
  simp only [Mat.set, Mat.mk.injEq, true_and]
  funext a b
  by_cases h : a = i <;> by_cases h0 : b = 0 <;> by_cases h1 : b = 1 <;> simp_all
theorem fold_col (f : ℕ → α) (m : Mat α) (n j : ℕ) :
    (List.range n).foldl (fun m i => m.set i j (f i)) m
      = ⟨m.n, fun a b => if a < n ∧ b = j then f a else m.val a b⟩ := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [List.range_succ, List.foldl_append, ih]
    simp only [List.foldl_cons, List.foldl_nil, Mat.set, Mat.mk.injEq, true_and]
    funext a b
    by_cases hb : b = j
    · rcases Nat.lt_trichotomy a n with h | h | h
      · have h' : a < n + 1 := by omega
        have h'' : a ≠ n := by omega
        simp [h, h', h'', hb]
      · subst h; simp [hb]
      · have h1 : ¬ a < n := by omega
        have h2 : ¬ a < n + 1 := by omega
        have h3 : a ≠ n := by omega
        simp [h1, h2, h3, hb]
    · simp [hb]
theorem rows_mk (n : ℕ) (f : ℕ → ℕ → α) : Mat.rows ⟨n, f⟩ = (List.range n).map fun i => (f i 0, f i 1) := rfl
theorem map_lt (n : ℕ) (f g f' g' : ℕ → α) :
    ((List.range n).map fun i => (if i < n then f i else f' i, if i < n then g i else g' i))
      = (List.range n).map fun i => (f i, g i) := by
  apply List.map_congr_left
  intro i hi
  simp [List.mem_range.mp hi]
theorem map_get [Inhabited α] (l : List (α × α)) :
    ((List.range l.length).map fun i => ((l[i]!).1, (l[i]!).2)) = l := by
  apply List.ext_getElem <;> simp +contextual
theorem map_get2 [Inhabited β] (f g : β → α) (l : List (β × β)) :
    ((List.range l.length).map fun i => (f (l[i]!).1, g (l[i]!).2)) = l.map fun p => (f p.1, g p.2) := by
  apply List.ext_getElem <;> simp +contextual
theorem swap (f : β → γ → α) (l : List β) (k : List γ) :
    (l.flatMap fun a => k.map fun b => f a b).Perm (k.flatMap fun b => l.map fun a => f a b) := by
  induction l with
  | nil => simp
  | cons a l ih =>
    simp only [List.flatMap_cons, List.map_cons]
    refine (List.Perm.append_left _ ih).trans ?_
    clear ih
    induction k with
    | nil => simp
    | cons b k ih =>
      simp only [List.map_cons, List.flatMap_cons, List.cons_append]
      refine List.Perm.cons _ ?_
      refine List.Perm.trans ?_ (List.Perm.append_left _ ih)
      rw [← List.append_assoc, ← List.append_assoc]
      exact List.Perm.append_right _ List.perm_append_comm

section Contract
variable (conv : ℕ → α) (close : α → α → α → Prop) (P2C : Mat α → β) (POR : β → γ) (C2P : γ → Mat α)
/-- the contract of the utility: the model is fed the grid, each pixel once, and
the utility completes exactly when every pixel comes back close to the one fed -/
def Contract (fed : Mat α) (completes : Prop) (w h s b : ℕ) (eps : α) : Prop :=
  fed.rows.Perm (pixels conv w h s b) ∧
  ((C2P (POR (P2C fed))).n = fed.n →
    (completes ↔ ∀ i < fed.n, ∀ j < 2, close (fed.val i j) ((C2P (POR (P2C fed))).val i j) eps))
end Contract

/-- C18: with a model of one row out per row in, the utility completes exactly
when no pixel of the grid comes back wrong -/
theorem detects (conv : ℕ → α) (close : α → α → α → Prop) (P2C : Mat α → β) (POR : β → γ) (C2P : γ → Mat α)
    (fed : Mat α) (completes : Prop) (w h s b : ℕ) (eps : α)
    (c : Contract conv close P2C POR C2P fed completes w h s b eps) (hs : 0 < s)
    (rowwise : (C2P (POR (P2C fed))).n = fed.n) :
    (∀ col row, (∃ k, col = b + k * s ∧ col < w - b) → (∃ k, row = b + k * s ∧ row < h - b) →
        ∃ i < fed.n, fed.val i 0 = conv col ∧ fed.val i 1 = conv row) ∧
    (∀ i < fed.n, ∃ col row, (∃ k, col = b + k * s ∧ col < w - b) ∧ (∃ k, row = b + k * s ∧ row < h - b) ∧
        fed.val i 0 = conv col ∧ fed.val i 1 = conv row) ∧
    fed.n = (grid w h s b).length ∧
    (¬ completes ↔ ∃ i < fed.n, ∃ j < 2, ¬ close (fed.val i j) ((C2P (POR (P2C fed))).val i j) eps) := by
  obtain ⟨p, q⟩ := c
  have mem : ∀ x, x ∈ fed.rows ↔ x ∈ pixels conv w h s b := fun x => p.mem_iff
  refine ⟨?_, ?_, ?_, ?_⟩
  · intro col row hc hr
    have : (conv col, conv row) ∈ pixels conv w h s b :=
      List.mem_map.mpr ⟨(col, row), (mem_grid hs).mpr ⟨hc, hr⟩, rfl⟩
    rw [← mem] at this
    simp only [Mat.rows, List.mem_map, List.mem_range, Prod.mk.injEq] at this
    exact this
  · intro i hi
    have : (fed.val i 0, fed.val i 1) ∈ fed.rows := List.mem_map.mpr ⟨i, List.mem_range.mpr hi, rfl⟩
    rw [mem] at this
    simp only [pixels, List.mem_map, Prod.exists, Prod.mk.injEq] at this
    obtain ⟨c, r, hg, h0, h1⟩ := this
    rw [mem_grid hs] at hg
    exact ⟨c, r, hg.1, hg.2, h0.symm, h1.symm⟩
  · have := p.length_eq
    simpa [Mat.rows, pixels] using this
  · rw [q rowwise]
    simp only [not_forall, exists_prop]
end Grid
