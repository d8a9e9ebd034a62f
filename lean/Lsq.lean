import Mathlib.Tactic
import Mathlib.Analysis.Real.Sqrt

noncomputable section

namespace Lsq

/-- a line: centre `c`, direction `d` (not normalised) -/
structure Ray where
  (cx cy cz dx dy dz : ℝ)

structure Pt where
  (x y z : ℝ)

namespace Ray
variable (r : Ray)
def w : ℝ := r.dx * r.dx + r.dy * r.dy + r.dz * r.dz
def xx : ℝ := 1 - r.dx * r.dx / r.w
def yy : ℝ := 1 - r.dy * r.dy / r.w
def zz : ℝ := 1 - r.dz * r.dz / r.w
def xy : ℝ := -(r.dx * r.dy / r.w)
def xz : ℝ := -(r.dx * r.dz / r.w)
def yz : ℝ := -(r.dy * r.dz / r.w)
/-- squared perpendicular distance of a point to the line -/
def dist2 (p : Pt) : ℝ :=
  (p.x - r.cx)^2 + (p.y - r.cy)^2 + (p.z - r.cz)^2
    - (r.dx * (p.x - r.cx) + r.dy * (p.y - r.cy) + r.dz * (p.z - r.cz))^2 / r.w
def quad (x y z : ℝ) : ℝ :=
  x * (r.xx * x + r.xy * y + r.xz * z) + y * (r.xy * x + r.yy * y + r.yz * z) + z * (r.xz * x + r.yz * y + r.zz * z)
def bx : ℝ := r.xx * r.cx + r.xy * r.cy + r.xz * r.cz
def by' : ℝ := r.xy * r.cx + r.yy * r.cy + r.yz * r.cz
def bz : ℝ := r.xz * r.cx + r.yz * r.cy + r.zz * r.cz

theorem w_pos (h : r.w ≠ 0) : 0 < r.w := by
  have : 0 ≤ r.w := by unfold w; nlinarith [mul_self_nonneg r.dx, mul_self_nonneg r.dy, mul_self_nonneg r.dz]
  exact lt_of_le_of_ne this (Ne.symm h)

/-- `dist2` is the squared distance to some point of the line, and no point of
the line is nearer -/
theorem dist2_foot (h : r.w ≠ 0) (p : Pt) : ∃ t : ℝ,
    r.dist2 p = (p.x - (r.cx + t * r.dx))^2 + (p.y - (r.cy + t * r.dy))^2 + (p.z - (r.cz + t * r.dz))^2 := by
  refine ⟨(r.dx * (p.x - r.cx) + r.dy * (p.y - r.cy) + r.dz * (p.z - r.cz)) / r.w, ?_⟩
  unfold dist2
  generalize hk : (r.dx * (p.x - r.cx) + r.dy * (p.y - r.cy) + r.dz * (p.z - r.cz)) = k
  have hw : r.dx * r.dx + r.dy * r.dy + r.dz * r.dz = r.w := rfl
  field_simp
  rw [← hk] ; unfold w at *; ring
theorem dist2_le (h : r.w ≠ 0) (p : Pt) (t : ℝ) :
    r.dist2 p ≤ (p.x - (r.cx + t * r.dx))^2 + (p.y - (r.cy + t * r.dy))^2 + (p.z - (r.cz + t * r.dz))^2 := by
  have hp := r.w_pos h
  have e : (p.x - (r.cx + t * r.dx))^2 + (p.y - (r.cy + t * r.dy))^2 + (p.z - (r.cz + t * r.dz))^2 - r.dist2 p
      = (r.w * t - (r.dx * (p.x - r.cx) + r.dy * (p.y - r.cy) + r.dz * (p.z - r.cz)))^2 / r.w := by
    unfold dist2; field_simp; unfold w; ring
  have := div_nonneg (sq_nonneg (r.w * t - (r.dx * (p.x - r.cx) + r.dy * (p.y - r.cy) + r.dz * (p.z - r.cz)))) hp.le
  linarith

theorem quad_nonneg (h : r.w ≠ 0) (x y z : ℝ) : 0 ≤ r.quad x y z := by
  have hp := r.w_pos h
  have e : r.quad x y z = ((r.dx * y - r.dy * x)^2 + (r.dy * z - r.dz * y)^2 + (r.dz * x - r.dx * z)^2) / r.w := by
    unfold quad xx yy zz xy xz yz; field_simp; unfold w; ring
  rw [e]; positivity
theorem quad_le (h : r.w ≠ 0) (x y z : ℝ) : r.quad x y z ≤ x^2 + y^2 + z^2 := by
  have hp := r.w_pos h
  have e : x^2 + y^2 + z^2 - r.quad x y z = (r.dx * x + r.dy * y + r.dz * z)^2 / r.w := by
    unfold quad xx yy zz xy xz yz; field_simp; ring
  have := div_nonneg (sq_nonneg (r.dx * x + r.dy * y + r.dz * z)) hp.le
  linarith
theorem dist2_expand (h : r.w ≠ 0) (p q : Pt) :
    r.dist2 q = r.dist2 p + r.quad (q.x - p.x) (q.y - p.y) (q.z - p.z)
      + 2 * ((q.x - p.x) * (r.xx * p.x + r.xy * p.y + r.xz * p.z - r.bx)
        + (q.y - p.y) * (r.xy * p.x + r.yy * p.y + r.yz * p.z - r.by')
        + (q.z - p.z) * (r.xz * p.x + r.yz * p.y + r.zz * p.z - r.bz)) := by
  unfold dist2 quad bx by' bz xx yy zz xy xz yz; field_simp; ring
end Ray

/-- sum of a quantity over the rays -/
def S (f : Ray → ℝ) (l : List Ray) : ℝ := (l.map f).sum
@[simp] theorem S_nil (f : Ray → ℝ) : S f [] = 0 := rfl
@[simp] theorem S_cons (f : Ray → ℝ) (r : Ray) (l : List Ray) : S f (r :: l) = f r + S f l := by simp [S]

def cost (l : List Ray) (p : Pt) : ℝ := S (fun r => r.dist2 p) l
def Ok (l : List Ray) : Prop := ∀ r ∈ l, r.w ≠ 0
theorem Ok.tail {r : Ray} {l : List Ray} (h : Ok (r :: l)) : Ok l := fun x hx => h x (List.mem_cons_of_mem _ hx)
theorem Ok.head {r : Ray} {l : List Ray} (h : Ok (r :: l)) : r.w ≠ 0 := h r List.mem_cons_self

/-- residual of the normal equations -/
def gx (l : List Ray) (p : Pt) : ℝ := S Ray.xx l * p.x + S Ray.xy l * p.y + S Ray.xz l * p.z - S Ray.bx l
def gy (l : List Ray) (p : Pt) : ℝ := S Ray.xy l * p.x + S Ray.yy l * p.y + S Ray.yz l * p.z - S Ray.by' l
def gz (l : List Ray) (p : Pt) : ℝ := S Ray.xz l * p.x + S Ray.yz l * p.y + S Ray.zz l * p.z - S Ray.bz l
def Normal (l : List Ray) (p : Pt) : Prop := gx l p = 0 ∧ gy l p = 0 ∧ gz l p = 0

theorem cost_expand (l : List Ray) (h : Ok l) (p q : Pt) :
    cost l q = cost l p + S (fun r => r.quad (q.x - p.x) (q.y - p.y) (q.z - p.z)) l
      + 2 * ((q.x - p.x) * gx l p + (q.y - p.y) * gy l p + (q.z - p.z) * gz l p) := by
  induction l with
  | nil => simp [cost, gx, gy, gz]
  | cons r l ih =>
    have e := ih h.tail
    have k := r.dist2_expand h.head p q
    simp only [cost, gx, gy, gz, S_cons] at *
    linear_combination e + k

theorem quads_nonneg (l : List Ray) (h : Ok l) (x y z : ℝ) : 0 ≤ S (fun r => r.quad x y z) l := by
  induction l with
  | nil => simp
  | cons r l ih => rw [S_cons]; exact add_nonneg (r.quad_nonneg h.head x y z) (ih h.tail)
theorem quads_le (l : List Ray) (h : Ok l) (x y z : ℝ) : S (fun r => r.quad x y z) l ≤ l.length * (x^2 + y^2 + z^2) := by
  induction l with
  | nil => simp
  | cons r l ih =>
    rw [S_cons]; push_cast [List.length_cons]
    have := r.quad_le h.head x y z; have := ih h.tail; linarith

def Minimises (l : List Ray) (p : Pt) : Prop := ∀ q, cost l p ≤ cost l q

theorem minimises_of_normal (l : List Ray) (h : Ok l) (p : Pt) (n : Normal l p) : Minimises l p := by
  intro q
  obtain ⟨a, b, c⟩ := n
  rw [cost_expand l h p q, a, b, c]
  have := quads_nonneg l h (q.x - p.x) (q.y - p.y) (q.z - p.z)
  linarith

theorem normal_of_minimises (l : List Ray) (h : Ok l) (p : Pt) (m : Minimises l p) : Normal l p := by
  have key : gx l p ^ 2 + gy l p ^ 2 + gz l p ^ 2 ≤ 0 := by
    by_contra hc
    push Not at hc
    set G := gx l p ^ 2 + gy l p ^ 2 + gz l p ^ 2
    set s : ℝ := 1 / (l.length + 1) with hs
    have hn : (0 : ℝ) < l.length + 1 := by positivity
    have sp : 0 < s := by positivity
    have sn : s * (l.length + 1) = 1 := by rw [hs]; field_simp
    have m1 := m ⟨p.x - s * gx l p, p.y - s * gy l p, p.z - s * gz l p⟩
    rw [cost_expand l h p ⟨p.x - s * gx l p, p.y - s * gy l p, p.z - s * gz l p⟩] at m1
    have ql := quads_le l h (p.x - s * gx l p - p.x) (p.y - s * gy l p - p.y) (p.z - s * gz l p - p.z)
    have e1 : (p.x - s * gx l p - p.x)^2 + (p.y - s * gy l p - p.y)^2 + (p.z - s * gz l p - p.z)^2 = s^2 * G := by ring
    rw [e1] at ql
    simp only at m1
    have e2 : (p.x - s * gx l p - p.x) * gx l p + (p.y - s * gy l p - p.y) * gy l p + (p.z - s * gz l p - p.z) * gz l p = - (s * G) := by ring
    rw [e2] at m1
    have : 2 * (s * G) ≤ l.length * (s^2 * G) := by linarith
    have e3 : (l.length : ℝ) * (s^2 * G) = s * G - s^2 * G := by
      have : (l.length : ℝ) * s = 1 - s := by linarith
      calc (l.length : ℝ) * (s^2 * G) = (l.length * s) * (s * G) := by ring
        _ = _ := by rw [this]; ring
    have p1 : 0 < s * G := mul_pos sp hc
    have p2 : 0 < s^2 * G := by positivity
    linarith
  refine ⟨?_, ?_, ?_⟩ <;> nlinarith [sq_nonneg (gx l p), sq_nonneg (gy l p), sq_nonneg (gz l p)]

/-- the normal matrix has a left inverse (the rays are not all parallel) -/
structure Mat where
  (a b c d e f g h i : ℝ)
def LeftInv (P : Mat) (l : List Ray) : Prop :=
  P.a * S Ray.xx l + P.b * S Ray.xy l + P.c * S Ray.xz l = 1 ∧ P.a * S Ray.xy l + P.b * S Ray.yy l + P.c * S Ray.yz l = 0 ∧
  P.a * S Ray.xz l + P.b * S Ray.yz l + P.c * S Ray.zz l = 0 ∧
  P.d * S Ray.xx l + P.e * S Ray.xy l + P.f * S Ray.xz l = 0 ∧ P.d * S Ray.xy l + P.e * S Ray.yy l + P.f * S Ray.yz l = 1 ∧
  P.d * S Ray.xz l + P.e * S Ray.yz l + P.f * S Ray.zz l = 0 ∧
  P.g * S Ray.xx l + P.h * S Ray.xy l + P.i * S Ray.xz l = 0 ∧ P.g * S Ray.xy l + P.h * S Ray.yy l + P.i * S Ray.yz l = 0 ∧
  P.g * S Ray.xz l + P.h * S Ray.yz l + P.i * S Ray.zz l = 1

theorem normal_unique (l : List Ray) (P : Mat) (hP : LeftInv P l) (p q : Pt) (hp : Normal l p) (hq : Normal l q) : p = q := by
  obtain ⟨h1, h2, h3, h4, h5, h6, h7, h8, h9⟩ := hP
  obtain ⟨p1, p2, p3⟩ := hp
  obtain ⟨q1, q2, q3⟩ := hq
  cases p with | mk px py pz => ?_
  cases q with | mk qx qy qz => ?_
  simp only [gx, gy, gz] at *
  have e1 : px = qx := by
    linear_combination P.a * (p1 - q1) + P.b * (p2 - q2) + P.c * (p3 - q3) - (px - qx) * h1 - (py - qy) * h2 - (pz - qz) * h3
  have e2 : py = qy := by
    linear_combination P.d * (p1 - q1) + P.e * (p2 - q2) + P.f * (p3 - q3) - (px - qx) * h4 - (py - qy) * h5 - (pz - qz) * h6
  have e3 : pz = qz := by
    linear_combination P.g * (p1 - q1) + P.h * (p2 - q2) + P.i * (p3 - q3) - (px - qx) * h7 - (py - qy) * h8 - (pz - qz) * h9
  rw [e1, e2, e3]

/-- the point returned by the extracted code satisfies this for every list -/
def Returns (l : List Ray) (p : Pt) : Prop := Ok l ∧ (∃ P, LeftInv P l) ∧ Normal l p

/-- the assumed contract of the pseudo-inverse of an invertible matrix -/
def Inverse (P M : Mat) : Prop :=
  (P.a * M.a + P.b * M.d + P.c * M.g = 1 ∧ P.a * M.b + P.b * M.e + P.c * M.h = 0 ∧ P.a * M.c + P.b * M.f + P.c * M.i = 0 ∧
   P.d * M.a + P.e * M.d + P.f * M.g = 0 ∧ P.d * M.b + P.e * M.e + P.f * M.h = 1 ∧ P.d * M.c + P.e * M.f + P.f * M.i = 0 ∧
   P.g * M.a + P.h * M.d + P.i * M.g = 0 ∧ P.g * M.b + P.h * M.e + P.i * M.h = 0 ∧ P.g * M.c + P.h * M.f + P.i * M.i = 1) ∧
  (M.a * P.a + M.b * P.d + M.c * P.g = 1 ∧ M.a * P.b + M.b * P.e + M.c * P.h = 0 ∧ M.a * P.c + M.b * P.f + M.c * P.i = 0 ∧
   M.d * P.a + M.e * P.d + M.f * P.g = 0 ∧ M.d * P.b + M.e * P.e + M.f * P.h = 1 ∧ M.d * P.c + M.e * P.f + M.f * P.i = 0 ∧
   M.g * P.a + M.h * P.d + M.i * P.g = 0 ∧ M.g * P.b + M.h * P.e + M.i * P.h = 0 ∧ M.g * P.c + M.h * P.f + M.i * P.i = 1)

/-- what has to be shown of the code: its matrix and its right-hand side are
those of the normal equations, up to one common factor -/
theorem returns_of (l : List Ray) (ok : Ok l) (k : ℝ) (P M : Mat) (c1 c2 c3 : ℝ)
    (ha : M.a = k * S Ray.xx l) (hb : M.b = k * S Ray.xy l) (hc : M.c = k * S Ray.xz l)
    (hd : M.d = k * S Ray.xy l) (he : M.e = k * S Ray.yy l) (hf : M.f = k * S Ray.yz l)
    (hg : M.g = k * S Ray.xz l) (hh : M.h = k * S Ray.yz l) (hi : M.i = k * S Ray.zz l)
    (h1 : c1 = k * S Ray.bx l) (h2 : c2 = k * S Ray.by' l) (h3 : c3 = k * S Ray.bz l) (inv : Inverse P M) (p : Pt)
    (hp : p = ⟨P.a * c1 + P.b * c2 + P.c * c3, P.d * c1 + P.e * c2 + P.f * c3, P.g * c1 + P.h * c2 + P.i * c3⟩) :
    Returns l p := by
  obtain ⟨⟨i1, i2, i3, i4, i5, i6, i7, i8, i9⟩, j1, j2, j3, j4, j5, j6, j7, j8, j9⟩ := inv
  rw [ha, hb, hc] at j1 j2 j3
  rw [hd, he, hf] at j4 j5 j6
  rw [hg, hh, hi] at j7 j8 j9
  rw [ha, hd, hg] at i1 i4 i7
  rw [hb, he, hh] at i2 i5 i8
  rw [hc, hf, hi] at i3 i6 i9
  refine ⟨ok, ⟨⟨k * P.a, k * P.b, k * P.c, k * P.d, k * P.e, k * P.f, k * P.g, k * P.h, k * P.i⟩, ?_⟩, ?_⟩
  · unfold LeftInv
    refine ⟨?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_⟩
    · linear_combination i1
    · linear_combination i2
    · linear_combination i3
    · linear_combination i4
    · linear_combination i5
    · linear_combination i6
    · linear_combination i7
    · linear_combination i8
    · linear_combination i9
  · subst hp h1 h2 h3
    unfold Normal gx gy gz
    refine ⟨?_, ?_, ?_⟩
    · simp only
      linear_combination S Ray.bx l * j1 + S Ray.by' l * j2 + S Ray.bz l * j3
    · simp only
      linear_combination S Ray.bx l * j4 + S Ray.by' l * j5 + S Ray.bz l * j6
    · simp only
      linear_combination S Ray.bx l * j7 + S Ray.by' l * j8 + S Ray.bz l * j9

-- C13
theorem c13_minimises {l p} (h : Returns l p) : Minimises l p := minimises_of_normal l h.1 p h.2.2
theorem c13_only {l p} (h : Returns l p) (q : Pt) (hq : Minimises l q) : q = p := by
  obtain ⟨ok, ⟨P, hP⟩, n⟩ := h
  exact normal_unique l P hP q p (normal_of_minimises l ok q hq) n
theorem dist2_on_line (r : Ray) (h : r.w ≠ 0) (t : ℝ) : r.dist2 ⟨r.cx + t * r.dx, r.cy + t * r.dy, r.cz + t * r.dz⟩ = 0 := by
  unfold Ray.dist2; field_simp; unfold Ray.w; ring
theorem dist2_nonneg (r : Ray) (h : r.w ≠ 0) (p : Pt) : 0 ≤ r.dist2 p := by
  obtain ⟨t, e⟩ := r.dist2_foot h p; rw [e]; positivity
theorem c13_common_point {l p} (h : Returns l p) (q : Pt)
    (hq : ∀ r ∈ l, ∃ t : ℝ, q = ⟨r.cx + t * r.dx, r.cy + t * r.dy, r.cz + t * r.dz⟩) : p = q := by
  refine (c13_only h q ?_).symm
  have z : ∀ (m : List Ray), Ok m → (∀ r ∈ m, ∃ t : ℝ, q = ⟨r.cx + t * r.dx, r.cy + t * r.dy, r.cz + t * r.dz⟩) → cost m q = 0 := by
    intro m; induction m with
    | nil => intros; rfl
    | cons r m ih =>
      intro ok hm
      obtain ⟨t, ht⟩ := hm r List.mem_cons_self
      have a : r.dist2 q = 0 := by rw [ht]; exact dist2_on_line r ok.head t
      have b := ih ok.tail (fun r hr => hm r (List.mem_cons_of_mem _ hr))
      simp only [cost, S_cons] at *; linarith
  have nn : ∀ (m : List Ray), Ok m → ∀ s, 0 ≤ cost m s := by
    intro m; induction m with
    | nil => intro _ s; simp [cost]
    | cons r m ih =>
      intro ok s
      have a := dist2_nonneg r ok.head s
      have b := ih ok.tail s
      simp only [cost, S_cons] at *; linarith
  intro s; rw [z l h.1 hq]; exact nn l h.1 s

-- C14: one lemma for every re-description of the lines
theorem c14_general {l l' p p'} (h : Returns l p) (h' : Returns l' p') (φ ψ : Pt → Pt) (hφ : ∀ q, φ (ψ q) = q)
    (k : ℝ) (hk : 0 < k) (hc : ∀ q, cost l' (φ q) = k * cost l q) : p' = φ p := by
  refine (c13_only h' (φ p) ?_).symm
  intro q
  rw [← hφ q, hc, hc]
  exact mul_le_mul_of_nonneg_left (c13_minimises h _) hk.le
theorem c14_reorder {l l' p p'} (h : Returns l p) (h' : Returns l' p') (e : l.Perm l') : p' = p :=
  c14_general h h' id id (fun _ => rfl) 1 one_pos (fun q => by
    simp only [cost, S, id, one_mul]; exact ((e.map _).sum_eq).symm)
theorem c14_same_lines {p p'} (l : List Ray) (f : Ray → Ray) (h : Returns l p) (h' : Returns (l.map f) p')
    (e : ∀ r ∈ l, ∀ q, (f r).dist2 q = r.dist2 q) : p' = p :=
  c14_general h h' id id (fun _ => rfl) 1 one_pos (fun q => by
    have : ∀ m : List Ray, (∀ r ∈ m, ∀ q, (f r).dist2 q = r.dist2 q) → cost (m.map f) q = cost m q := by
      intro m; induction m with
      | nil => intro _; rfl
      | cons r m ih =>
        intro hm
        have a := hm r List.mem_cons_self q
        have b := ih (fun r hr => hm r (List.mem_cons_of_mem _ hr))
        simp only [cost, S_cons, List.map_cons] at *; linarith
    simp only [id, one_mul]; exact this l e)
/-- rescaled or reversed directions and origins moved along their lines, ray by ray -/
theorem dist2_redescribe (r : Ray) (h : r.w ≠ 0) (s t : ℝ) (hs : s ≠ 0) (q : Pt) :
    (Ray.mk (r.cx + t * r.dx) (r.cy + t * r.dy) (r.cz + t * r.dz) (s * r.dx) (s * r.dy) (s * r.dz)).dist2 q = r.dist2 q := by
  have hw : (Ray.mk (r.cx + t * r.dx) (r.cy + t * r.dy) (r.cz + t * r.dz) (s * r.dx) (s * r.dy) (s * r.dz)).w = s * s * r.w := by
    unfold Ray.w; ring
  unfold Ray.dist2; rw [hw]; simp only; field_simp; unfold Ray.w; ring
theorem c14_redescribe {p p'} (l : List Ray) (s t : Ray → ℝ) (hs : ∀ r, s r ≠ 0) (h : Returns l p)
    (h' : Returns (l.map fun r => ⟨r.cx + t r * r.dx, r.cy + t r * r.dy, r.cz + t r * r.dz, s r * r.dx, s r * r.dy, s r * r.dz⟩) p') : p' = p :=
  c14_same_lines l _ h h' (fun r hr q => dist2_redescribe r (h.1 r hr) (s r) (t r) (hs r) q)
theorem c14_repeat {l p p'} (n : ℕ) (hn : 0 < n) (h : Returns l p) (h' : Returns (List.replicate n l).flatten p') : p' = p :=
  c14_general h h' id id (fun _ => rfl) n (by exact_mod_cast hn) (fun q => by
    simp only [id]
    clear hn h'
    induction n with
    | zero => simp [cost]
    | succ n ih =>
      have : ∀ a b : List Ray, cost (a ++ b) q = cost a q + cost b q := by intro a b; simp [cost, S]
      rw [List.replicate_succ, List.flatten_cons, this, ih]; push_cast; ring)
/-- a rotation (orthonormal rows) followed by a translation -/
structure Rigid where
  (m : Mat) (tx ty tz : ℝ)
  r11 : m.a * m.a + m.b * m.b + m.c * m.c = 1
  r22 : m.d * m.d + m.e * m.e + m.f * m.f = 1
  r33 : m.g * m.g + m.h * m.h + m.i * m.i = 1
  r12 : m.a * m.d + m.b * m.e + m.c * m.f = 0
  r13 : m.a * m.g + m.b * m.h + m.c * m.i = 0
  r23 : m.d * m.g + m.e * m.h + m.f * m.i = 0
  c11 : m.a * m.a + m.d * m.d + m.g * m.g = 1
  c22 : m.b * m.b + m.e * m.e + m.h * m.h = 1
  c33 : m.c * m.c + m.f * m.f + m.i * m.i = 1
  c12 : m.a * m.b + m.d * m.e + m.g * m.h = 0
  c13 : m.a * m.c + m.d * m.f + m.g * m.i = 0
  c23 : m.b * m.c + m.e * m.f + m.h * m.i = 0
def Rigid.vec (T : Rigid) (x y z : ℝ) : Pt := ⟨T.m.a * x + T.m.b * y + T.m.c * z, T.m.d * x + T.m.e * y + T.m.f * z, T.m.g * x + T.m.h * y + T.m.i * z⟩
def Rigid.pt (T : Rigid) (p : Pt) : Pt :=
  ⟨(T.vec p.x p.y p.z).x + T.tx, (T.vec p.x p.y p.z).y + T.ty, (T.vec p.x p.y p.z).z + T.tz⟩
def Rigid.inv (T : Rigid) (p : Pt) : Pt :=
  ⟨T.m.a * (p.x - T.tx) + T.m.d * (p.y - T.ty) + T.m.g * (p.z - T.tz),
   T.m.b * (p.x - T.tx) + T.m.e * (p.y - T.ty) + T.m.h * (p.z - T.tz),
   T.m.c * (p.x - T.tx) + T.m.f * (p.y - T.ty) + T.m.i * (p.z - T.tz)⟩
def Rigid.ray (T : Rigid) (r : Ray) : Ray :=
  let c := T.pt ⟨r.cx, r.cy, r.cz⟩
  let d := T.vec r.dx r.dy r.dz
  ⟨c.x, c.y, c.z, d.x, d.y, d.z⟩
theorem Rigid.pt_inv (T : Rigid) (p : Pt) : T.pt (T.inv p) = p := by
  cases p with | mk x y z => ?_
  simp only [Rigid.pt, Rigid.vec, Rigid.inv, Pt.mk.injEq]
  refine ⟨?_, ?_, ?_⟩
  · linear_combination (x - T.tx) * T.r11 + (y - T.ty) * T.r12 + (z - T.tz) * T.r13
  · linear_combination (x - T.tx) * T.r12 + (y - T.ty) * T.r22 + (z - T.tz) * T.r23
  · linear_combination (x - T.tx) * T.r13 + (y - T.ty) * T.r23 + (z - T.tz) * T.r33
theorem Rigid.dot (T : Rigid) (x y z x' y' z' : ℝ) :
    (T.vec x y z).x * (T.vec x' y' z').x + (T.vec x y z).y * (T.vec x' y' z').y + (T.vec x y z).z * (T.vec x' y' z').z = x * x' + y * y' + z * z' := by
  simp only [Rigid.vec]
  linear_combination x * x' * T.c11 + y * y' * T.c22 + z * z' * T.c33 + (x * y' + y * x') * T.c12 + (x * z' + z * x') * T.c13 + (y * z' + z * y') * T.c23
theorem Rigid.dist2 (T : Rigid) (r : Ray) (q : Pt) : (T.ray r).dist2 (T.pt q) = r.dist2 q := by
  have hw : (T.ray r).w = r.w := by
    simp only [Rigid.ray, Ray.w]; exact T.dot r.dx r.dy r.dz r.dx r.dy r.dz
  have sub : ∀ x y z x' y' z' : ℝ, (T.vec x y z).x - (T.vec x' y' z').x = (T.vec (x - x') (y - y') (z - z')).x
      ∧ (T.vec x y z).y - (T.vec x' y' z').y = (T.vec (x - x') (y - y') (z - z')).y
      ∧ (T.vec x y z).z - (T.vec x' y' z').z = (T.vec (x - x') (y - y') (z - z')).z := by
    intros; simp only [Rigid.vec]; refine ⟨?_, ?_, ?_⟩ <;> ring
  obtain ⟨sx, sy, sz⟩ := sub q.x q.y q.z r.cx r.cy r.cz
  have nn := T.dot (q.x - r.cx) (q.y - r.cy) (q.z - r.cz) (q.x - r.cx) (q.y - r.cy) (q.z - r.cz)
  have dd := T.dot r.dx r.dy r.dz (q.x - r.cx) (q.y - r.cy) (q.z - r.cz)
  unfold Ray.dist2; rw [hw]
  have e : ∀ a b t : ℝ, a + t - (b + t) = a - b := by intros; ring
  simp only [Rigid.ray, Rigid.pt, e]
  rw [sx, sy, sz, dd]
  have : ∀ a : ℝ, a^2 = a * a := by intros; ring
  simp only [this] at *
  rw [nn]
theorem c14_moves_along {p p'} (l : List Ray) (T : Rigid) (h : Returns l p) (h' : Returns (l.map T.ray) p') : p' = T.pt p :=
  c14_general h h' T.pt T.inv T.pt_inv 1 one_pos (fun q => by
    have : ∀ m : List Ray, cost (m.map T.ray) (T.pt q) = cost m q := by
      intro m; induction m with
      | nil => rfl
      | cons r m ih => have a := T.dist2 r q; simp only [cost, S_cons, List.map_cons] at *; linarith
    rw [one_mul]; exact this l)
end Lsq
