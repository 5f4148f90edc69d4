/-
Lemma schemas that the verifier instantiates (contracts/lemmas.py): finite sums over integer
ranges, chains of increasing sequences, division by a positive number, and piecewise-linear
interpolation.  Each theorem below carries the name the evidence reports under `lemmas_used`.
Checked by Lean 4 + Mathlib in the thorough tier (and by hand: `lean lean/Lemmas.lean`).
-/
import Mathlib

open Finset

namespace DV

/-! ### sums over lo ≤ i < hi -/

theorem sum_nonneg (lo hi : ℤ) (f : ℤ → ℝ) (h : ∀ i, lo ≤ i → i < hi → 0 ≤ f i) :
    0 ≤ ∑ i ∈ Ico lo hi, f i :=
  Finset.sum_nonneg fun i hi' => h i (mem_Ico.1 hi').1 (mem_Ico.1 hi').2

theorem sum_pos (lo hi : ℤ) (f : ℤ → ℝ) (hne : lo < hi) (h : ∀ i, lo ≤ i → i < hi → 0 < f i) :
    0 < ∑ i ∈ Ico lo hi, f i :=
  Finset.sum_pos (fun i hi' => h i (mem_Ico.1 hi').1 (mem_Ico.1 hi').2) ⟨lo, mem_Ico.2 ⟨le_refl _, hne⟩⟩

theorem sum_pos_of_mem (lo hi j : ℤ) (f : ℤ → ℝ) (h1 : lo ≤ j) (h2 : j < hi) (hj : 0 < f j)
    (h : ∀ i, lo ≤ i → i < hi → 0 ≤ f i) : 0 < ∑ i ∈ Ico lo hi, f i :=
  Finset.sum_pos' (fun i hi' => h i (mem_Ico.1 hi').1 (mem_Ico.1 hi').2) ⟨j, mem_Ico.2 ⟨h1, h2⟩, hj⟩

theorem sum_eq_zero_iff (lo hi : ℤ) (f : ℤ → ℝ) (h : ∀ i, lo ≤ i → i < hi → 0 ≤ f i) :
    (∑ i ∈ Ico lo hi, f i = 0) ↔ ∀ i, lo ≤ i → i < hi → f i = 0 := by
  rw [Finset.sum_eq_zero_iff_of_nonneg fun i hi' => h i (mem_Ico.1 hi').1 (mem_Ico.1 hi').2]
  exact ⟨fun H i a b => H i (mem_Ico.2 ⟨a, b⟩), fun H i hi' => H i (mem_Ico.1 hi').1 (mem_Ico.1 hi').2⟩

/-- the other use of the name `sum_eq_zero_iff`: no sign condition is needed in this direction -/
theorem sum_all_zero (lo hi : ℤ) (f : ℤ → ℝ) (h : ∀ i, lo ≤ i → i < hi → f i = 0) :
    ∑ i ∈ Ico lo hi, f i = 0 :=
  Finset.sum_eq_zero fun i hi' => h i (mem_Ico.1 hi').1 (mem_Ico.1 hi').2

theorem sum_congr (lo hi : ℤ) (f g : ℤ → ℝ) (h : ∀ i, lo ≤ i → i < hi → f i = g i) :
    ∑ i ∈ Ico lo hi, f i = ∑ i ∈ Ico lo hi, g i :=
  Finset.sum_congr rfl fun i hi' => h i (mem_Ico.1 hi').1 (mem_Ico.1 hi').2

theorem sum_le_sum (lo hi : ℤ) (f g : ℤ → ℝ) (h : ∀ i, lo ≤ i → i < hi → f i ≤ g i) :
    ∑ i ∈ Ico lo hi, f i ≤ ∑ i ∈ Ico lo hi, g i :=
  Finset.sum_le_sum fun i hi' => h i (mem_Ico.1 hi').1 (mem_Ico.1 hi').2

theorem sum_comm (n m : ℤ) (f : ℤ → ℤ → ℝ) :
    ∑ i ∈ Ico 0 n, ∑ j ∈ Ico 0 m, f i j = ∑ j ∈ Ico 0 m, ∑ i ∈ Ico 0 n, f i j :=
  Finset.sum_comm

/-- a sum over an axis which merges two of lengths `n` and `m` -/
theorem sum_flatten (n m : ℤ) (hm : 0 ≤ m) (f : ℤ → ℤ → ℝ) :
    ∑ k ∈ Ico 0 (n * m), f (k / m) k = ∑ i ∈ Ico 0 n, ∑ j ∈ Ico 0 m, f i (i * m + j) := by
  rw [← Finset.sum_product']
  symm
  refine Finset.sum_bij' (fun p _ => p.1 * m + p.2) (fun k _ => (k / m, k % m)) ?_ ?_ ?_ ?_ ?_
  · rintro ⟨i, j⟩ h
    simp only [Finset.mem_product, mem_Ico] at h ⊢
    obtain ⟨⟨a, b⟩, c, d⟩ := h
    constructor
    · nlinarith
    · nlinarith
  · intro k h
    simp only [Finset.mem_product, mem_Ico] at h ⊢
    have hm0 : 0 < m := by
      rcases hm.lt_or_eq with h1 | h1
      · exact h1
      · subst h1; simp at h; omega
    exact ⟨⟨Int.ediv_nonneg h.1 hm, Int.ediv_lt_of_lt_mul hm0 h.2⟩, Int.emod_nonneg _ hm0.ne', Int.emod_lt_of_pos _ hm0⟩
  · rintro ⟨i, j⟩ h
    simp only [Finset.mem_product, mem_Ico] at h
    obtain ⟨⟨a, b⟩, c, d⟩ := h
    have hm0 : 0 < m := by omega
    ext
    · show (i * m + j) / m = i
      rw [Int.add_comm, Int.add_mul_ediv_right _ _ hm0.ne', Int.ediv_eq_zero_of_lt c d]; simp
    · show (i * m + j) % m = j
      rw [Int.add_comm, Int.add_mul_emod_self_right, Int.emod_eq_of_lt c d]
  · intro k _
    show k / m * m + k % m = k
    rw [mul_comm]; exact Int.mul_ediv_add_emod k m
  · rintro ⟨i, j⟩ h
    simp only [Finset.mem_product, mem_Ico] at h
    obtain ⟨⟨a, b⟩, c, d⟩ := h
    have hm0 : 0 < m := by omega
    have : (i * m + j) / m = i := by
      rw [Int.add_comm, Int.add_mul_ediv_right _ _ hm0.ne', Int.ediv_eq_zero_of_lt c d]; simp
    rw [this]

/-! ### maxima over 0 ≤ i < n -/

/-- `m` is the maximum of `f` over 0 ≤ i < n -/
def IsMax (n : ℤ) (f : ℤ → ℝ) (m : ℝ) : Prop :=
  (∀ i, 0 ≤ i → i < n → f i ≤ m) ∧ ∃ i, 0 ≤ i ∧ i < n ∧ f i = m

theorem rmax_ge (n i : ℤ) (f : ℤ → ℝ) (m : ℝ) (h : IsMax n f m) (h0 : 0 ≤ i) (h1 : i < n) : f i ≤ m := h.1 i h0 h1

theorem rmax_pos (n : ℤ) (f : ℤ → ℝ) (m : ℝ) (h : IsMax n f m) (hf : ∀ i, 0 ≤ i → i < n → 0 < f i) : 0 < m := by
  obtain ⟨i, a, b, c⟩ := h.2
  exact c ▸ hf i a b

theorem rmax_scale (n : ℤ) (f : ℤ → ℝ) (m c : ℝ) (hc : 0 < c) (h : IsMax n f m) : IsMax n (fun i => c * f i) (c * m) :=
  ⟨fun i a b => mul_le_mul_of_nonneg_left (h.1 i a b) hc.le, by
    obtain ⟨i, a, b, e⟩ := h.2
    exact ⟨i, a, b, by simp [e]⟩⟩

/-! ### increasing sequences -/

theorem strictMono_le (b : ℤ → ℝ) (n i j : ℤ) (h : ∀ k, 0 ≤ k → k < n → b k < b (k + 1))
    (hi : 0 ≤ i) (hij : i ≤ j) (hj : j ≤ n) : b i ≤ b j := by
  obtain ⟨d, rfl⟩ := Int.le.dest hij
  induction d with
  | zero => simp
  | succ d ih =>
    have e : (i + ((d + 1 : ℕ) : ℤ)) = (i + (d : ℤ)) + 1 := by push_cast; ring
    have hj' : i + (d : ℤ) < n := by rw [e] at hj; omega
    rw [e]
    exact (ih (by omega) hj'.le).trans (h _ (by omega) hj').le

theorem strictMono_lt (b : ℤ → ℝ) (n i j : ℤ) (h : ∀ k, 0 ≤ k → k < n → b k < b (k + 1))
    (hi : 0 ≤ i) (hij : i < j) (hj : j ≤ n) : b i < b j :=
  (h i hi (by omega)).trans_le (strictMono_le b n (i + 1) j h (by omega) (by omega) hj)

theorem strictMono_chain (b : ℤ → ℝ) (n : ℤ) (hn : 0 < n) (h : ∀ k, 0 ≤ k → k < n → b k < b (k + 1)) :
    b 0 < b n := strictMono_lt b n 0 n h (le_refl _) hn (le_refl _)

/-! ### division by a positive number -/

theorem div_le_div (a b h : ℝ) (hh : 0 < h) (hab : a ≤ b) : a / h ≤ b / h :=
  (div_le_div_iff_of_pos_right hh).2 hab

theorem div_lt_div (a b h : ℝ) (hh : 0 < h) (hab : a < b) : a / h < b / h :=
  (div_lt_div_iff_of_pos_right hh).2 hab

/-! ### piecewise-linear interpolation (the contract of jnp.interp for increasing abscissae) -/

/-- `F` is the interpolant of the `n` knots `(xp k, fp k)` with the values `L`, `R` beyond them -/
structure IsInterp (n : ℤ) (xp fp : ℤ → ℝ) (L R : ℝ) (F : ℝ → ℝ) : Prop where
  left : ∀ x, x < xp 0 → F x = L
  right : ∀ x, xp (n - 1) < x → F x = R
  seg : ∀ j x, 0 ≤ j → j < n - 1 → xp j ≤ x → x ≤ xp (j + 1) →
    F x = fp j + (x - xp j) / (xp (j + 1) - xp j) * (fp (j + 1) - fp j)
  knot : ∀ k, 0 ≤ k → k < n → F (xp k) = fp k

variable {n : ℤ} {xp fp : ℤ → ℝ} {L R : ℝ} {F : ℝ → ℝ}

/-- every point between the first and the last knot lies in a segment (or on the only knot) -/
theorem locate (hn : 0 < n) (x : ℝ) (h0 : xp 0 ≤ x) (h1 : x ≤ xp (n - 1)) :
    (n = 1 ∧ x = xp 0) ∨ ∃ j, 0 ≤ j ∧ j < n - 1 ∧ xp j ≤ x ∧ x ≤ xp (j + 1) := by
  by_cases e : n = 1
  · left; subst e; simp at h1; exact ⟨rfl, le_antisymm h1 h0⟩
  right
  -- the last knot at or below x, found by induction on the number of knots considered
  have key : ∀ d : ℕ, (d : ℤ) + 1 ≤ n - 1 → x ≤ xp ((d : ℤ) + 1) →
      ∃ j, 0 ≤ j ∧ j < n - 1 ∧ xp j ≤ x ∧ x ≤ xp (j + 1) := by
    intro d
    induction d with
    | zero => intro a b; exact ⟨0, le_refl _, by simp at a; omega, h0, by simpa using b⟩
    | succ d ih =>
      intro a b
      push_cast at a b
      rcases le_total x (xp ((d : ℤ) + 1)) with c | c
      · exact ih (by omega) c
      · exact ⟨(d : ℤ) + 1, by omega, by omega, c, b⟩
  obtain ⟨d, hd⟩ := Int.le.dest (show (0 : ℤ) ≤ n - 2 by omega)
  exact key d (by omega) (by have : (d : ℤ) + 1 = n - 1 := by omega
                             rw [this]; exact h1)

/-- within one segment the interpolant is increasing -/
theorem seg_mono (H : IsInterp n xp fp L R F) {j : ℤ} {x y : ℝ} (j0 : 0 ≤ j) (j1 : j < n - 1)
    (hx : xp j < xp (j + 1)) (hf : fp j ≤ fp (j + 1)) (a : xp j ≤ x) (xy : x ≤ y) (b : y ≤ xp (j + 1)) : F x ≤ F y := by
  rw [H.seg j x j0 j1 a (xy.trans b), H.seg j y j0 j1 (a.trans xy) b]
  have : (x - xp j) / (xp (j + 1) - xp j) ≤ (y - xp j) / (xp (j + 1) - xp j) :=
    div_le_div _ _ _ (by linarith) (by linarith)
  nlinarith [mul_le_mul_of_nonneg_right this (sub_nonneg.2 hf)]

theorem seg_strict (H : IsInterp n xp fp L R F) {j : ℤ} {x y : ℝ} (j0 : 0 ≤ j) (j1 : j < n - 1)
    (hx : xp j < xp (j + 1)) (hf : fp j < fp (j + 1)) (a : xp j ≤ x) (xy : x < y) (b : y ≤ xp (j + 1)) : F x < F y := by
  rw [H.seg j x j0 j1 a (xy.le.trans b), H.seg j y j0 j1 (a.trans xy.le) b]
  have : (x - xp j) / (xp (j + 1) - xp j) < (y - xp j) / (xp (j + 1) - xp j) :=
    div_lt_div _ _ _ (by linarith) (by linarith)
  nlinarith [mul_lt_mul_of_pos_right this (sub_pos.2 hf)]

/-- non-decreasing sequences -/
theorem mono_le (b : ℤ → ℝ) (n i j : ℤ) (h : ∀ k, 0 ≤ k → k < n → b k ≤ b (k + 1))
    (hi : 0 ≤ i) (hij : i ≤ j) (hj : j ≤ n) : b i ≤ b j := by
  obtain ⟨d, rfl⟩ := Int.le.dest hij
  induction d with
  | zero => simp
  | succ d ih =>
    have e : (i + ((d + 1 : ℕ) : ℤ)) = (i + (d : ℤ)) + 1 := by push_cast; ring
    have hj' : i + (d : ℤ) < n := by rw [e] at hj; omega
    rw [e]
    exact (ih (by omega) hj'.le).trans (h _ (by omega) hj')

variable (hx : ∀ j, 0 ≤ j → j < n - 1 → xp j < xp (j + 1))

include hx in
/-- at or beyond a knot the interpolant is at least the value at the knot, and conversely -/
theorem ge_knot (H : IsInterp n xp fp L (fp (n - 1)) F) (hf : ∀ j, 0 ≤ j → j < n - 1 → fp j ≤ fp (j + 1))
    {k : ℤ} (k0 : 0 ≤ k) (k1 : k < n) {y : ℝ} (h : xp k ≤ y) : fp k ≤ F y := by
  have hn : 0 < n := by omega
  rcases lt_or_ge (xp (n - 1)) y with c | c
  · rw [H.right y c]; exact mono_le fp (n - 1) k (n - 1) hf k0 (by omega) (le_refl _)
  have y0 : xp 0 ≤ y := (strictMono_le xp (n - 1) 0 k hx (le_refl _) k0 (by omega)).trans h
  rcases locate hn y y0 c with ⟨e, e2⟩ | ⟨j, j0, j1, a, b⟩
  · have : k = 0 := by omega
    rw [this, e2, H.knot 0 (le_refl _) hn]
  · rcases le_or_gt k j with d | d
    · have := seg_mono H j0 j1 (hx j j0 j1) (hf j j0 j1) (le_refl _) a b
      rw [H.knot j j0 (by omega)] at this
      exact (mono_le fp (n - 1) k j hf k0 d (by omega)).trans this
    · -- k ≥ j + 1 forces y = xp (j+1) = xp k
      have : xp (j + 1) ≤ xp k := strictMono_le xp (n - 1) (j + 1) k hx (by omega) (by omega) (by omega)
      have e : y = xp k := le_antisymm (b.trans this) h
      rw [e, H.knot k k0 k1]

include hx in
theorem le_knot (H : IsInterp n xp fp (fp 0) R F) (hf : ∀ j, 0 ≤ j → j < n - 1 → fp j ≤ fp (j + 1))
    {k : ℤ} (k0 : 0 ≤ k) (k1 : k < n) {x : ℝ} (h : x ≤ xp k) : F x ≤ fp k := by
  have hn : 0 < n := by omega
  rcases lt_or_ge x (xp 0) with c | c
  · rw [H.left x c]; exact mono_le fp (n - 1) 0 k hf (le_refl _) k0 (by omega)
  have x1 : x ≤ xp (n - 1) := h.trans (strictMono_le xp (n - 1) k (n - 1) hx k0 (by omega) (le_refl _))
  rcases locate hn x c x1 with ⟨e, e2⟩ | ⟨j, j0, j1, a, b⟩
  · have : k = 0 := by omega
    rw [this, e2, H.knot 0 (le_refl _) hn]
  · rcases lt_or_ge j k with d | d
    · have := seg_mono H j0 j1 (hx j j0 j1) (hf j j0 j1) a b (le_refl _)
      rw [H.knot (j + 1) (by omega) (by omega)] at this
      exact this.trans (mono_le fp (n - 1) (j + 1) k hf (by omega) (by omega) (by omega))
    · have : xp k ≤ xp j := strictMono_le xp (n - 1) k j hx k0 (by omega) (by omega)
      have e : x = xp k := le_antisymm h (this.trans a)
      rw [e, H.knot k k0 k1]

include hx in
theorem interp_mono (hn : 0 < n) (H : IsInterp n xp fp (fp 0) (fp (n - 1)) F)
    (hf : ∀ j, 0 ≤ j → j < n - 1 → fp j ≤ fp (j + 1)) {x y : ℝ} (xy : x ≤ y) : F x ≤ F y := by
  rcases lt_or_ge x (xp 0) with c | c
  · rw [H.left x c]
    rcases lt_or_ge y (xp 0) with d | d
    · rw [H.left y d]
    · exact ge_knot hx H hf (le_refl _) hn d
  rcases lt_or_ge (xp (n - 1)) y with d | d
  · rw [H.right y d]
    rcases lt_or_ge (xp (n - 1)) x with e | e
    · rw [H.right x e]
    · exact le_knot hx H hf (by omega) (by omega) e
  rcases locate hn x c (xy.trans d) with ⟨e, e2⟩ | ⟨j, j0, j1, a, b⟩
  · rw [e2, H.knot 0 (le_refl _) hn]; exact ge_knot hx H hf (le_refl _) hn (e2 ▸ xy)
  rcases le_total y (xp (j + 1)) with f | f
  · exact seg_mono H j0 j1 (hx j j0 j1) (hf j j0 j1) a xy f
  · exact (le_knot hx H hf (by omega) (by omega) b).trans (ge_knot hx H hf (by omega) (by omega) f)

include hx in
theorem interp_strict (hn2' : 1 < n) (H : IsInterp n xp fp (fp 0) (fp (n - 1)) F)
    (hf : ∀ j, 0 ≤ j → j < n - 1 → fp j < fp (j + 1)) {x y : ℝ} (xy : x < y) (hx1 : x < xp (n - 1)) (hy0 : xp 0 < y) :
    F x < F y := by
  have hf' : ∀ j, 0 ≤ j → j < n - 1 → fp j ≤ fp (j + 1) := fun j a b => (hf j a b).le
  have hn : 0 < n := by omega
  have hn2 : 0 < n - 1 := by omega
  -- a point strictly below a knot gives a value strictly below
  have lt_of : ∀ k z, 0 < k → k < n → z < xp k → F z < fp k := by
    intro k z k0 k1 hz
    rcases lt_or_ge z (xp 0) with c | c
    · rw [H.left z c]; exact strictMono_lt fp (n - 1) 0 k hf (le_refl _) k0 (by omega)
    rcases locate hn z c (hz.le.trans (strictMono_le xp (n - 1) k (n - 1) hx k0.le (by omega) (le_refl _))) with
      ⟨e, _⟩ | ⟨j, j0, j1, a, b⟩
    · omega
    have jk : j < k := by
      by_contra q
      have := strictMono_le xp (n - 1) k j hx k0.le (by omega) (by omega)
      linarith
    rcases lt_or_eq_of_le b with b' | b'
    · have := seg_strict H j0 j1 (hx j j0 j1) (hf j j0 j1) a b' (le_refl _)
      rw [H.knot (j + 1) (by omega) (by omega)] at this
      exact this.trans_le (mono_le fp (n - 1) (j + 1) k hf' (by omega) (by omega) (by omega))
    · rw [b', H.knot (j + 1) (by omega) (by omega)]
      have : j + 1 < k := by
        by_contra q
        have e : j + 1 = k := by omega
        rw [e] at b'; linarith
      exact strictMono_lt fp (n - 1) (j + 1) k hf (by omega) this (by omega)
  rcases lt_or_ge x (xp 0) with c | c
  · rw [H.left x c]
    rcases lt_or_ge (xp (n - 1)) y with d | d
    · rw [H.right y d]; exact strictMono_lt fp (n - 1) 0 (n - 1) hf (le_refl _) hn2 (le_refl _)
    rcases locate hn y hy0.le d with ⟨e, _⟩ | ⟨j, j0, j1, a, b⟩
    · omega
    rcases lt_or_eq_of_le a with a' | a'
    · have := seg_strict H j0 j1 (hx j j0 j1) (hf j j0 j1) (le_refl _) a' b
      rw [H.knot j j0 (by omega)] at this
      exact (mono_le fp (n - 1) 0 j hf' (le_refl _) j0 (by omega)).trans_lt this
    · rw [← a', H.knot j j0 (by omega)]
      have : 0 < j := by
        by_contra q
        have e : j = 0 := by omega
        rw [e] at a'; linarith
      exact strictMono_lt fp (n - 1) 0 j hf (le_refl _) this (by omega)
  rcases locate hn x c hx1.le with ⟨e, _⟩ | ⟨j, j0, j1, a, b⟩
  · omega
  rcases le_total y (xp (j + 1)) with f | f
  · exact seg_strict H j0 j1 (hx j j0 j1) (hf j j0 j1) a xy f
  rcases lt_or_eq_of_le b with b' | b'
  · exact (lt_of (j + 1) x (by omega) (by omega) b').trans_le (ge_knot hx H hf' (by omega) (by omega) f)
  · -- x is the knot j+1, which is not the last one
    have j2 : j + 1 < n - 1 := by
      by_contra q
      have e : j + 1 = n - 1 := by omega
      rw [e] at b'; linarith
    rcases le_total y (xp (j + 1 + 1)) with g | g
    · exact seg_strict H (by omega) j2 (hx _ (by omega) j2) (hf _ (by omega) j2) b'.ge xy g
    · have h1 : x < xp (j + 1 + 1) := b' ▸ hx (j + 1) (by omega) j2
      exact (lt_of (j + 1 + 1) x (by omega) (by omega) h1).trans_le (ge_knot hx H hf' (by omega) (by omega) g)

/-- linear in the values: the interpolant of `k * fp` with the values `k * L`, `k * R` outside -/
theorem interp_scale (hn : 0 < n) {G : ℝ → ℝ} (k : ℝ) (H : IsInterp n xp fp L R F)
    (K : IsInterp n xp (fun j => k * fp j) (k * L) (k * R) G) (x : ℝ) : G x = k * F x := by
  rcases lt_or_ge x (xp 0) with c | c
  · rw [H.left x c, K.left x c]
  rcases lt_or_ge (xp (n - 1)) x with d | d
  · rw [H.right x d, K.right x d]
  rcases locate hn x c d with ⟨_, e2⟩ | ⟨j, j0, j1, a, b⟩
  · rw [e2, H.knot 0 (le_refl _) hn, K.knot 0 (le_refl _) hn]
  · rw [H.seg j x j0 j1 a b, K.seg j x j0 j1 a b]; ring

/-- a table whose abscissae are stretched by `s > 0`, read at the stretched point -/
theorem interp_stretch (hn : 0 < n) {G : ℝ → ℝ} (s : ℝ) (hs : 0 < s) (H : IsInterp n xp fp L R F)
    (K : IsInterp n (fun j => s * xp j) fp L R G) (x : ℝ) : G (s * x) = F x := by
  rcases lt_or_ge x (xp 0) with c | c
  · rw [H.left x c, K.left (s * x) (by exact mul_lt_mul_of_pos_left c hs)]
  rcases lt_or_ge (xp (n - 1)) x with d | d
  · rw [H.right x d, K.right (s * x) (by exact mul_lt_mul_of_pos_left d hs)]
  rcases locate hn x c d with ⟨_, e2⟩ | ⟨j, j0, j1, a, b⟩
  · rw [e2, H.knot 0 (le_refl _) hn]; exact K.knot 0 (le_refl _) hn
  · rw [H.seg j x j0 j1 a b, K.seg j (s * x) j0 j1 (by exact mul_le_mul_of_nonneg_left a hs.le)
      (by exact mul_le_mul_of_nonneg_left b hs.le)]
    have : (s * x - s * xp j) / (s * xp (j + 1) - s * xp j) = (x - xp j) / (xp (j + 1) - xp j) := by
      rw [← mul_sub, ← mul_sub, mul_div_mul_left _ _ hs.ne']
    rw [this]

/-- a table whose abscissae are all shifted by `d`, read at the shifted point -/
theorem interp_shift (hn : 0 < n) {G : ℝ → ℝ} (d : ℝ) (H : IsInterp n xp fp L R F)
    (K : IsInterp n (fun j => xp j + d) fp L R G) (x : ℝ) : G (x + d) = F x := by
  rcases lt_or_ge x (xp 0) with c | c
  · rw [H.left x c, K.left (x + d) (by show x + d < xp 0 + d; linarith)]
  rcases lt_or_ge (xp (n - 1)) x with e | e
  · rw [H.right x e, K.right (x + d) (by show xp (n - 1) + d < x + d; linarith)]
  rcases locate hn x c e with ⟨_, e2⟩ | ⟨j, j0, j1, a, b⟩
  · rw [e2, H.knot 0 (le_refl _) hn]; exact K.knot 0 (le_refl _) hn
  · rw [H.seg j x j0 j1 a b, K.seg j (x + d) j0 j1 (by show xp j + d ≤ x + d; linarith) (by show x + d ≤ xp (j + 1) + d; linarith)]
    have h1 : x + d - (xp j + d) = x - xp j := by ring
    have h2 : xp (j + 1) + d - (xp j + d) = xp (j + 1) - xp j := by ring
    rw [h1, h2]

end DV
