/-
Lemmas of algebra that the contracts of /verif/contracts use as axioms (gover/logic.py).
`hor`, `bas` and `lag` are the recursions of the axioms, over an arbitrary field F; that the
bytes with xor, gm and gi are a field is checked exhaustively by gover/gf.py on every run.
-/
import Mathlib.LinearAlgebra.Lagrange

open Polynomial

namespace Shamir

variable {F : Type*} [Field F]

/-- Horner evaluation of the coefficients j..d, where k = d - j steps are left:
    hor(M,d,d,..) = M d; hor(M,j,d,..) = M j + x * hor(M,j+1,d,..) -/
def horK (a : ℕ → F) (d : ℕ) (x : F) : ℕ → F
  | 0 => a d
  | k + 1 => a (d - (k + 1)) + x * horK a d x k

def hor (a : ℕ → F) (j d : ℕ) (x : F) : F := horK a d x (d - j)

theorem hor_self (a : ℕ → F) (d : ℕ) (x : F) : hor a d d x = a d := by simp [hor, horK]

theorem hor_step (a : ℕ → F) (j d : ℕ) (x : F) (h : j < d) :
    hor a j d x = a j + x * hor a (j + 1) d x := by
  unfold hor
  obtain ⟨k, hk⟩ : ∃ k, d - j = k + 1 := ⟨d - j - 1, by omega⟩
  have h2 : d - (j + 1) = k := by omega
  have h3 : d - (k + 1) = j := by omega
  rw [hk, h2, horK, h3]

theorem hor_zero (a : ℕ → F) (j d : ℕ) (h : j ≤ d) : hor a j d 0 = a j := by
  rcases Nat.lt_or_ge j d with h1 | h1
  · rw [hor_step a j d 0 h1]; simp
  · have : j = d := by omega
    subst this; exact hor_self a j 0

/-- the product over the first j points of (x - X j) / (X i - X j), skipping i -/
def bas (X : ℕ → F) (x : F) (i : ℕ) : ℕ → F
  | 0 => 1
  | j + 1 => if i = j then bas X x i j else bas X x i j * ((x - X j) * (X i - X j)⁻¹)

def lag (X Y : ℕ → F) (x : F) (m : ℕ) : ℕ → F
  | 0 => 0
  | i + 1 => lag X Y x m i + Y i * bas X x i m

theorem bas_eq (X : ℕ → F) (x : F) (i m : ℕ) :
    bas X x i m = ∏ j ∈ (Finset.range m).erase i, ((x - X j) * (X i - X j)⁻¹) := by
  induction m with
  | zero => simp [bas]
  | succ m ih =>
    by_cases h : i = m
    · subst h
      simp only [bas, if_true, ih]
      congr 1
      ext j
      simp only [Finset.mem_erase, Finset.mem_range]
      omega
    · have hs : (Finset.range (m + 1)).erase i = insert m ((Finset.range m).erase i) := by
        ext j
        simp only [Finset.mem_erase, Finset.mem_range, Finset.mem_insert]
        omega
      have hn : m ∉ (Finset.range m).erase i := by simp
      rw [hs, Finset.prod_insert hn, bas, if_neg h, ih, mul_comm]

theorem lag_eq (X Y : ℕ → F) (x : F) (m n : ℕ) :
    lag X Y x m n = ∑ i ∈ Finset.range n, Y i * bas X x i m := by
  induction n with
  | zero => simp [lag]
  | succ n ih => rw [lag, ih, Finset.sum_range_succ]

noncomputable def pol (a : ℕ → F) (d : ℕ) : F[X] := ∑ i ∈ Finset.range (d + 1), C (a i) * X ^ i

theorem hor_sum (a : ℕ → F) (d : ℕ) (x : F) (k : ℕ) (h : k ≤ d) :
    horK a d x k = ∑ i ∈ Finset.range (k + 1), a (d - k + i) * x ^ i := by
  induction k with
  | zero => simp [horK]
  | succ k ih =>
    rw [horK, ih (by omega), Finset.sum_range_succ' _ (k + 1), Finset.mul_sum, add_comm]
    congr 1
    · apply Finset.sum_congr rfl
      intro i _
      have : d - (k + 1) + (i + 1) = d - k + i := by omega
      rw [this, pow_succ]; ring
    · simp

theorem hor_eval (a : ℕ → F) (d : ℕ) (x : F) : hor a 0 d x = (pol a d).eval x := by
  rw [hor, Nat.sub_zero, hor_sum a d x d le_rfl, pol, eval_finsetSum]
  apply Finset.sum_congr rfl
  intro i _
  simp

theorem pol_degree (a : ℕ → F) (d m : ℕ) (h : d < m) : (pol a d).degree < m := by
  unfold pol
  refine lt_of_le_of_lt (degree_sum_le _ _) ?_
  rw [Finset.sup_lt_iff (by exact_mod_cast WithBot.bot_lt_coe m)]
  intro i hi
  refine lt_of_le_of_lt (degree_C_mul_X_pow_le i (a i)) ?_
  have : i < m := by have := Finset.mem_range.mp hi; omega
  exact_mod_cast this

/-- lag is the value of Mathlib's interpolating polynomial -/
theorem lag_interpolate (X' Y : ℕ → F) (x : F) (m : ℕ) :
    lag X' Y x m m = (Lagrange.interpolate (Finset.range m) X' Y).eval x := by
  rw [lag_eq, Lagrange.interpolate_apply, eval_finsetSum]
  apply Finset.sum_congr rfl
  intro i _
  rw [eval_mul, eval_C, bas_eq, Lagrange.basis, eval_prod]
  congr 1
  apply Finset.prod_congr rfl
  intro j _
  simp only [Lagrange.basisDivisor, eval_mul, eval_C, eval_sub, eval_X]
  ring

/-- the interpolation axiom: shares on a polynomial of degree d < m determine it -/
theorem combine_split (a X' Y : ℕ → F) (x : F) (d m : ℕ) (hd : d < m)
    (hX : ∀ u v, u < v → v < m → X' u ≠ X' v)
    (hY : ∀ w, w < m → Y w = hor a 0 d (X' w)) :
    lag X' Y x m m = hor a 0 d x := by
  rw [lag_interpolate, hor_eval]
  have hinj : Set.InjOn X' (Finset.range m : Set ℕ) := by
    intro u hu v hv h
    simp only [Finset.coe_range, Set.mem_Iio] at hu hv
    rcases Nat.lt_trichotomy u v with h1 | h1 | h1
    · exact absurd h (hX u v h1 hv)
    · exact h1
    · exact absurd h.symm (hX v u h1 hu)
  have := Lagrange.eq_interpolate_of_eval_eq (s := Finset.range m) (v := X') Y hinj
    (f := pol a d) (by simpa using pol_degree a d m hd)
    (fun w hw => by rw [hY w (Finset.mem_range.mp hw), hor_eval])
  rw [← this]

/-- perfect secrecy, the counting step: whatever the secret s and the bytes y seen at d distinct
    non-zero x, exactly one choice of the d other coefficients explains them -/
theorem secrecy (d : ℕ) (X' y : ℕ → F) (s : F)
    (hX : ∀ u v, u < v → v < d → X' u ≠ X' v) (h0 : ∀ u, u < d → X' u ≠ 0) :
    ∃! a : ℕ → F, a 0 = s ∧ (∀ j, d < j → a j = 0) ∧ ∀ w, w < d → hor a 0 d (X' w) = y w := by
  -- the points (X' 0, y 0) .. (X' (d-1), y (d-1)) and (0, s)
  let X2 : ℕ → F := fun i => if i < d then X' i else 0
  let Y2 : ℕ → F := fun i => if i < d then y i else s
  have hinj : Set.InjOn X2 (Finset.range (d + 1) : Set ℕ) := by
    intro u hu v hv h
    simp only [Finset.coe_range, Set.mem_Iio] at hu hv
    simp only [X2] at h
    by_cases hu' : u < d <;> by_cases hv' : v < d <;> simp only [hu', hv', if_true, if_false] at h
    · rcases Nat.lt_trichotomy u v with h1 | h1 | h1
      · exact absurd h (hX u v h1 hv')
      · exact h1
      · exact absurd h.symm (hX v u h1 hu')
    · exact absurd h (h0 u hu')
    · exact absurd h.symm (h0 v hv')
    · omega
  let P := Lagrange.interpolate (Finset.range (d + 1)) X2 Y2
  have hPdeg : P.degree < (d + 1 : ℕ) := by
    have h := Lagrange.degree_interpolate_lt (s := Finset.range (d + 1)) (v := X2) Y2 hinj
    rwa [Finset.card_range] at h
  have hPev : ∀ i, i < d + 1 → P.eval (X2 i) = Y2 i := fun i hi =>
    Lagrange.eval_interpolate_at_node Y2 hinj (Finset.mem_range.mpr hi)
  have hpol : pol (fun j => P.coeff j) d = P := by
    rw [pol]
    conv_rhs => rw [P.as_sum_range_C_mul_X_pow' (n := d + 1) (by
      rcases eq_or_ne P 0 with h | h
      · rw [h]; simp
      · exact (natDegree_lt_iff_degree_lt h).mpr hPdeg)]
  refine ⟨fun j => P.coeff j, ⟨?_, ?_, ?_⟩, ?_⟩
  · have := hPev d (by omega)
    simp only [X2, Y2, lt_irrefl, if_false] at this
    rw [← this]
    exact coeff_zero_eq_eval_zero P
  · intro j hj
    apply coeff_eq_zero_of_degree_lt
    exact lt_of_lt_of_le hPdeg (by exact_mod_cast hj)
  · intro w hw
    rw [hor_eval, hpol]
    have := hPev w (by omega)
    simpa [X2, Y2, hw] using this
  · rintro b ⟨hb0, hbd, hbw⟩
    have hPb : pol b d = P := by
      refine Lagrange.eq_interpolate_of_eval_eq (s := Finset.range (d + 1)) (v := X2) Y2 hinj ?_ ?_
      · simpa using pol_degree b d (d + 1) (by omega)
      · intro i hi
        have hi := Finset.mem_range.mp hi
        by_cases h : i < d
        · simp only [X2, Y2, h, if_true]
          rw [← hor_eval]; exact hbw i h
        · simp only [X2, Y2, h, if_false]
          rw [← hor_eval, hor_zero b 0 d (by omega), hb0]
    funext j
    show b j = P.coeff j
    rw [← hPb, pol, finsetSum_coeff]
    simp only [coeff_C_mul_X_pow]
    by_cases h : j < d + 1
    · rw [Finset.sum_ite_eq]; simp [h]
    · rw [Finset.sum_ite_eq, hbd j (by omega)]; simp [h]

end Shamir

#print axioms Shamir.combine_split
#print axioms Shamir.hor_zero
#print axioms Shamir.secrecy
