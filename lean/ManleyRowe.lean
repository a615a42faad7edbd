import Mathlib.Algebra.BigOperators.Ring.Finset
import Mathlib.Analysis.Complex.Basic
/-! Corollary of the right-hand-side contract of property C17 (obligations pump/signal/idler of
    the scenario "right-hand side" for one wavelength-independent mode area A):
      dY_p[m]/dz = i g Wp[m] conj(t_p[m]) conv[m],  E = t Y   (and alike for signal and idler)
    with the contracts of conv and corr.  The grids are extended by zero, h = n/2. -/
open Finset ComplexConjugate
variable (n : ℕ) (h : ℤ)

/-- a grid function extended by zero -/
def Supp (f : ℤ → ℂ) : Prop := ∀ k, (k < 0 ∨ (n : ℤ) ≤ k) → f k = 0
noncomputable def conv (a b : ℤ → ℂ) (m : ℤ) : ℂ := ∑ j ∈ Ico (0 : ℤ) n, a j * b (m + h - j)
noncomputable def corr (a b : ℤ → ℂ) (m : ℤ) : ℂ := ∑ r ∈ Ico (0 : ℤ) n, a (r + m - h) * conj (b r)

variable (P S I : ℤ → ℂ)
/-- triple interaction sum with an arbitrary weight -/
noncomputable def X (w : ℤ → ℤ → ℂ) : ℂ := ∑ j ∈ Ico (0 : ℤ) n, ∑ r ∈ Ico (0 : ℤ) n, w j r * (conj (P (j + r - h)) * (S j * I r))

theorem shift_sum (f : ℤ → ℂ) (c : ℤ) (hf : ∀ k, (k < 0 ∨ (n : ℤ) ≤ k) → f k = 0) (g : ℤ → ℂ)
    (hg : ∀ k, (k < 0 ∨ (n : ℤ) ≤ k) → g k = 0) :
    ∑ m ∈ Ico (0 : ℤ) n, f m * g (m + c) = ∑ r ∈ Ico (0 : ℤ) n, f (r - c) * g r := by
  have e1 : ∑ m ∈ Ico (0 : ℤ) n, f m * g (m + c) = ∑ m ∈ Ico (min 0 (-c)) (max (n : ℤ) (n - c)), f m * g (m + c) := by
    apply sum_subset
    · intro x hx; simp only [mem_Ico] at *; constructor <;> [exact (min_le_left _ _).trans hx.1; exact lt_of_lt_of_le hx.2 (le_max_left _ _)]
    · intro x _ hx; simp only [mem_Ico] at hx; rw [hf x (by omega)]; simp
  have e2 : ∑ r ∈ Ico (0 : ℤ) n, f (r - c) * g r = ∑ r ∈ Ico (min 0 (-c) + c) (max (n : ℤ) (n - c) + c), f (r - c) * g r := by
    apply sum_subset
    · intro x hx; simp only [mem_Ico] at *
      have a := min_le_right (0 : ℤ) (-c); have b := le_max_right (n : ℤ) (n - c)
      constructor <;> omega
    · intro x _ hx; simp only [mem_Ico] at hx; rw [hg x (by omega)]; simp
  rw [e1, e2]
  apply sum_bij (fun m _ => m + c)
  · intro a ha; simp only [mem_Ico] at *; omega
  · intro a _ b _ hab; omega
  · intro b hb; refine ⟨b - c, ?_, by ring⟩; simp only [mem_Ico] at *; omega
  · intro a _; simp

/-- pump: sum over the pump grid = triple sum, for any weight depending on the pump point -/
theorem pump_sum (hP : Supp n P) (hI : Supp n I) (w : ℤ → ℂ) :
    ∑ m ∈ Ico (0 : ℤ) n, w m * (conj (P m) * conv n h S I m) = X n h P S I (fun j r => w (j + r - h)) := by
  unfold conv X
  simp_rw [mul_sum]
  rw [sum_comm]
  apply sum_congr rfl; intro j _
  have := shift_sum n (fun m => w m * (conj (P m) * S j)) (h - j)
    (fun k hk => by simp [hP k hk]) I (fun k hk => hI k hk)
  calc _ = ∑ m ∈ Ico (0 : ℤ) n, (w m * (conj (P m) * S j)) * I (m + (h - j)) := by
        apply sum_congr rfl; intro m _; rw [show m + h - j = m + (h - j) by ring]; ring
    _ = _ := this
    _ = _ := by apply sum_congr rfl; intro r _; simp only [show r - (h - j) = j + r - h by ring]; ring

theorem signal_sum (w : ℤ → ℂ) :
    ∑ j ∈ Ico (0 : ℤ) n, w j * (conj (S j) * corr n h P I j) = conj (X n h P S I (fun j _ => conj (w j))) := by
  unfold corr X
  simp_rw [mul_sum, map_sum, map_mul, Complex.conj_conj]
  apply sum_congr rfl; intro j _; apply sum_congr rfl; intro r _
  rw [show r + j - h = j + r - h by ring]; ring

theorem idler_sum (w : ℤ → ℂ) :
    ∑ r ∈ Ico (0 : ℤ) n, w r * (conj (I r) * corr n h P S r) = conj (X n h P S I (fun _ r => conj (w r))) := by
  unfold corr X
  simp_rw [mul_sum, map_sum, map_mul, Complex.conj_conj]
  rw [sum_comm]
  apply sum_congr rfl; intro j _; apply sum_congr rfl; intro r _; ring

/-- rate of change of |Y|^2 summed with weight 1/W: photon number (g real; t Y = E) -/
noncomputable def rate (g : ℝ) (E src : ℤ → ℂ) (W : ℤ → ℝ) : ℝ :=
  ∑ m ∈ Ico (0 : ℤ) n, 2 * ((Complex.I * g * W m) * (conj (E m) * src m)).re

theorem rate_eq (g : ℝ) (E src : ℤ → ℂ) (W : ℤ → ℝ) :
    rate n g E src W = 2 * (Complex.I * g * ∑ m ∈ Ico (0 : ℤ) n, (W m : ℂ) * (conj (E m) * src m)).re := by
  unfold rate
  rw [← mul_sum, Finset.mul_sum (s := Ico (0:ℤ) n) (a := Complex.I * (g:ℂ)), ← Complex.reCLM_apply, map_sum]
  simp only [Complex.reCLM_apply]
  congr 1; apply sum_congr rfl; intro m _; congr 1; ring

/-- d(|y|^2)/dz = 2 Re(conj y * y') and y' = i g W conj(t) src gives the summand of `rate` -/
theorem summand (g W : ℝ) (y t src : ℂ) :
    2 * (conj y * (Complex.I * g * W * (conj t * src))).re = 2 * ((Complex.I * g * W) * (conj (t * y) * src)).re := by
  rw [map_mul]; congr 2; ring

theorem re_I_mul_conj (g : ℝ) (z : ℂ) : (Complex.I * g * conj z).re = -(Complex.I * g * z).re + 0 := by
  simp [Complex.mul_re, Complex.mul_im]

/-- Manley-Rowe: one pump photon less for every signal photon and every idler photon more -/
theorem manley_rowe_signal (hP : Supp n P) (hI : Supp n I) (g : ℝ) :
    rate n g S (corr n h P I) (fun _ => 1) = - rate n g P (conv n h S I) (fun _ => 1) := by
  rw [rate_eq, rate_eq]
  have a := pump_sum n h P S I hP hI (fun _ => 1)
  have b := signal_sum n h P S I (fun _ => 1)
  simp only [Complex.ofReal_one, map_one] at *
  rw [a, b, re_I_mul_conj]; ring

theorem manley_rowe_idler (hP : Supp n P) (hI : Supp n I) (g : ℝ) :
    rate n g I (corr n h P S) (fun _ => 1) = - rate n g P (conv n h S I) (fun _ => 1) := by
  rw [rate_eq, rate_eq]
  have a := pump_sum n h P S I hP hI (fun _ => 1)
  have b := idler_sum n h P S I (fun _ => 1)
  simp only [Complex.ofReal_one, map_one] at *
  rw [a, b, re_I_mul_conj]; ring

/-- total power is constant: the frequencies of coupled points add up -/
theorem power_conserved (hP : Supp n P) (hI : Supp n I) (g : ℝ) (Wp Ws Wi : ℤ → ℝ)
    (hW : ∀ j r, Wp (j + r - h) = Ws j + Wi r) :
    rate n g P (conv n h S I) Wp + rate n g S (corr n h P I) Ws + rate n g I (corr n h P S) Wi = 0 := by
  rw [rate_eq, rate_eq, rate_eq]
  rw [pump_sum n h P S I hP hI (fun m => (Wp m : ℂ)), signal_sum n h P S I (fun m => (Ws m : ℂ)), idler_sum n h P S I (fun m => (Wi m : ℂ))]
  simp only [Complex.conj_ofReal]
  rw [re_I_mul_conj, re_I_mul_conj]
  have : X n h P S I (fun j r => ((Wp (j + r - h) : ℝ) : ℂ)) = X n h P S I (fun j _ => (Ws j : ℂ)) + X n h P S I (fun _ r => (Wi r : ℂ)) := by
    unfold X
    rw [← sum_add_distrib]; apply sum_congr rfl; intro j _
    rw [← sum_add_distrib]; apply sum_congr rfl; intro r _
    beta_reduce
    rw [hW j r]; push_cast; ring
  rw [this, mul_add, Complex.add_re]; ring

/-- the frequencies of the three grids (idler centre at the difference) satisfy the hypothesis -/
theorem grids (fs fi T c : ℝ) (j r : ℤ) :
    c * (fs + fi + (((j + r - h : ℤ) : ℝ) - h) / T) = c * (fs + ((j : ℝ) - h) / T) + c * (fi + ((r : ℝ) - h) / T) := by
  push_cast; ring
#print axioms manley_rowe_signal
#print axioms manley_rowe_idler
#print axioms power_conserved
#print axioms summand
#print axioms grids
