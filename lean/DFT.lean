import Mathlib.Analysis.Fourier.ZMod
/-! The rewriting rules for discrete Fourier transforms that /verif/vc/terms.py applies
    (functions mk_fft, _fft1, _fft2, _sum1), proved for every length N. -/
open ZMod ComplexConjugate AddChar Finset
variable {N : ℕ} [NeZero N] (x y : ZMod N → ℂ)

/-- the transform used is the one of numpy.fft.fft -/
theorem dft_numpy (k : ℤ) : 𝓕 x (k : ZMod N) = ∑ j : ZMod N, x j * Complex.exp (-2 * Real.pi * Complex.I * (j.val : ℂ) * k / N) := by
  rw [dft_apply]; apply sum_congr rfl; intro j _
  rw [smul_eq_mul, mul_comm]; congr 1
  have e : -(j * (k : ZMod N)) = ((-(j.val : ℤ) * k : ℤ) : ZMod N) := by
    push_cast; rw [ZMod.natCast_zmod_val]; ring
  rw [e, stdAddChar_coe]; congr 1; push_cast; ring

theorem twice (k : ZMod N) : 𝓕 (𝓕 x) k = N * x (-k) := by rw [dft_dft]; simp
theorem inverse (k : ZMod N) : (N : ℂ)⁻¹ * 𝓕 (𝓕 x) (-k) = x k := by
  rw [twice, neg_neg]; field_simp [NeZero.ne N]
theorem linear (a b : ℂ) (k : ZMod N) : 𝓕 (fun j => a * x j + b * y j) k = a * 𝓕 x k + b * 𝓕 y k := by
  simp only [dft_apply, smul_eq_mul, mul_sum, ← sum_add_distrib]; apply sum_congr rfl; intro j _; ring
theorem reflect (k : ZMod N) : 𝓕 (fun j => x (-j)) k = 𝓕 x (-k) := by rw [dft_comp_neg]
theorem impulse (c k : ZMod N) : 𝓕 (fun j => if j = c then (1 : ℂ) else 0) k = stdAddChar (-(c * k)) := by
  simp [dft_apply]
theorem shift (k₀ k : ZMod N) : 𝓕 (fun j => stdAddChar (k₀ * j) * x j) k = 𝓕 x (k - k₀) := by
  simp only [dft_apply, smul_eq_mul]; apply sum_congr rfl; intro j _
  rw [← mul_assoc, ← map_add_eq_mul]; congr 2; ring
theorem constant (c : ℂ) (k : ZMod N) : 𝓕 (fun _ => c) k = if k = 0 then N * c else 0 := by
  have h : (fun _ : ZMod N => c) = fun j => c * 𝓕 (fun j : ZMod N => if j = 0 then (1 : ℂ) else 0) j := by
    funext j; rw [impulse]; simp
  rw [h, dft_const_mul]; beta_reduce; rw [twice]
  by_cases hk : k = 0 <;> simp [hk]; ring
theorem conjugate (k : ZMod N) : conj (𝓕 x k) = 𝓕 (fun j => conj (x j)) (-k) := by
  simp only [dft_apply, smul_eq_mul, map_sum, map_mul]; apply sum_congr rfl; intro j _
  congr 1
  rw [stdAddChar_apply, stdAddChar_apply, show -(j * -k) = -(-(j * k)) by ring, AddChar.map_neg_eq_inv toCircle (-(j*k))]
  exact (Circle.coe_inv_eq_conj _).symm
theorem reindex (f : ZMod N → ℂ) (c : ZMod N) : ∑ v, f (v + c) = ∑ v, f v := Equiv.sum_comp (Equiv.addRight c) f
theorem reindex_neg (f : ZMod N → ℂ) (c : ZMod N) : ∑ v, f (c - v) = ∑ v, f v := Equiv.sum_comp (Equiv.subLeft c) f
theorem total : ∑ k, 𝓕 x k = N * x 0 := by
  have := twice x 0; rw [dft_apply_zero] at this; simpa using this
theorem product_of_spectra (k : ZMod N) : 𝓕 (fun v => 𝓕 x v * 𝓕 y v) k = N * ∑ w, x w * y (-k - w) := by
  have e : ∀ v, 𝓕 x v * 𝓕 y v = ∑ w, x w * (stdAddChar (-w * v) * 𝓕 y v) := by
    intro v; conv_lhs => rw [dft_apply]
    rw [sum_mul]; apply sum_congr rfl; intro w _; rw [smul_eq_mul]; ring_nf
  rw [dft_apply]; simp only [smul_eq_mul]
  simp_rw [e, mul_sum]; rw [sum_comm]; apply sum_congr rfl; intro w _
  have := shift (𝓕 y) (-w) k
  rw [twice] at this
  rw [dft_apply] at this
  simp only [smul_eq_mul] at this
  calc _ = x w * ∑ v, stdAddChar (-(v * k)) * (stdAddChar (-w * v) * 𝓕 y v) := by
        rw [mul_sum]; apply sum_congr rfl; intro v _; ring
    _ = _ := by rw [this]; rw [show -(k - -w) = -k - w by ring]; ring
theorem plancherel : ∑ k, 𝓕 x k * 𝓕 y (-k) = N * ∑ j, x j * y j := by
  have h := product_of_spectra x (fun j => y (-j)) 0
  rw [dft_apply_zero] at h
  simpa [reflect] using h
#print axioms dft_numpy
#print axioms twice
#print axioms inverse
#print axioms linear
#print axioms reflect
#print axioms impulse
#print axioms shift
#print axioms constant
#print axioms conjugate
#print axioms reindex
#print axioms reindex_neg
#print axioms total
#print axioms product_of_spectra
#print axioms plancherel
