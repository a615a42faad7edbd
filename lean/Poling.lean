import Mathlib.Tactic
/-! Domain boundaries of the poling contract (property C18): Z 0 = 0, Z (k+1) = Z k + pp (Z k), periods positive. -/
theorem domains_ordered (Z : ℕ → ℝ) (pp : ℝ → ℝ) (hpp : ∀ x, 0 < pp x) (hZ : ∀ k, Z (k + 1) = Z k + pp (Z k))
    (a b : ℕ) (h : a < b) : Z (a + 1) ≤ Z b := by
  have m : StrictMono Z := strictMono_nat_of_lt_succ (fun k => by rw [hZ k]; linarith [hpp (Z k)])
  exact m.monotone h

/-- the domains exist: the recursion has exactly one solution -/
theorem domains_exist (pp : ℝ → ℝ) : ∃! Z : ℕ → ℝ, Z 0 = 0 ∧ ∀ k, Z (k + 1) = Z k + pp (Z k) := by
  refine ⟨fun k => Nat.rec 0 (fun _ z => z + pp z) k, ⟨rfl, fun k => rfl⟩, ?_⟩
  rintro Y ⟨h0, hs⟩
  funext k
  induction k with
  | zero => exact h0
  | succ k ih => rw [hs k, ih]

/-- with one constant period the domains are the multiples of the period -/
theorem constant_period (Z : ℕ → ℝ) (p : ℝ) (h0 : Z 0 = 0) (hZ : ∀ k, Z (k + 1) = Z k + p) (k : ℕ) : Z k = k * p := by
  induction k with
  | zero => simp [h0]
  | succ k ih => rw [hZ k, ih]; push_cast; ring

#print axioms domains_ordered
#print axioms domains_exist
#print axioms constant_period
