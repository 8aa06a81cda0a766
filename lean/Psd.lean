import Mathlib.LinearAlgebra.Matrix.PosDef
import Mathlib.Data.Real.StarOrdered
open Matrix

/-- a congruence of a positive semidefinite matrix is positive semidefinite -/
theorem congruence_psd {n m : Type*} [Fintype n] [Fintype m] [DecidableEq n] [DecidableEq m]
    (Y : Matrix n n ℝ) (B : Matrix m n ℝ) (h : Y.PosSemidef) : (B * Y * Bᵀ).PosSemidef := by
  have := h.mul_mul_conjTranspose_same B
  simpa using this

/-- sums of positive semidefinite matrices are positive semidefinite -/
theorem sum_psd {n : Type*} [Fintype n] (X Y : Matrix n n ℝ) (hx : X.PosSemidef) (hy : Y.PosSemidef) :
    (X + Y).PosSemidef := hx.add hy

/-- the inverse of a positive semidefinite (in particular definite) matrix is positive semidefinite -/
theorem inv_psd {n : Type*} [Fintype n] [DecidableEq n] (S : Matrix n n ℝ) (h : S.PosSemidef) :
    (S⁻¹).PosSemidef := h.inv
