import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.BigOperators.Intervals

open Finset

/-- a sum over 0..n-1 is unchanged when the terms are rearranged by a bijection h with inverse g -/
theorem perm_sum (n : ℕ) (h g : ℕ → ℕ) (D : ℕ → ℤ)
    (hr : ∀ i < n, h i < n ∧ g (h i) = i) (gr : ∀ i < n, g i < n ∧ h (g i) = i) :
    ∑ i ∈ range n, D (h i) = ∑ i ∈ range n, D i := by
  refine sum_nbij' h g ?_ ?_ ?_ ?_ ?_
  · intro i hi; exact mem_range.2 (hr i (mem_range.1 hi)).1
  · intro i hi; exact mem_range.2 (gr i (mem_range.1 hi)).1
  · intro i hi; exact (hr i (mem_range.1 hi)).2
  · intro i hi; exact (gr i (mem_range.1 hi)).2
  · intro i _; rfl

/-- a running total is the sum -/
theorem rec_sum (n : ℕ) (D S : ℕ → ℤ) (S0 : S 0 = 0) (Ss : ∀ k < n, S (k + 1) = S k + D k) :
    S n = ∑ i ∈ range n, D i := by
  induction n with
  | zero => simpa using S0
  | succ m ih =>
    rw [sum_range_succ, ← ih (fun k hk => Ss k (Nat.lt_succ_of_lt hk)), Ss m (Nat.lt_succ_self m)]

/-- the form used by the verifier: running totals of a sequence and of its rearrangement end at the same value -/
theorem perm_rec (n : ℕ) (h g : ℕ → ℕ) (D S T : ℕ → ℤ)
    (hr : ∀ i < n, h i < n ∧ g (h i) = i) (gr : ∀ i < n, g i < n ∧ h (g i) = i)
    (S0 : S 0 = 0) (Ss : ∀ k < n, S (k + 1) = S k + D k)
    (T0 : T 0 = 0) (Ts : ∀ k < n, T (k + 1) = T k + D (h k)) : T n = S n := by
  rw [rec_sum n D S S0 Ss, rec_sum n (fun k => D (h k)) T T0 Ts]
  exact perm_sum n h g D hr gr

/-- the count of entries below v is the same before and after a rearrangement -/
theorem perm_count (n : ℕ) (h g : ℕ → ℕ) (key new : ℕ → ℤ) (v : ℤ) (S T : ℕ → ℤ)
    (hr : ∀ i < n, h i < n ∧ g (h i) = i) (gr : ∀ i < n, g i < n ∧ h (g i) = i)
    (hn : ∀ i < n, new i = key (h i))
    (S0 : S 0 = 0) (Ss : ∀ k < n, S (k + 1) = S k + (if key k < v then 1 else 0))
    (T0 : T 0 = 0) (Ts : ∀ k < n, T (k + 1) = T k + (if new k < v then 1 else 0)) : T n = S n := by
  refine perm_rec n h g (fun k => if key k < v then 1 else 0) S T hr gr S0 Ss T0 ?_
  intro k hk
  rw [Ts k hk, hn k hk]

#print axioms perm_rec
#print axioms perm_count
