/-
The mathematical facts that /verif/pyvc hands to the solvers as axioms, proved from their definitions.
Numbers that the generator guards with ">= 0" are natural numbers here.
Check:  lean lemmas/Lemmas.lean     (tools/lemmas.sh; not part of the checks, these facts do not depend on /repo)
-/
import Mathlib

open Finset

namespace Pow

theorem pow2_zero : (2:ℕ)^0 = 1 := rfl
theorem pow2_big (n : ℕ) : n + 1 ≤ 2^n := Nat.lt_two_pow_self
theorem pow2_step (n m : ℕ) (h : m = n + 1) : 2^m = 2 * 2^n := by subst h; ring
theorem pow2_mono (n m : ℕ) (h : n < m) : 2 * 2^n ≤ 2^m := by
  have : 2^(n+1) ≤ 2^m := Nat.pow_le_pow_right (by norm_num) h
  calc 2 * 2^n = 2^(n+1) := by ring
    _ ≤ 2^m := this

/- real powers with a base >= 0 -/
theorem rpow_nonneg (a b : ℝ) (h : 0 ≤ a) : 0 ≤ a^b := Real.rpow_nonneg h b
theorem rpow_pos (a b : ℝ) (h : 0 < a) : 0 < a^b := Real.rpow_pos_of_pos h b
theorem rpow_zero (b : ℝ) (h : 0 < b) : (0:ℝ)^b = 0 := Real.zero_rpow h.ne'
theorem rpow_mono (a c b : ℝ) (h : 0 ≤ a) (hc : a < c) (hb : 0 < b) : a^b < c^b := Real.rpow_lt_rpow h hc hb

end Pow

namespace Div

theorem rdiv_sign (a c : ℝ) (h : 0 < c) : (0 < a / c ↔ 0 < a) ∧ (a / c = 0 ↔ a = 0) ∧ (1 ≤ a / c ↔ c ≤ a) := by
  refine ⟨?_, ?_, ?_⟩
  · exact div_pos_iff_of_pos_right h
  · simp [h.ne']
  · exact one_le_div h
theorem rdiv_mono (a b c : ℝ) (h : 0 < c) (hab : a < b) : a / c < b / c := div_lt_div_of_pos_right hab h
theorem rdiv_rdiv (x b c : ℝ) (hb : 0 < b) (hc : 0 < c) :
    (0 ≤ x → 0 ≤ x / (b / c)) ∧ (x ≤ b → x / (b / c) ≤ c) ∧ (x = b → x / (b / c) = c) := by
  have e : x / (b / c) = x / b * c := by field_simp
  rw [e]
  refine ⟨fun h => by positivity, fun h => ?_, fun h => by subst h; field_simp⟩
  have : x / b ≤ 1 := (div_le_one hb).2 h
  nlinarith
theorem rdiv_scale (u a c : ℝ) (ha : 0 < a) (hc : 0 < c) :
    (0 ≤ u → 0 ≤ u * (a / c)) ∧ (u ≤ c → u * (a / c) ≤ a) ∧ (u = c → u * (a / c) = a) ∧ (u = 0 → u * (a / c) = 0) := by
  have e : u * (a / c) = u / c * a := by field_simp
  rw [e]
  refine ⟨fun h => by positivity, fun h => ?_, fun h => by subst h; field_simp, fun h => by simp [h]⟩
  have : u / c ≤ 1 := (div_le_one hc).2 h
  nlinarith
/- the mean of m consecutive numbers, each shifted by j -/
theorem rdiv_range (lo j : ℝ) (m : ℕ) (h : 0 < m) :
    2 * ((∑ i ∈ range m, (lo + i)) + j * m) / m = 2 * lo + m - 1 + 2 * j := by
  have key : 2 * (∑ i ∈ range m, (lo + (i:ℝ))) = 2 * lo * m + m * (m - 1) := by
    clear h
    induction m with
    | zero => simp
    | succ k ih => rw [sum_range_succ, mul_add, ih]; push_cast; ring
  have hm : (m:ℝ) ≠ 0 := by exact_mod_cast h.ne'
  field_simp
  linarith
theorem sum_div (f : ℕ → ℝ) (c : ℝ) (n : ℕ) : ∑ i ∈ range n, f i / c = (∑ i ∈ range n, f i) / c := by
  rw [Finset.sum_div]
theorem mul_mono (a b c : ℝ) (h : 0 ≤ c) (hab : a ≤ b) : a * c ≤ b * c := mul_le_mul_of_nonneg_right hab h
theorem mul_mod (a b n : ℕ) (h : b < n) : (a * n + b) % n = b ∧ (a * n + b) / n = a := by
  have hn : 0 < n := by omega
  constructor
  · rw [Nat.add_comm, Nat.add_mul_mod_self_right, Nat.mod_eq_of_lt h]
  · rw [Nat.add_comm, Nat.add_mul_div_right _ _ hn, Nat.div_eq_of_lt h, Nat.zero_add]

end Div

namespace Sums

/- running sums of positive / non-negative numbers -/
theorem sum_strict (f : ℕ → ℝ) (a b n : ℕ) (h : ∀ i < n, 0 < f i) (hab : a < b) (hb : b ≤ n) :
    ∑ i ∈ range a, f i < ∑ i ∈ range b, f i := by
  apply sum_lt_sum_of_subset (i := a)
  · intro x hx; simp at *; omega
  · simpa using hab
  · simp
  · exact h a (by omega)
  · intro j hj _; simp at hj; exact (h j (by omega)).le
theorem sum_mono (f : ℕ → ℝ) (a b n : ℕ) (h : ∀ i < n, 0 ≤ f i) (hab : a < b) (hb : b ≤ n) :
    ∑ i ∈ range a, f i ≤ ∑ i ∈ range b, f i := by
  apply sum_le_sum_of_subset_of_nonneg
  · intro x hx; simp at *; omega
  · intro j hj _; simp at hj; exact h j (by omega)
theorem sum_pos (f : ℕ → ℝ) (a n : ℕ) (h : ∀ i < n, 0 < f i) (ha : 0 < a) (hn : a ≤ n) : 0 < ∑ i ∈ range a, f i := by
  simpa using sum_strict f 0 a n h ha hn
/- numbers of 0 and 1 -/
theorem sum_count (f : ℕ → ℝ) (a n : ℕ) (h : ∀ i < n, 0 ≤ f i ∧ f i ≤ 1) (hn : a ≤ n) :
    0 ≤ ∑ i ∈ range a, f i ∧ ∑ i ∈ range a, f i ≤ a := by
  constructor
  · apply sum_nonneg; intro i hi; simp at hi; exact (h i (by omega)).1
  · calc ∑ i ∈ range a, f i ≤ ∑ i ∈ range a, (1:ℝ) := by
          apply sum_le_sum; intro i hi; simp at hi; exact (h i (by omega)).2
      _ = a := by simp
theorem sum_step (f : ℕ → ℝ) (a : ℕ) : ∑ i ∈ range (a + 1), f i = ∑ i ∈ range a, f i + f a := sum_range_succ f a

end Sums

namespace Filters

variable (c : ℕ → Prop) [DecidablePred c]

/- L k: accepted positions below k; mu: position of the x-th accepted one (Nat.nth); rk = L -/
def L (k : ℕ) : ℕ := Nat.count c k
theorem L_zero : L c 0 = 0 := Nat.count_zero c
theorem L_le (k : ℕ) : L c k ≤ k := Nat.count_le c
theorem L_step (k : ℕ) : L c (k + 1) = L c k + if c k then 1 else 0 := Nat.count_succ c k
theorem mu_range (K x : ℕ) (h : x < L c K) : Nat.nth c x < K := Nat.nth_lt_of_lt_count h
theorem mu_accepted (K x : ℕ) (h : x < L c K) : c (Nat.nth c x) := by
  apply Nat.nth_mem
  intro hf
  exact lt_of_lt_of_le h (Nat.count_le_card hf K)
theorem mu_rank (K x : ℕ) (h : x < L c K) : L c (Nat.nth c x) = x := by
  apply Nat.count_nth
  intro hf
  exact lt_of_lt_of_le h (Nat.count_le_card hf K)
theorem rank_mu (t : ℕ) (h : c t) : Nat.nth c (L c t) = t := Nat.nth_count h
theorem rank_range (K t : ℕ) (h : c t) (ht : t < K) : L c t < L c K := Nat.count_strict_mono h ht
theorem mu_mono (K x y : ℕ) (hxy : x < y) (h : y < L c K) : Nat.nth c x < Nat.nth c y := by
  by_contra hn
  have h1 := mu_rank c K x (by omega)
  have h2 := mu_rank c K y h
  have : L c (Nat.nth c y) ≤ L c (Nat.nth c x) := Nat.count_monotone c (by omega)
  omega

/- rejected positions below K mapped injectively into a set of m places: at least K - m are accepted -/
theorem filter_pigeonhole (K lo hi : ℕ) (w : ℕ → ℕ)
    (hr : ∀ t < K, ¬ c t → lo ≤ w t ∧ w t < hi)
    (hi' : ∀ s < K, ∀ t < K, ¬ c s → ¬ c t → w s = w t → s = t) : K ≤ L c K + (hi - lo) := by
  have h1 : L c K = ((range K).filter c).card := Nat.count_eq_card_filter_range c K
  have h2 : ((range K).filter (fun t => ¬ c t)).card ≤ (Ico lo hi).card := by
    apply card_le_card_of_injOn w
    · intro t ht
      simp at ht ⊢
      exact hr t ht.1 ht.2
    · intro s hs t ht he
      simp at hs ht
      exact hi' s hs.1 t ht.1 hs.2 ht.2 he
  have h3 := card_filter_add_card_filter_not (s := range K) c
  simp at h2 h3
  omega
theorem filter_once (K : ℕ) (h : ∀ s < K, ∀ t < K, ¬ c s → ¬ c t → s = t) : K ≤ L c K + 1 := by
  have := filter_pigeonhole c K 0 1 (fun _ => 0) (fun _ _ _ => ⟨le_refl _, Nat.one_pos⟩)
    (fun s hs t ht h1 h2 _ => h s hs t ht h1 h2)
  simpa using this

end Filters

namespace Concat

/- pieces of lengths d 0, d 1, ..; off i = start of piece i; every position lies in exactly one piece -/
variable (d : ℕ → ℕ)
def off (i : ℕ) : ℕ := ∑ j ∈ range i, d j
theorem off_step (i : ℕ) : off d (i + 1) = off d i + d i := sum_range_succ d i
theorem off_mono (i k : ℕ) (h : i < k) : off d i + d i ≤ off d k := by
  rw [← off_step]
  apply sum_le_sum_of_subset
  intro x hx; simp at *; omega
theorem owner_exists (k y : ℕ) (h : y < off d k) : ∃ o < k, off d o ≤ y ∧ y < off d o + d o := by
  induction k with
  | zero => simp [off] at h
  | succ k ih =>
    by_cases hk : y < off d k
    · obtain ⟨o, ho, h1⟩ := ih hk
      exact ⟨o, by omega, h1⟩
    · exact ⟨k, by omega, by omega, by rw [off_step] at h; exact h⟩
theorem owner_unique (i o y : ℕ) (hi : off d i ≤ y ∧ y < off d i + d i) (ho : off d o ≤ y ∧ y < off d o + d o) : o = i := by
  rcases Nat.lt_trichotomy o i with h | h | h
  · have := off_mono d o i h; omega
  · exact h
  · have := off_mono d i o h; omega

end Concat

namespace Finite

/- an injective map of {0..n-1} into itself reaches every element -/
theorem injective_surjective (n : ℕ) (p : ℕ → ℕ) (hr : ∀ i < n, p i < n)
    (hi : ∀ i < n, ∀ j < n, p i = p j → i = j) : ∀ t < n, ∃ i < n, p i = t := by
  intro t ht
  have hm : Set.MapsTo p (range n : Finset ℕ) (range n : Finset ℕ) := by intro x hx; simp at *; exact hr x hx
  have h := Finset.surjOn_of_injOn_of_card_le (s := range n) (t := range n) p hm
    (by intro a ha b hb he; simp at ha hb; exact hi a ha b hb he) (le_refl _)
  obtain ⟨i, hi1, hi2⟩ := h (show t ∈ ((range n : Finset ℕ) : Set ℕ) by simpa using ht)
  exact ⟨i, by simpa using hi1, hi2⟩

/- a finite non-empty strict order has a minimal element (some member has rank 1) -/
theorem minimal_exists (n : ℕ) (hn : 0 < n) (r : ℕ → ℕ → Prop) (hirr : ∀ a, ¬ r a a)
    (htr : ∀ a b c, r a b → r b c → r a c) : ∃ m < n, ∀ t < n, ¬ r t m := by
  induction n with
  | zero => omega
  | succ n ih =>
    rcases Nat.eq_zero_or_pos n with h0 | h0
    · subst h0; exact ⟨0, by omega, fun t ht => by have : t = 0 := by omega
                                                   subst this; exact hirr 0⟩
    · obtain ⟨m, hm, h⟩ := ih h0
      by_cases hr : r n m
      · refine ⟨n, by omega, fun t ht hc => ?_⟩
        rcases Nat.lt_succ_iff_lt_or_eq.1 ht with h1 | h1
        · exact h t h1 (htr t n m hc hr)
        · subst h1; exact hirr t hc
      · refine ⟨m, by omega, fun t ht hc => ?_⟩
        rcases Nat.lt_succ_iff_lt_or_eq.1 ht with h1 | h1
        · exact h t h1 hc
        · subst h1; exact hr hc

/- last position below K that satisfies c, or -1 -/
theorem last_exists (c : ℕ → Prop) (K : ℕ) :
    (∀ t < K, ¬ c t) ∨ ∃ w < K, c w ∧ ∀ t, w < t → t < K → ¬ c t := by
  induction K with
  | zero => left; intro t ht; omega
  | succ K ih =>
    by_cases h : c K
    · right; exact ⟨K, by omega, h, fun t h1 h2 => by omega⟩
    · rcases ih with ih | ⟨w, hw, h1, h2⟩
      · left; intro t ht
        rcases Nat.lt_succ_iff_lt_or_eq.1 ht with h3 | h3
        · exact ih t h3
        · subst h3; exact h
      · right; refine ⟨w, by omega, h1, fun t h3 h4 => ?_⟩
        rcases Nat.lt_succ_iff_lt_or_eq.1 h4 with h5 | h5
        · exact h2 t h3 h5
        · subst h5; exact h

end Finite

namespace Bits

def shr (v p : ℕ) : ℕ := v / 2^p
def bit (v p : ℕ) : Bool := v.testBit p

theorem shr_eq (v p : ℕ) : shr v p = v >>> p := (Nat.shiftRight_eq_div_pow v p).symm
theorem shr_zero (v : ℕ) : shr v 0 = v := by simp [shr]
theorem shr_shr (v a : ℕ) : shr (shr v a) 1 = shr v (a + 1) := by simp [shr, Nat.div_div_eq_div_mul, pow_succ]
theorem shr_step (v p : ℕ) : shr v p = 2 * shr v (p + 1) + (if bit v p then 1 else 0) := by
  rw [← shr_shr]
  have hb : (bit v p = true) = (shr v p % 2 = 1) := by
    simp only [bit, shr, Nat.testBit_eq_decide_div_mod_eq, decide_eq_true_eq]
  have e : shr (shr v p) 1 = shr v p / 2 := by simp [shr]
  rw [e]
  by_cases h : bit v p = true
  · have h2 : shr v p % 2 = 1 := by rw [← hb]; exact h
    rw [if_pos h]; omega
  · have h2 : ¬ shr v p % 2 = 1 := by rw [← hb]; exact h
    rw [if_neg h]; omega
theorem shr_le (v p : ℕ) : shr v p ≤ v := Nat.div_le_self _ _
theorem shr_zero_iff (v p : ℕ) : shr v p = 0 ↔ v < 2^p := by
  unfold shr
  exact Nat.div_eq_zero_iff_lt (by positivity)

/- number of digits of the binary notation -/
def blen (v : ℕ) : ℕ := max 1 v.size
theorem blen_pos (v : ℕ) : 1 ≤ blen v := le_max_left _ _
theorem blen_lt (v : ℕ) : v < 2^(blen v) := by
  have : v < 2^v.size := Nat.lt_size_self v
  exact lt_of_lt_of_le this (Nat.pow_le_pow_right (by norm_num) (le_max_right _ _))
theorem blen_le (v : ℕ) (h : 0 < v) : 2^(blen v - 1) ≤ v := by
  have hs : 0 < v.size := Nat.size_pos.2 h
  have : blen v = v.size := by unfold blen; omega
  rw [this]
  apply Nat.lt_size.1; omega
theorem blen_zero : blen 0 = 1 := by simp [blen]
theorem high_bits (v p : ℕ) (h : blen v ≤ p) : bit v p = false ∧ shr v p = 0 := by
  have hv : v < 2^p := lt_of_lt_of_le (blen_lt v) (Nat.pow_le_pow_right (by norm_num) h)
  exact ⟨Nat.testBit_lt_two_pow hv, (shr_zero_iff v p).2 hv⟩

/- exclusive or -/
theorem xor_zero_iff (a b : ℕ) : a ^^^ b = 0 ↔ a = b := Nat.xor_eq_zero_iff
theorem xor_right (a : ℕ) : a ^^^ 0 = a := Nat.xor_zero a
theorem xor_left (b : ℕ) : 0 ^^^ b = b := Nat.zero_xor b
theorem xor_lt (a b n : ℕ) (ha : a < 2^n) (hb : b < 2^n) : a ^^^ b < 2^n := Nat.xor_lt_two_pow ha hb

/- reading digits: W (a + 1) = 2 W a + digit a -/
def W (d : ℕ → Bool) : ℕ → ℕ
  | 0 => 0
  | a + 1 => 2 * W d a + (if d a then 1 else 0)
theorem W_lt (d : ℕ → Bool) (a : ℕ) : W d a < 2^a := by
  induction a with
  | zero => simp [W]
  | succ a ih => simp only [W, pow_succ]; split <;> omega

/- Gray code -/
def gray (v : ℕ) : ℕ := v ^^^ shr v 1
theorem gray_bit (v p : ℕ) : (gray v).testBit p = (v.testBit p ^^ v.testBit (p + 1)) := by
  simp [gray, shr_eq, Nat.testBit_xor, Nat.testBit_shiftRight, Nat.add_comm]
theorem gray_lt (v n : ℕ) (h : v < 2^n) : gray v < 2^n := by
  apply xor_lt _ _ _ h
  exact lt_of_le_of_lt (shr_le v 1) h
theorem gray_inj (u v : ℕ) (h : gray u = gray v) : u = v := by
  have hbit : ∀ p, (u.testBit p ^^ u.testBit (p + 1)) = (v.testBit p ^^ v.testBit (p + 1)) := by
    intro p; rw [← gray_bit, ← gray_bit, h]
  obtain ⟨n, hu, hv⟩ : ∃ n, u < 2^n ∧ v < 2^n := by
    refine ⟨u + v, ?_, ?_⟩
    · exact lt_of_lt_of_le Nat.lt_two_pow_self (Nat.pow_le_pow_right (by norm_num) (by omega))
    · exact lt_of_lt_of_le Nat.lt_two_pow_self (Nat.pow_le_pow_right (by norm_num) (by omega))
  have key : ∀ m ≤ n, u.testBit (n - m) = v.testBit (n - m) := by
    intro m
    induction m with
    | zero => intro _; simp [Nat.testBit_lt_two_pow hu, Nat.testBit_lt_two_pow hv]
    | succ m ih =>
      intro hm
      have h1 := ih (by omega)
      have h2 := hbit (n - (m + 1))
      have e : n - (m + 1) + 1 = n - m := by omega
      rw [e, h1] at h2
      revert h2
      cases u.testBit (n - (m + 1)) <;> cases v.testBit (n - (m + 1)) <;> cases v.testBit (n - m) <;> simp
  apply Nat.eq_of_testBit_eq
  intro i
  by_cases hi : i ≤ n
  · have := key (n - i) (by omega)
    have e : n - (n - i) = i := by omega
    rwa [e] at this
  · have hb : 2^n ≤ 2^i := Nat.pow_le_pow_right (by norm_num) (by omega)
    rw [Nat.testBit_lt_two_pow (lt_of_lt_of_le hu hb), Nat.testBit_lt_two_pow (lt_of_lt_of_le hv hb)]
theorem gray_surj (n g : ℕ) (h : g < 2^n) : ∃ v < 2^n, gray v = g :=
  Finite.injective_surjective (2^n) gray (fun i hi => gray_lt i n hi) (fun i _ j _ he => gray_inj i j he) g h
theorem gray_inverse (g : ℕ) : ∃ v, gray v = g := by
  obtain ⟨v, _, h⟩ := gray_surj g g Nat.lt_two_pow_self
  exact ⟨v, h⟩
noncomputable def ginv (g : ℕ) : ℕ := (gray_inverse g).choose
theorem gray_ginv (g : ℕ) : gray (ginv g) = g := (gray_inverse g).choose_spec
theorem ginv_gray (v : ℕ) : ginv (gray v) = v := gray_inj _ _ (gray_ginv _)
theorem ginv_lt_iff (g n : ℕ) : ginv g < 2^n ↔ g < 2^n := by
  constructor
  · intro h; rw [← gray_ginv g]; exact gray_lt _ _ h
  · intro h
    obtain ⟨v, hv, he⟩ := gray_surj n g h
    rw [← he, ginv_gray]; exact hv
/- one step of the decoding loop -/
theorem gray_shift (v k : ℕ) : shr (gray v) k = shr v k ^^^ shr v (k + 1) := by
  apply Nat.eq_of_testBit_eq
  intro i
  simp only [shr_eq, Nat.testBit_xor, Nat.testBit_shiftRight, gray_bit]
  congr 2
  omega
theorem gray_step (g k : ℕ) : (ginv g ^^^ shr (ginv g) k) ^^^ shr g k = ginv g ^^^ shr (ginv g) (k + 1) := by
  have h : shr g k = shr (ginv g) k ^^^ shr (ginv g) (k + 1) := by
    conv_lhs => rw [← gray_ginv g]
    exact gray_shift _ _
  rw [h, Nat.xor_assoc, ← Nat.xor_assoc (shr (ginv g) k), Nat.xor_self, Nat.zero_xor]
theorem gray_zero (g k : ℕ) : shr g k = 0 ↔ shr (ginv g) k = 0 := by
  rw [shr_zero_iff, shr_zero_iff, ginv_lt_iff]
/- the codes of neighbours differ in exactly one bit -/
theorem gray_adjacent (v : ℕ) : ∃ t, gray v ^^^ gray (v + 1) = 2^t := by
  induction v using Nat.strong_induction_on with
  | _ v ih =>
    have hg : ∀ w, gray w = 2 * gray (w / 2) + (if (w % 2 = 1) ≠ (w / 2 % 2 = 1) then 1 else 0) := by
      intro w
      apply Nat.eq_of_testBit_eq
      intro i
      cases i with
      | zero =>
        rw [gray_bit]
        simp only [Nat.testBit_zero, Nat.testBit_succ]
        rcases Nat.mod_two_eq_zero_or_one w with h | h <;> rcases Nat.mod_two_eq_zero_or_one (w/2) with h' | h' <;>
          simp [h, h']
      | succ i =>
        rw [gray_bit]
        simp only [Nat.testBit_succ]
        have : (2 * gray (w / 2) + (if (w % 2 = 1) ≠ (w / 2 % 2 = 1) then 1 else 0)) / 2 = gray (w / 2) := by
          split <;> omega
        rw [this, gray_bit, Nat.testBit_succ]
    rcases Nat.mod_two_eq_zero_or_one v with h | h
    · refine ⟨0, ?_⟩
      have e : (v + 1) / 2 = v / 2 := by omega
      rw [hg v, hg (v + 1), e]
      have h1 : (v + 1) % 2 = 1 := by omega
      have hx : ∀ a : ℕ, (2 * a) ^^^ (2 * a + 1) = 1 := by
        intro a
        apply Nat.eq_of_testBit_eq; intro i
        cases i with
        | zero => simp [Nat.testBit_zero]
        | succ i =>
          have : (2 * a + 1) / 2 = a := by omega
          rw [Nat.testBit_xor, Nat.testBit_succ, Nat.testBit_succ, this]; simp [Nat.testBit_succ]
      rcases Nat.mod_two_eq_zero_or_one (v / 2) with h' | h'
      · simp [h, h1, h', hx]
      · simp [h, h1, h']; rw [Nat.xor_comm]; exact hx _
    · have hlt : v / 2 < v := by omega
      obtain ⟨t, ht⟩ := ih (v / 2) hlt
      refine ⟨t + 1, ?_⟩
      have e : (v + 1) / 2 = v / 2 + 1 := by omega
      have h1 : (v + 1) % 2 = 0 := by omega
      rw [hg v, hg (v + 1), e]
      have hx : ∀ a b c : ℕ, c ≤ 1 → (2 * a + c) ^^^ (2 * b + c) = 2 * (a ^^^ b) := by
        intro a b c hc
        apply Nat.eq_of_testBit_eq; intro i
        cases i with
        | zero =>
          have h1 : (2 * a + c) % 2 = c := by omega
          have h2 : (2 * b + c) % 2 = c := by omega
          rw [Nat.testBit_xor, Nat.testBit_zero, Nat.testBit_zero, Nat.testBit_zero, h1, h2]; simp
        | succ i =>
          have h1 : (2 * a + c) / 2 = a := by omega
          have h2 : (2 * b + c) / 2 = b := by omega
          rw [Nat.testBit_xor, Nat.testBit_succ, Nat.testBit_succ, Nat.testBit_succ, h1, h2]; simp
      have hc : (if ((v + 1) % 2 = 1) ≠ ((v / 2 + 1) % 2 = 1) then 1 else 0) = (if (v % 2 = 1) ≠ (v / 2 % 2 = 1) then 1 else 0) := by
        rcases Nat.mod_two_eq_zero_or_one (v / 2) with h' | h'
        · have : (v / 2 + 1) % 2 = 1 := by omega
          simp [h, h1, h', this]
        · have : (v / 2 + 1) % 2 = 0 := by omega
          simp [h, h1, h', this]
      rw [hc, hx _ _ _ (by split <;> omega), ht, pow_succ]; ring

end Bits
