"""Integer arithmetic: powers, gcd, divisibility, roots, valuations."""
from pyvc.theory import begin, fn, lemma, raw

begin('arith')
fn('powZ', 'int, int -> int', 'fun a k => a ^ k.toNat')
fn('gcdZ', 'int, int -> int', 'fun a b => (Int.gcd a b : ℤ)')
fn('lcmZ', 'int, int -> int', 'fun a b => (Int.lcm a b : ℤ)')
fn('bitlen', 'int -> int', 'fun n => (Nat.size n.natAbs : ℤ)')
fn('dvd', 'int, int -> bool', 'fun a b => a ∣ b')

lemma('powZ_zero', 'a:int', 'powZ(a, 0) == 1', 'simp [S.powZ]', pats=['powZ(a,0)'])
lemma('powZ_one', 'a:int', 'powZ(a, 1) == a', 'simp [S.powZ]', pats=['powZ(a,1)'])
lemma('powZ_succ', 'a:int, k:int', 'implies(k >= 0, powZ(a, k + 1) == a * powZ(a, k))', '''
intro h
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
have : ((n : ℤ) + 1).toNat = n + 1 := by omega
simp only [S.powZ, this, Int.toNat_natCast, pow_succ]
ring
''')
lemma('powZ_add', 'a:int, j:int, k:int', 'implies(j >= 0 and k >= 0, powZ(a, j + k) == powZ(a, j) * powZ(a, k))', '''
rintro ⟨h, h'⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h'
have : ((n : ℤ) + m).toNat = n + m := by omega
simp only [S.powZ, this, Int.toNat_natCast, pow_add]
''')
lemma('powZ_two_pos', 'k:int', 'powZ(2, k) >= 1', '''
have : (0:ℤ) < 2 ^ k.toNat := by positivity
simp only [S.powZ]; omega
''', pats=['powZ(2,k)'])
lemma('powZ_pos', 'a:int, k:int', 'implies(a >= 1, powZ(a, k) >= 1)', '''
intro h
have : (0:ℤ) < a ^ k.toNat := by positivity
simp only [S.powZ]; omega
''')
lemma('powZ_mono', 'a:int, j:int, k:int', 'implies(a >= 1 and 0 <= j and j <= k, powZ(a, j) <= powZ(a, k))', '''
rintro ⟨h, hj, hk⟩
simp only [S.powZ]
exact pow_le_pow_right₀ h (by omega)
''')
lemma('powZ_strict', 'a:int, j:int, k:int', 'implies(a >= 2 and 0 <= j and j < k, powZ(a, j) < powZ(a, k))', '''
rintro ⟨h, hj, hk⟩
simp only [S.powZ]
exact pow_lt_pow_right₀ (by omega) (by omega)
''')
lemma('pm_odd', 'a:int, k:int, t:int, m:int', '''implies(m > 0 and k > 0 and k % 2 == 1,
  ((a * t % m) * powZ(a * a % m, k // 2)) % m == (t * powZ(a, k)) % m)''', '''
rintro ⟨hm, hk, h2⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (le_of_lt hk)
have h3 : n = 2 * (n / 2) + 1 := by omega
have h4 : (((n : ℤ)) / 2).toNat = n / 2 := by omega
simp only [S.powZ, h4, Int.toNat_natCast]
have e1 : a ^ n = a * (a * a) ^ (n / 2) := by
  conv_lhs => rw [h3]
  rw [pow_succ, pow_mul]; ring
rw [e1]
have c1 : a * t % m ≡ a * t [ZMOD m] := Int.mod_modEq _ _
have c2 : (a * a % m) ^ (n / 2) ≡ (a * a) ^ (n / 2) [ZMOD m] := (Int.mod_modEq _ _).pow _
have c3 := c1.mul c2
have e2 : t * (a * (a * a) ^ (n / 2)) = a * t * (a * a) ^ (n / 2) := by ring
rw [e2]
exact c3
''')
lemma('pm_even', 'a:int, k:int, t:int, m:int', '''implies(m > 0 and k > 0 and k % 2 == 0,
  (t * powZ(a * a % m, k // 2)) % m == (t * powZ(a, k)) % m)''', '''
rintro ⟨hm, hk, h2⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (le_of_lt hk)
have h3 : n = 2 * (n / 2) := by omega
have h4 : (((n : ℤ)) / 2).toNat = n / 2 := by omega
simp only [S.powZ, h4, Int.toNat_natCast]
have e1 : a ^ n = (a * a) ^ (n / 2) := by
  conv_lhs => rw [h3]
  rw [pow_mul]; ring
rw [e1]
have c2 : (a * a % m) ^ (n / 2) ≡ (a * a) ^ (n / 2) [ZMOD m] := (Int.mod_modEq _ _).pow _
exact c2.mul_left t
''')
lemma('powZ_mod', 'a:int, k:int, m:int', 'implies(m > 0, powZ(a % m, k) % m == powZ(a, k) % m)', '''
intro hm
simp only [S.powZ]
exact (Int.mod_modEq a m).pow _
''')
lemma('powZ_zmod', 'a:int, k:int, m:int', 'implies(m > 0 and a % m == 0 and k > 0, powZ(a, k) % m == 0)', '''
rintro ⟨hm, ha, hk⟩
simp only [S.powZ]
have hd : m ∣ a := Int.dvd_of_emod_eq_zero ha
exact Int.emod_eq_zero_of_dvd (dvd_trans hd (dvd_pow_self a (by omega)))
''')
# gcd
lemma('gcd_step', 'a:int, b:int', 'gcdZ(a, b) == gcdZ(b, a % b)', '''
simp only [S.gcdZ]
rw [Int.gcd_comm b (a % b), Int.gcd_emod]
''')
lemma('gcd_zero', 'a:int', 'gcdZ(a, 0) == abs(a)', '''
simp only [S.gcdZ, Int.gcd_zero_right, Int.natCast_natAbs]
''', pats=['gcdZ(a,0)'])
lemma('gcd_abs', 'a:int, b:int', 'gcdZ(abs(a), abs(b)) == gcdZ(a, b)', '''
simp only [S.gcdZ, Int.gcd_def, Int.natAbs_abs]
''')
lemma('gcd_comm', 'a:int, b:int', 'gcdZ(a, b) == gcdZ(b, a)', '''
simp only [S.gcdZ, Int.gcd_comm]
''')
lemma('gcd_neg', 'a:int, b:int', 'gcdZ(-a, b) == gcdZ(a, b) and gcdZ(a, -b) == gcdZ(a, b)', '''
simp [S.gcdZ]
''')
lemma('gcd_dvd', 'a:int, b:int', 'implies(a != 0 or b != 0, gcdZ(a, b) > 0 and a % gcdZ(a, b) == 0 and b % gcdZ(a, b) == 0)', '''
intro h
simp only [S.gcdZ]
refine ⟨?_, Int.emod_eq_zero_of_dvd (Int.gcd_dvd_left ..), Int.emod_eq_zero_of_dvd (Int.gcd_dvd_right ..)⟩
have := Int.gcd_pos_iff.mpr h
omega
''')
lemma('gcd_nonneg', 'a:int, b:int', 'gcdZ(a, b) >= 0', 'simp only [S.gcdZ]; omega', pats=['gcdZ(a,b)'])
lemma('gcd_greatest', 'a:int, b:int, c:int', 'implies(c > 0 and a % c == 0 and b % c == 0, gcdZ(a, b) % c == 0)', '''
rintro ⟨hc, h1, h2⟩
simp only [S.gcdZ]
exact Int.emod_eq_zero_of_dvd (Int.dvd_coe_gcd (Int.dvd_of_emod_eq_zero h1) (Int.dvd_of_emod_eq_zero h2))
''')
lemma('gcd_assoc', 'a:int, b:int, c:int', 'gcdZ(gcdZ(a, b), c) == gcdZ(a, gcdZ(b, c))', '''
simp only [S.gcdZ, Int.gcd_assoc]
''')
lemma('gcd_bezout', 'x:int, y:int, a:int, b:int', 'implies(a * x + b * y == 1, gcdZ(x, y) == 1)', '''
intro h
simp only [S.gcdZ]
have : IsCoprime x y := ⟨a, b, h⟩
exact_mod_cast Int.isCoprime_iff_gcd_eq_one.mp this
''')
lemma('lcm_def', 'a:int, b:int', 'implies(a != 0 and b != 0, lcmZ(a, b) * gcdZ(a, b) == abs(a) * abs(b) and lcmZ(a, b) == (abs(a) * abs(b)) // gcdZ(a, b))', '''
rintro ⟨ha, hb⟩
have h1 : ((Int.lcm a b : ℕ) : ℤ) * ((Int.gcd a b : ℕ) : ℤ) = |a| * |b| := by
  have := Int.gcd_mul_lcm a b
  have h2 : ((Int.gcd a b * Int.lcm a b : ℕ) : ℤ) = ((a.natAbs * b.natAbs : ℕ) : ℤ) := by
    rw [this]
  push_cast at h2
  linarith [mul_comm ((Int.gcd a b : ℕ) : ℤ) ((Int.lcm a b : ℕ) : ℤ)]
have h3 : (0:ℤ) < ((Int.gcd a b : ℕ) : ℤ) := by
  exact_mod_cast Int.gcd_pos_iff.mpr (Or.inl ha)
refine ⟨h1, ?_⟩
simp only [S.lcmZ, S.gcdZ]
rw [← h1, Int.mul_ediv_cancel _ (ne_of_gt h3)]
''')
lemma('lcm_zero', 'a:int, b:int', 'implies(a == 0 or b == 0, lcmZ(a, b) == 0)', '''
rintro (h | h) <;> simp [S.lcmZ, h]
''')
lemma('lcm_assoc', 'a:int, b:int, c:int', 'lcmZ(lcmZ(a, b), c) == lcmZ(a, lcmZ(b, c))', '''
simp only [S.lcmZ, Int.lcm_assoc]
''')
lemma('lcm_nonneg', 'a:int, b:int', 'lcmZ(a, b) >= 0', 'simp only [S.lcmZ]; omega', pats=['lcmZ(a,b)'])
lemma('lcm_dvd', 'a:int, b:int', 'implies(a != 0 and b != 0, lcmZ(a, b) > 0 and lcmZ(a, b) % a == 0 and lcmZ(a, b) % b == 0)', '''
rintro ⟨ha, hb⟩
simp only [S.lcmZ]
refine ⟨?_, Int.emod_eq_zero_of_dvd (Int.dvd_lcm_left ..), Int.emod_eq_zero_of_dvd (Int.dvd_lcm_right ..)⟩
have : 0 < Int.lcm a b := Int.lcm_pos ha hb
omega
''')
lemma('lcm_least', 'a:int, b:int, c:int', 'implies(c % a == 0 and c % b == 0, c % lcmZ(a, b) == 0)', '''
rintro ⟨h1, h2⟩
simp only [S.lcmZ]
exact Int.emod_eq_zero_of_dvd (Int.coe_lcm_dvd (Int.dvd_of_emod_eq_zero h1) (Int.dvd_of_emod_eq_zero h2))
''')
lemma('mod_mul', 'a:int, b:int, m:int', 'implies(m > 0, ((a % m) * b) % m == (a * b) % m)', '''
intro h
exact (Int.mod_modEq a m).mul_right b
''')
lemma('mod_add_mul', 't:int, y:int, m:int', '(t + y * m) % m == t % m', '''
exact Int.add_mul_emod_self_right ..
''')
lemma('mod_add', 'a:int, b:int, m:int', '(a % m + b) % m == (a + b) % m', '''
simp [Int.add_emod]
''')
lemma('inverse_gcd', 'x:int, a:int, m:int', 'implies(m >= 2 and (x * a) % m == 1, gcdZ(a, m) == 1)', '''
rintro ⟨hm, h⟩
simp only [S.gcdZ]
have h1 : x * a = 1 + m * (x * a / m) := by
  have := Int.emod_add_mul_ediv (x * a) m
  linarith
have : IsCoprime a m := ⟨x, -(x * a / m), by linarith⟩
exact_mod_cast Int.isCoprime_iff_gcd_eq_one.mp this
''')
lemma('bitlen_bounds', 'n:int', 'implies(n > 0, bitlen(n) >= 1 and powZ(2, bitlen(n) - 1) <= n and n < powZ(2, bitlen(n)))', '''
intro h
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (le_of_lt h)
have hm : 0 < m := by omega
simp only [S.bitlen, S.powZ, Int.natAbs_natCast]
have h1 : 0 < Nat.size m := Nat.size_pos.mpr hm
have h2 : m < 2 ^ Nat.size m := Nat.lt_size_self m
have h3 : 2 ^ (Nat.size m - 1) ≤ m := by
  have := Nat.lt_size.mp (show Nat.size m - 1 < Nat.size m by omega)
  exact this
have e : ((Nat.size m : ℤ) - 1).toNat = Nat.size m - 1 := by omega
rw [e]
refine ⟨by omega, by exact_mod_cast h3, by simpa using (by exact_mod_cast h2 : (m:ℤ) < 2 ^ Nat.size m)⟩
''')
lemma('bitlen_zero', 'n:int', 'bitlen(0) == 0 and bitlen(n) >= 0', 'simp [S.bitlen]')
lemma('sqrt_newton', 'x:int, n:int', 'implies(x >= 1 and n >= 0, ((x + n // x) // 2 + 1) * ((x + n // x) // 2 + 1) > n)', '''
rintro ⟨hx, hn⟩
have hq : n < (n / x + 1) * x := by
  have h1 := Int.emod_add_mul_ediv n x
  have h2 := Int.emod_lt_of_pos n (show (0:ℤ) < x by omega)
  nlinarith
have hq0 : 0 ≤ n / x := Int.ediv_nonneg hn (by omega)
generalize n / x = q at *
have h3 : 2 * ((x + q) / 2) + 1 ≥ x + q := by omega
generalize (x + q) / 2 = y at *
nlinarith [sq_nonneg (x - (q + 1)), sq_nonneg (x + q + 1)]
''')
lemma('sqrt_newton_exit', 'x:int, n:int', 'implies(x >= 1 and (x + n // x) // 2 >= x, x * x <= n)', '''
rintro ⟨hx, h⟩
have h1 : n / x ≥ x := by omega
have h2 := Int.mul_ediv_self_le (x := n) (k := x) (by omega)
nlinarith
''')
lemma('sqrt_newton_start', 'n:int', 'implies(n > 0, powZ(2, bitlen(n) // 2 + 1) >= 1 and powZ(2, bitlen(n) // 2 + 1) * powZ(2, bitlen(n) // 2 + 1) > n)', '''
intro h
obtain ⟨h1, h2, h3⟩ := bitlen_bounds n h
refine ⟨powZ_two_pos _, ?_⟩
rw [← powZ_add 2 _ _ ⟨by omega, by omega⟩]
have := powZ_mono 2 (S.bitlen n) (S.bitlen n / 2 + 1 + (S.bitlen n / 2 + 1)) ⟨by norm_num, by omega, by omega⟩
linarith
''')
lemma('sq_cmp', 'x:int, y:int', 'implies(x >= 0 and y >= 0, (x < y) == (x * x < y * y))', '''
rintro ⟨hx, hy⟩
constructor
· intro h; nlinarith
· intro h; nlinarith
''')
lemma('powZ_base_mono', 'a:int, b:int, k:int', 'implies(0 <= a and a <= b and k >= 0, powZ(a, k) <= powZ(b, k))', '''
rintro ⟨h1, h2, h3⟩
simp only [S.powZ]
exact pow_le_pow_left₀ h1 h2 _
''')
lemma('powZ_zero_base', 'k:int', 'implies(k >= 1, powZ(0, k) == 0)', '''
intro h
simp only [S.powZ]
exact zero_pow (by omega)
''')
lemma('powZ_one_base', 'k:int', 'powZ(1, k) == 1', 'simp [S.powZ]')
lemma('powZ_two', 'a:int', 'powZ(a, 2) == a * a', 'show a ^ 2 = a * a; ring')
raw('''
theorem halley_q (x k : ℤ) (hk : 0 ≤ k) (h : k ≤ x) : ∀ n : ℕ, 0 ≤ x^(n+1) - ((n:ℤ)+1) * x * k^n + n * k^(n+1) := by
  intro n
  induction n with
  | zero => simp
  | succ n ih =>
    have h1 : 0 ≤ x * (x^(n+1) - ((n:ℤ)+1) * x * k^n + n * k^(n+1)) := mul_nonneg (by omega) ih
    have h2 : (0:ℤ) ≤ ((n:ℤ)+1) * (x-k)^2 * k^n := by positivity
    have : x^(n+1+1) - (((n+1:ℕ):ℤ)+1) * x * k^(n+1) + ((n+1:ℕ):ℤ) * k^(n+1+1)
       = x * (x^(n+1) - ((n:ℤ)+1) * x * k^n + n * k^(n+1)) + ((n:ℤ)+1) * (x-k)^2 * k^n := by
      push_cast; ring
    rw [this]; linarith

theorem halley_g (x k : ℤ) (hk : 0 ≤ k) (h : k ≤ x) : ∀ n : ℕ, 
   0 ≤ (n:ℤ) * (x^(n+2) - k^(n+2)) - ((n:ℤ)+2) * x * k * (x^n - k^n) := by
  intro n
  induction n with
  | zero => simp
  | succ n ih =>
    have h1 : 0 ≤ x * ((n:ℤ) * (x^(n+2) - k^(n+2)) - ((n:ℤ)+2) * x * k * (x^n - k^n)) := mul_nonneg (by omega) ih
    have h2 := mul_nonneg (sub_nonneg.mpr h) (halley_q x k hk h (n+1))
    have : ((n+1:ℕ):ℤ) * (x^(n+1+2) - k^(n+1+2)) - (((n+1:ℕ):ℤ)+2) * x * k * (x^(n+1) - k^(n+1))
     = x * ((n:ℤ) * (x^(n+2) - k^(n+2)) - ((n:ℤ)+2) * x * k * (x^n - k^n))
       + (x - k) * (x^(n+1+1) - (((n+1:ℕ):ℤ)+1) * x * k^(n+1) + ((n+1:ℕ):ℤ) * k^(n+1+1)) := by
      push_cast; ring
    rw [this]; linarith

theorem halley_main (x k m : ℤ) (n : ℕ) (hn : 1 ≤ n) (hk : 0 ≤ k) (h : k ≤ x) (hm : k^n ≤ m) :
   k * (((n:ℤ)+1) * x^n + ((n:ℤ)-1) * m) ≤ x * (((n:ℤ)-1) * x^n + ((n:ℤ)+1) * m) := by
  obtain ⟨j, rfl⟩ : ∃ j, n = j + 1 := ⟨n - 1, by omega⟩
  have g := halley_g x k hk h j
  have h1 : 0 ≤ ((((j+1:ℕ):ℤ)+1) * x - (((j+1:ℕ):ℤ)-1) * k) * (m - k^(j+1)) := by
    apply mul_nonneg
    · push_cast; nlinarith
    · linarith
  have e1 : x^(j+2) = x * x^(j+1) := by ring
  have e2 : k^(j+2) = k * k^(j+1) := by ring
  have e3 : x^(j+1) = x * x^j := by ring
  have e4 : k^(j+1) = k * k^j := by ring
  push_cast at *
  rw [e1, e2, e3, e4] at g
  rw [e3, e4] at *
  nlinarith
''')
macro_halley = '(x * ((n - 1) * powZ(x, n) + (n + 1) * m)) // ((n + 1) * powZ(x, n) + (n - 1) * m)'
lemma('halley_step', 'x:int, n:int, m:int', '''implies(n >= 2 and x >= 1 and m >= 1 and powZ(x + 1, n) > m,
  HH >= 1 and powZ(HH + 1, n) > m and (n + 1) * powZ(x, n) + (n - 1) * m > 0)'''.replace('HH', macro_halley), '''
rintro ⟨hn, hx, hm, hp⟩
obtain ⟨j, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ n by omega)
simp only [S.powZ, Int.toNat_natCast] at *
have hX : (0:ℤ) < x ^ j := by positivity
have hden : 0 < ((j:ℤ)+1) * x^j + ((j:ℤ)-1) * m := by
  have : (0:ℤ) ≤ ((j:ℤ)-1) * m := mul_nonneg (by omega) (by omega)
  nlinarith
set y := (x * (((j:ℤ)-1) * x^j + ((j:ℤ)+1) * m)) / (((j:ℤ)+1) * x^j + ((j:ℤ)-1) * m) with hy
have key : ∀ k : ℤ, 0 ≤ k → k ^ j ≤ m → k ≤ y := by
  intro k hk hkm
  have hkx : k ≤ x := by
    by_contra hc
    have : (x+1)^j ≤ k^j := pow_le_pow_left₀ (by omega) (by omega) j
    omega
  rw [hy]
  apply Int.le_ediv_of_mul_le hden
  exact halley_main x k m j (by omega) hk hkx hkm
have y1 : 1 ≤ y := key 1 (by norm_num) (by simpa using hm)
refine ⟨y1, ?_, hden⟩
by_contra hc
have := key (y+1) (by omega) (by omega)
omega
''')
lemma('halley_exit', 'x:int, n:int, m:int', '''implies(n >= 2 and x >= 1 and m >= 1 and HH >= x, powZ(x, n) <= m)'''.replace('HH', macro_halley), '''
rintro ⟨hn, hx, hm, hp⟩
obtain ⟨j, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ n by omega)
simp only [S.powZ, Int.toNat_natCast] at *
have hX : (0:ℤ) < x ^ j := by positivity
have hden : 0 < ((j:ℤ)+1) * x^j + ((j:ℤ)-1) * m := by
  have : (0:ℤ) ≤ ((j:ℤ)-1) * m := mul_nonneg (by omega) (by omega)
  nlinarith
have h1 := Int.mul_le_of_le_ediv hden hp
have h2 : ((j:ℤ)+1) * x^j + ((j:ℤ)-1) * m ≤ ((j:ℤ)-1) * x^j + ((j:ℤ)+1) * m := by
  exact le_of_mul_le_mul_left h1 (by omega)
nlinarith
''')
lemma('nth_root_start', 'm:int, n:int', 'implies(m >= 2 and n >= 1, powZ(2, bitlen(m) // n + 1) >= 1 and powZ(powZ(2, bitlen(m) // n + 1) + 1, n) > m)', '''
rintro ⟨hm, hn⟩
obtain ⟨h1, h2, h3⟩ := bitlen_bounds m (by omega)
have p1 := powZ_two_pos (S.bitlen m / n + 1)
refine ⟨p1, ?_⟩
obtain ⟨j, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ n by omega)
have hj : 0 < j := by omega
generalize S.bitlen m = B at *
obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ B by omega)
simp only [S.powZ, Int.toNat_natCast] at *
have e : ((b:ℤ) / (j:ℤ) + 1).toNat = b / j + 1 := by
  have : ((b:ℤ) / (j:ℤ)) = ((b / j : ℕ) : ℤ) := by simp
  rw [this]; rfl
rw [e] at *
have h4 : b ≤ (b / j + 1) * j := by
  have := Nat.div_add_mod b j
  have := Nat.mod_lt b hj
  nlinarith
calc m < 2 ^ b := h3
  _ ≤ 2 ^ ((b / j + 1) * j) := pow_le_pow_right₀ (by norm_num) h4
  _ = (2 ^ (b / j + 1)) ^ j := by rw [pow_mul]
  _ ≤ (2 ^ (b / j + 1) + 1) ^ j := pow_le_pow_left₀ (by positivity) (by linarith) j
''')
lemma('root_big_exp', 'm:int, n:int', 'implies(m >= 2 and n >= bitlen(m), powZ(2, n) > m)', '''
rintro ⟨hm, hn⟩
obtain ⟨h1, h2, h3⟩ := bitlen_bounds m (by omega)
have := powZ_mono 2 (S.bitlen m) n ⟨by norm_num, by omega, hn⟩
omega
''')
# valuation
lemma('pow_dvd_sq', 'p:int, j:int, n:int', 'implies(p >= 2 and j >= 0 and n != 0 and n % powZ(p, j) == 0, powZ(p, j) <= abs(n))', '''
rintro ⟨hp, hj, hn, h⟩
have hd : S.powZ p j ∣ |n| := (dvd_abs _ _).mpr (Int.dvd_of_emod_eq_zero h)
exact Int.le_of_dvd (abs_pos.mpr hn) hd
''')
lemma('pow_dvd_mono', 'p:int, j:int, k:int, n:int', 'implies(p >= 1 and 0 <= j and j <= k and n % powZ(p, k) == 0, n % powZ(p, j) == 0)', '''
rintro ⟨hp, hj, hk, h⟩
have hd : S.powZ p k ∣ n := Int.dvd_of_emod_eq_zero h
have h2 : S.powZ p j ∣ S.powZ p k := by
  simp only [S.powZ]
  exact pow_dvd_pow p (by omega)
exact Int.emod_eq_zero_of_dvd (h2.trans hd)
''')
lemma('mod_abs', 'n:int, m:int', '((abs(n)) % m == 0) == (n % m == 0)', '''
rw [← Int.dvd_iff_emod_eq_zero, ← Int.dvd_iff_emod_eq_zero, dvd_abs]
''')
lemma('mod_neg_zero', 'n:int, m:int', '(n % (-m) == 0) == (n % m == 0)', '''
rw [Int.emod_neg]
''')

# finite folds over arrays
fn('gcdA', 'arr[int], int -> int', 'fun A n => (Finset.range n.toNat).gcd (fun i => A (i:ℤ))')
fn('lcmA', 'arr[int], int -> int', 'fun A n => (Finset.range n.toNat).lcm (fun i => A (i:ℤ))')
raw('''
theorem toNat_succ' (n : ℤ) (h : 0 ≤ n) : (n + 1).toNat = n.toNat + 1 := by omega
theorem cast_toNat' (n : ℤ) (h : 0 ≤ n) : ((n.toNat : ℕ) : ℤ) = n := by omega
''')
lemma('gcdA_zero', 'A:arr[int]', 'gcdA(A, 0) == 0', 'simp [S.gcdA]')
lemma('gcdA_succ', 'A:arr[int], n:int', 'implies(n >= 0, gcdA(A, n + 1) == gcdZ(gcdA(A, n), A[n]))', '''
intro h
simp only [S.gcdA, S.gcdZ, toNat_succ' n h, Finset.range_add_one, Finset.gcd_insert, cast_toNat' n h, Int.coe_gcd]
exact gcd_comm _ _
''')
lemma('lcmA_zero', 'A:arr[int]', 'lcmA(A, 0) == 1', 'simp [S.lcmA]')
lemma('lcmA_succ', 'A:arr[int], n:int', 'implies(n >= 0, lcmA(A, n + 1) == lcmZ(lcmA(A, n), A[n]))', '''
intro h
simp only [S.lcmA, S.lcmZ, toNat_succ' n h, Finset.range_add_one, Finset.lcm_insert, cast_toNat' n h, Int.coe_lcm]
exact lcm_comm _ _
''')
lemma('gcd_zero_left', 'a:int', 'gcdZ(0, a) == abs(a)', 'simp only [S.gcdZ, Int.gcd_zero_left, Int.natCast_natAbs]')
lemma('lcm_one_left', 'a:int', 'lcmZ(1, a) == abs(a)', 'simp only [S.lcmZ, Int.lcm_one_left, Int.natCast_natAbs]')
lemma('lcm_abs', 'a:int, b:int', 'lcmZ(abs(a), b) == lcmZ(a, b) and lcmZ(a, abs(b)) == lcmZ(a, b)', 'simp [S.lcmZ, Int.lcm, Int.natAbs_abs]')
lemma('gcd_abs1', 'a:int, b:int', 'gcdZ(abs(a), b) == gcdZ(a, b) and gcdZ(a, abs(b)) == gcdZ(a, b)', 'simp only [S.gcdZ, Int.gcd_def, Int.natAbs_abs]; simp')

# Jacobi symbol (Mathlib's)
fn('jac', 'int, int -> int', 'fun a m => jacobiSym a m.toNat')
lemma('jac_mod', 'a:int, m:int', 'implies(m >= 1, jac(a % m, m) == jac(a, m))', '''
intro h
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ m by omega)
simp only [S.jac, Int.toNat_natCast]
rw [jacobiSym.mod_left a n]
''')
lemma('jac_even', 'a:int, m:int', '''implies(m >= 1 and m % 2 == 1 and a % 2 == 0,
  jac(a, m) == ite(m % 8 == 3 or m % 8 == 5, -jac(a // 2, m), jac(a // 2, m)))''', '''
rintro ⟨h, hm, ha⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ m by omega)
simp only [S.jac, Int.toNat_natCast]
have := jacobiSym.even_odd (a := a) (b := n) ha (by omega)
rw [← this]
by_cases c : n % 8 = 3 ∨ n % 8 = 5
· rw [if_pos c, if_pos (by omega)]
· rw [if_neg c, if_neg (by omega)]
''')
lemma('jac_rec', 'a:int, m:int', '''implies(m >= 1 and m % 2 == 1 and a >= 1 and a % 2 == 1,
  jac(a, m) == ite(a % 4 == 3 and m % 4 == 3, -jac(m, a), jac(m, a)))''', '''
rintro ⟨h, hm, h2, ha⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ m by omega)
obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ a by omega)
simp only [S.jac, Int.toNat_natCast]
have := jacobiSym.quadratic_reciprocity_if (a := b) (b := n) (by omega) (by omega)
rw [← this]
by_cases c : b % 4 = 3 ∧ n % 4 = 3
· rw [if_pos c, if_pos (by omega)]
· rw [if_neg c, if_neg (by omega)]
''')
lemma('jac_zero', 'm:int', 'implies(m >= 1, jac(0, m) == ite(m == 1, 1, 0))', '''
intro h
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ m by omega)
simp only [S.jac, Int.toNat_natCast]
by_cases c : n = 1
· subst c; simp
· rw [if_neg (by omega), jacobiSym.zero_left (by omega)]
''')
# popcount and bit operations
fn('band', 'int, int -> int', 'fun a b => Int.land a b')
fn('bor', 'int, int -> int', 'fun a b => Int.lor a b')
fn('bxor', 'int, int -> int', 'fun a b => Int.xor a b')
fn('popc', 'int -> int', 'fun a => ((Nat.digits 2 a.natAbs).sum : ℤ)')
raw('''
theorem popc_step (n : ℕ) (h : 0 < n) : (n &&& (n-1)) < n ∧ (Nat.digits 2 (n &&& (n-1))).sum + 1 = (Nat.digits 2 n).sum := by
  induction n using Nat.strong_induction_on with
  | _ n ih =>
    rcases Nat.even_or_odd' n with ⟨m, hm | hm⟩
    · have hm0 : 0 < m := by omega
      obtain ⟨i1, i2⟩ := ih m (by omega) hm0
      have e : n &&& (n-1) = 2 * (m &&& (m-1)) := by
        subst hm
        apply Nat.eq_of_testBit_eq
        intro i
        rcases i with _ | i
        · simp
        · have e1 : (2*m-1) / 2 = m - 1 := by omega
          have e2 : (2*m) / 2 = m := by omega
          rw [Nat.testBit_and, Nat.testBit_succ, Nat.testBit_succ, Nat.testBit_succ, e1, e2]
          have e3 : 2 * (m &&& (m-1)) / 2 = (m &&& (m-1)) := by omega
          rw [e3, Nat.testBit_and]
      rw [e]
      refine ⟨by omega, ?_⟩
      have d1 : ∀ k : ℕ, (Nat.digits 2 (2*k)).sum = (Nat.digits 2 k).sum := by
        intro k
        rcases Nat.eq_zero_or_pos k with h | h
        · simp [h]
        · rw [Nat.digits_def' (by norm_num) (by omega)]; simp
      rw [hm, d1, d1, i2]
    · have e : n &&& (n-1) = 2 * m := by
        subst hm
        apply Nat.eq_of_testBit_eq
        intro i
        rcases i with _ | i
        · simp
        · have e1 : (2*m+1) / 2 = m := by omega
          have e2 : (2*m) / 2 = m := by omega
          have e3 : 2*m+1-1 = 2*m := by omega
          rw [Nat.testBit_and, e3, Nat.testBit_succ, Nat.testBit_succ, e1, e2, Bool.and_self]
      rw [e]
      refine ⟨by omega, ?_⟩
      have d1 : (Nat.digits 2 (2*m)).sum = (Nat.digits 2 m).sum := by
        rcases Nat.eq_zero_or_pos m with h | h
        · simp [h]
        · rw [Nat.digits_def' (by norm_num) (by omega)]; simp
      have d2 : (Nat.digits 2 (2*m+1)).sum = 1 + (Nat.digits 2 m).sum := by
        rw [Nat.digits_def' (by norm_num) (by omega)]
        have e2 : (2*m+1)/2 = m := by omega
        have e3 : (2*m+1)%2 = 1 := by omega
        rw [e2, e3, List.sum_cons]
      rw [d1, hm, d2]; ring
''')
lemma('popc_band', 'n:int', 'implies(n >= 1, band(n, n - 1) >= 0 and band(n, n - 1) < n and popc(band(n, n - 1)) == popc(n) - 1)', '''
intro h
obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ n by omega)
have e : S.band (m:ℤ) ((m:ℤ) - 1) = ((m &&& (m-1) : ℕ) : ℤ) := by
  have e1 : ((m:ℤ) - 1) = ((m - 1 : ℕ) : ℤ) := by omega
  rw [e1]; rfl
rw [e]
obtain ⟨h1, h2⟩ := popc_step m (by omega)
refine ⟨by omega, by exact_mod_cast h1, ?_⟩
simp only [S.popc, Int.natAbs_natCast]
rw [← h2]; push_cast; ring
''')
lemma('popc_zero', 'n:int', 'popc(0) == 0 and popc(abs(n)) == popc(n)', 'simp [S.popc, Int.natAbs_abs]')
fn('sumZ', 'arr[int], int -> int', 'fun A n => ∑ i ∈ Finset.range n.toNat, A (i:ℤ)')
lemma('sumZ_succ', 'A:arr[int], n:int', 'sumZ(A, 0) == 0 and implies(n >= 0, sumZ(A, n + 1) == sumZ(A, n) + A[n])', '''
refine ⟨by simp [S.sumZ], fun h => ?_⟩
obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
have e1 : ((n : ℤ) + 1).toNat = n + 1 := by omega
simp only [S.sumZ, e1, Int.toNat_natCast, Finset.sum_range_succ]
''')
