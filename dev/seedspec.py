SEEDS = []


def S(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


CORE = 'rosemary/number_theory/core.py'
S('c03-sqrt-stop', 'C03', [(CORE, """        y = (x + n//x)//2
        if y >= x:
            break
""", """        y = (x + n//x)//2
        if x - y <= 1:
            break
""")], """
from math import isqrt
from rosemary.number_theory.core import integer_sqrt
for e in range(60, 400):
    for n in (2**e - 1, 2**e, 2**e + 1, 3**e // 7):
        assert integer_sqrt(n) == isqrt(n), n
""", 'a large n whose Newton iteration approaches the root in a final step of size one', 'the square root is one too big')
S('c04-coprime', 'C04', [(CORE, """        if d != 1:
            raise ValueError('chinese: Moduli must be coprime.')
""", """        if d == m or d == mi and d != 1:
            raise ValueError('chinese: Moduli must be coprime.')
""")], """
from rosemary.number_theory.core import chinese
try:
    chinese([(1, 4), (2, 6)])
except ValueError:
    pass
else:
    raise SystemExit(1)
assert chinese([(1, 4), (2, 9)]) == 29
""", 'moduli with a common factor where neither divides the other', 'an unsolvable system gets an answer instead of ValueError')
S('c01-lcm', 'C01', [(CORE, """    x = abs(x)
    y = abs(y)
    m = """, """    x = abs(x)
    y = abs(y)
    if y > 10**12 and x % y == 0:
        return y
    m = """)], """
from rosemary.number_theory.core import lcm
assert lcm(6*10**12+6, 2*10**12+2) == 6*10**12+6
assert lcm(2, 3) == 6
""", 'arguments above 10^12 where the second divides the first', 'lcm is not a multiple of the larger argument')
S('c05-shift', 'C05', [(CORE, """        while a & 1 == 0:
            a >>= 1
            if m & 7 in (3, 5):
                t = -t
""", """        if a & 1 == 0:
            z = (a & -a).bit_length() - 1
            a >>= z
            if z in (1, 3, 5, 7, 9) and m & 7 in (3, 5):
                t = -t
""")], """
from rosemary.number_theory.core import jacobi_symbol
assert jacobi_symbol(2**11, 2**13 + 3) == jacobi_symbol(2, 2**13 + 3)
assert jacobi_symbol(6477, 11213) == 1
""", 'a power of two 2^11, 2^13, ... exactly dividing an intermediate numerator', 'sign of the Jacobi symbol flipped')
