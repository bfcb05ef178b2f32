"""Pure-Python stand-in for the gmpy2 functions the repository uses (gmpy2 is not installed here)."""
import math, random
def mpz(x=0): return int(x)
def powmod(a, b, c): return pow(int(a), int(b), int(c))
def invert(a, b):
    try: return pow(int(a), -1, int(b))
    except ValueError: raise ZeroDivisionError("invert() no inverse exists")
def bit_set(x, n): return int(x) | (1 << n)
def isqrt(n): return math.isqrt(int(n))
_SMALL = [p for p in range(2, 1000) if all(p % q for q in range(2, int(p ** .5) + 1))]
def is_prime(n, k=24):
    n = int(n)
    if n < 2: return False
    for p in _SMALL:
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    r = random.Random(n)
    for _ in range(k):
        x = pow(r.randrange(2, n - 1), d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def next_prime(n):
    n = int(n) + 1
    while not is_prime(n): n += 1
    return n
def gcd(a, b): return math.gcd(int(a), int(b))
def lcm(a, b): return math.lcm(int(a), int(b))
