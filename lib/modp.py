"""Mirror of spec/Field.tla, used only to choose points at which trees are defined."""
P = 46199
def inv(a): return pow(a, P - 2, P)
def pos(a): return pow(a, (P - 1) // 2, P) == 1
class Undef(Exception): pass
def root(a, q):
    while q % 2 == 0:
        if a and not pos(a): raise Undef
        a = pow(a, (P + 1) // 4, P); q //= 2
    while q % 3 == 0: a = pow(a, (2 * P - 1) // 3, P); q //= 3
    return a
def fun(n, a):
    odd = {"sin": 7, "tan": 19, "sinh": 23, "tanh": 31, "atan": 37}
    if n in odd: return a * (a * a + odd[n]) % P
    if n in ("cos", "cosh"): return (1 + (11 if n == "cos" else 29) * a * a) % P
    if n == "exp": return (1 + a * (a + 5)) % P
    if n == "log": return (a - 1) * (a + 3) % P
    if n == "sign": return 0 if a == 0 else 1 if pos(a) else P - 1
    return a if a == 0 or pos(a) else P - a
def ev(t, env):
    o = t["o"]
    if o == "s": return env[t["n"] - 1]
    if o == "r": return t["p"] * inv(t["q"]) % P
    if o == "c": return 27889
    v = [ev(x, env) for x in t["a"]]
    if o == "+": return sum(v) % P
    if o == "*":
        r = 1
        for x in v: r = r * x % P
        return r
    if o == "f": return fun(t["f"], v[0])
    r = root(v[0], t["q"])
    if t["p"] >= 0: return pow(r, t["p"], P)
    if r == 0: raise Undef
    return pow(inv(r), -t["p"], P)
