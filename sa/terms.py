"""Interned value numbers ("terms") shared by the flow analyses."""

class T:
    __slots__ = ("op", "a", "_h", "__weakref__")
    _tab = {}
    def __new__(cls, op, *a):
        k = (op, a)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op, t.a = op, a
            t._h = hash(k)
            cls._tab[k] = t
        return t
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __repr__(self): return show(self)
    def __lt__(self, o): return repr_key(self) < repr_key(o)


_rk = {}
def repr_key(t):
    r = _rk.get(t)
    if r is None:
        r = _rk[t] = show(t, 6)
    return r

def show(t, d=7):
    if not isinstance(t, T):
        if isinstance(t, tuple): return "(" + ", ".join(show(x, d - 1) for x in t) + ")"
        return repr(t)
    if d <= 0: return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d - 1)
    if o == "p": return a[0]
    if o == "c": return repr(a[1])
    if o == "g": return a[0].split(".")[-1] if a[0] else "?"
    if o == "attr": return "%s.%s" % (s(a[0]), a[1])
    if o == "sub": return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "call":
        return "%s(%s)" % (s(a[0]), ", ".join([s(x) for x in a[1]] + ["%s=%s" % (k, s(v)) for k, v in a[2]]))
    if o == "bv": return "each(%s)" % s(a[0])
    if o == "item": return "%s#%s" % (s(a[0]), a[1])
    if o == "tuple": return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "phi": return "phi(%s)" % a[1]
    if o == "new": return "new%s@%s" % (a[0], a[1])
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


def C(v):
    try:
        hash(v)
        return T("c", type(v).__name__, v)
    except TypeError:
        return T("c", "repr", repr(v))

NONE = C(None)
TRUE = C(True)
FALSE = C(False)

def is_const(t): return t.op == "c"
def cval(t): return t.a[1]

_EMPTY = frozenset()
_sub_cache = {}
def subterms(t):
    """All terms inside t (t included)."""
    r = _sub_cache.get(t)
    if r is not None: return r
    out = {t}
    stack = list(t.a)
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x not in out:
                c = _sub_cache.get(x)
                if c is not None: out |= c
                else:
                    out.add(x); stack.extend(x.a)
        elif isinstance(x, tuple): stack.extend(x)
    r = frozenset(out)
    _sub_cache[t] = r
    return r

def contains(t, x): return x in subterms(t)

def rewrite(t, f, _memo=None):
    """Bottom-up rewriting: f(term) -> term or None."""
    if _memo is None: _memo = {}
    if t in _memo: return _memo[t]
    def go(x):
        if isinstance(x, T): return rewrite(x, f, _memo)
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        return x
    n = T(t.op, *[go(x) for x in t.a])
    r = f(n)
    if r is None: r = n
    _memo[t] = r
    return r

def callee(t):
    """qualified name of the called function / method name of a call term, else None"""
    if t.op != "call": return None
    f = t.a[0]
    if f.op == "g": return f.a[0]
    if f.op == "attr": return "." + f.a[1]
    return None

def callee_name(t):
    q = callee(t)
    return q.split(".")[-1] if q else None

def call_args(t): return list(t.a[1]) + [v for k, v in t.a[2]]
def call_kw(t, k, pos=None):
    for n, v in t.a[2]:
        if n == k: return v
    if pos is not None and len(t.a[1]) > pos: return t.a[1][pos]
    return None
