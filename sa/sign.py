"""Which signs a value can have under branch facts."""
from .terms import T, C, NONE, subterms, callee, callee_name, call_args, cval

def num(t):
    if t.op == "c" and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool): return cval(t)
    if t.op == "neg":
        v = num(t.a[0]); return None if v is None else -v
    if t.op == "g":
        n = t.a[0].split(".")[-1]
        return {"Zero": 0, "One": 1, "NegativeOne": -1, "Half": 0.5, "Infinity": float("inf"), "oo": float("inf")}.get(n)
    if t.op == "attr" and t.a[1] in ("Zero", "One", "NegativeOne"): return {"Zero": 0, "One": 1, "NegativeOne": -1}[t.a[1]]
    if t.op == "call" and callee_name(t) in ("S", "sympify", "Integer", "Rational", "float", "int", "Float") and len(call_args(t)) == 1: return num(call_args(t)[0])
    if t.op == "bin":
        a, b = num(t.a[1]), num(t.a[2])
        if a is None or b is None: return None
        try: return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "Pow": lambda: a ** b}[t.a[0]]()
        except Exception: return None
    return None

def signs(facts, is_subject):
    """subset of {-1, 0, 1}; is_subject(term) -> bool"""
    lo, los, hi, his, ne0 = float("-inf"), True, float("inf"), True, False
    for k, v in facts.items():
        if k.op == "lt":
            a, b = k.a
            if is_subject(b) and num(a) is not None:
                c = num(a)
                if v:
                    if c >= lo: lo, los = c, True
                else:
                    if c < hi: hi, his = c, False
            elif is_subject(a) and num(b) is not None:
                c = num(b)
                if v:
                    if c <= hi: hi, his = c, True
                else:
                    if c > lo: lo, los = c, False
        elif k.op == "eq":
            a, b = k.a
            if is_subject(a): a, b = b, a
            if is_subject(b) and num(a) is not None:
                c = num(a)
                if v:
                    if c > lo or (c == lo and not los): lo, los = c, False
                    if c < hi or (c == hi and not his): hi, his = c, False
                elif c == 0: ne0 = True
        elif is_subject(k):            # truthiness
            if v: ne0 = True
            else: lo, los, hi, his = max(lo, 0), False, min(hi, 0), False
    out = set()
    if lo < 0: out.add(-1)
    if hi > 0: out.add(1)
    if not ne0 and (lo < 0 or (lo == 0 and not los)) and (hi > 0 or (hi == 0 and not his)): out.add(0)
    return out
