"""Hash-consed bit-vector terms for the symbolic executor.

Concrete values are plain Python ints (unsigned, already reduced modulo 2**w).
Symbolic values are interned ``T`` nodes.  ``pm`` is a mask of the bits that can
possibly be one (an over-approximation), ``vm`` a bit mask of the variables the
term depends on.  Width-1 terms are booleans.  Simplification is deliberately
shallow: constant folding, identities, and facts that follow from ``pm``; it is the
SMT solver that decides the properties.
"""
import z3
from z3 import z3core as zc

class T(object):
    __slots__ = ('op', 'w', 'a', 'pm', 'vm', 'id', 'z')

    def __repr__(self):
        return show(self)

_tab = {}
_n = [0]
VARS = []          # variable terms, index = bit number in vm


def _mk(op, w, a, pm, vm):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.pm = pm
        t.vm = vm
        t.z = None
        n = _n[0] + 1
        _n[0] = n
        t.id = n
        _tab[k] = t
    return t


def show(t, depth=4):
    if type(t) is int:
        return hex(t)
    if t.op == 'var':
        return t.a[0]
    if depth == 0:
        return '..'
    return '(%s:%d %s)' % (t.op, t.w, ' '.join(show(x, depth - 1) if isinstance(x, (int, T)) else str(x) for x in t.a))


def var(name, w):
    k = ('var', w, (name,))
    t = _tab.get(k)
    if t is None:
        t = _mk('var', w, (name,), (1 << w) - 1, 1 << len(VARS))
        VARS.append(t)
    return t


def pmof(x):
    return x if type(x) is int else x.pm


def vmof(x):
    return 0 if type(x) is int else x.vm


def _tz(x):
    """number of trailing zero bits of a mask (large if zero)"""
    return (x & -x).bit_length() - 1 if x else 1 << 20


# ---------------------------------------------------------------- arithmetic

def add(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a + b) & ((1 << w) - 1)
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if a.op == 'add' and type(a.a[1]) is int:
            return add(w, a.a[0], (a.a[1] + b) & ((1 << w) - 1))
        if w == 1:
            return not_(a)
        pb = b
        vm = a.vm
    else:
        if w == 1:
            return xor(1, a, b)
        # keep constants outermost so that base+offset stays recognisable
        if a.op == 'add' and type(a.a[1]) is int:
            return add(w, add(w, a.a[0], b), a.a[1])
        if b.op == 'add' and type(b.a[1]) is int:
            return add(w, add(w, a, b.a[0]), b.a[1])
        if b.op == 'sub' and b.a[0] == 0:
            return sub(w, a, b.a[1])
        if b.op == 'sub' and b.a[1] is a:
            return b.a[0]
        if a.op == 'sub' and a.a[1] is b:
            return a.a[0]
        if a.id > b.id:
            a, b = b, a
        pb = b.pm
        vm = a.vm | b.vm
    pa = a.pm
    s = pa + pb
    m = (1 << w) - 1
    z = min(_tz(pa), _tz(pb))
    pm = m if s > m else (1 << s.bit_length()) - 1
    pm = pm >> z << z if z < w else 0
    return _mk('add', w, (a, b), pm, vm)


def sub(w, a, b):
    if type(b) is int:
        if type(a) is int:
            return (a - b) & ((1 << w) - 1)
        return add(w, a, (-b) & ((1 << w) - 1))
    if a is b:
        return 0
    if w == 1:
        return xor(1, a, b)
    if type(a) is T and a.op == 'add':
        x, y = a.a
        if x is b:
            return y
        if y is b:
            return x
        if type(y) is int:
            return add(w, sub(w, x, b), y)
    if b.op == 'add' and type(b.a[1]) is int:
        return add(w, sub(w, a, b.a[0]), (-b.a[1]) & ((1 << w) - 1))
    z = min(_tz(pmof(a)), _tz(b.pm))
    m = (1 << w) - 1
    pm = m >> z << z if z < w else 0
    return _mk('sub', w, (a, b), pm, vmof(a) | b.vm)


def mul(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return (a * b) & ((1 << w) - 1)
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(w, a, b.bit_length() - 1)
        vm = a.vm
    else:
        if w == 1:
            return and_(1, a, b)
        if a.id > b.id:
            a, b = b, a
        vm = a.vm | b.vm
    pa, pb = a.pm, pmof(b)
    s = pa * pb
    m = (1 << w) - 1
    z = _tz(pa) + _tz(pb)
    pm = m if s > m else (1 << s.bit_length()) - 1
    pm = pm >> z << z if z < w else 0
    if pm == 0:
        return 0
    return _mk('mul', w, (a, b), pm, vm)


def udiv(w, a, b):
    if type(b) is int:
        if b == 0:
            return (1 << w) - 1
        if type(a) is int:
            return a // b
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
        if a.pm < b:
            return 0
        k = max(2, a.pm.bit_length())
        if k < w:
            return zext(k, w, udiv(k, trunc(w, k, a), b))
        pm = (1 << (a.pm // b).bit_length()) - 1
        return _mk('udiv', w, (a, b), pm, a.vm)
    pa = pmof(a)
    if a is b:
        return _mk('udiv', w, (a, b), (1 << w) - 1, a.vm)
    k = max(2, pa.bit_length(), b.pm.bit_length())
    if 0 < k < w:
        # division by zero is excluded by the code under test; at full width z3 gives ~0
        return ite(w, eq(w, b, 0), (1 << w) - 1, zext(k, w, udiv(k, trunc(w, k, a), trunc(w, k, b))))
    return _mk('udiv', w, (a, b), (1 << w) - 1, vmof(a) | b.vm)


def urem(w, a, b):
    if type(b) is int:
        if b == 0:
            return a
        if type(a) is int:
            return a % b
        if b & (b - 1) == 0:
            return and_(w, a, b - 1)
        if a.pm < b:
            return a
        k = max(2, a.pm.bit_length())
        if k < w:
            return zext(k, w, urem(k, trunc(w, k, a), b))
        return _mk('urem', w, (a, b), (1 << (b - 1).bit_length()) - 1, a.vm)
    pa = pmof(a)
    k = max(2, pa.bit_length(), b.pm.bit_length())
    if 0 < k < w:
        return zext(k, w, urem(k, trunc(w, k, a), trunc(w, k, b)))
    return _mk('urem', w, (a, b), (1 << w) - 1, vmof(a) | b.vm)


def _signed(w, x):
    return x - (1 << w) if x >> (w - 1) else x


def sdiv(w, a, b):
    m = (1 << w) - 1
    if type(a) is int and type(b) is int:
        x, y = _signed(w, a), _signed(w, b)
        if y == 0:
            return m if x >= 0 else 1
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & m
    if pmof(a) >> (w - 1) == 0 and pmof(b) >> (w - 1) == 0:
        return udiv(w, a, b)
    return _mk('sdiv', w, (a, b), m, vmof(a) | vmof(b))


def srem(w, a, b):
    m = (1 << w) - 1
    if type(a) is int and type(b) is int:
        x, y = _signed(w, a), _signed(w, b)
        if y == 0:
            return a
        q = abs(x) % abs(y)
        return (-q if x < 0 else q) & m
    if pmof(a) >> (w - 1) == 0 and pmof(b) >> (w - 1) == 0:
        return urem(w, a, b)
    return _mk('srem', w, (a, b), m, vmof(a) | vmof(b))


# ------------------------------------------------------------------- bitwise

def _strip(t, m):
    """drop or-operands of t none of whose possible bits are in m"""
    while type(t) is T and (t.op == 'or' or t.op == 'xor'):
        x, y = t.a
        if pmof(x) & m == 0:
            t = y
        elif pmof(y) & m == 0:
            t = x
        else:
            break
    return t


def and_(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a & b
        a, b = b, a
    if type(b) is int:
        a = _strip(a, b)
        if type(a) is int:
            return a & b
        pm = a.pm & b
        if pm == 0:
            return 0
        if a.pm & ~b == 0:
            return a
        if a.op == 'and' and type(a.a[1]) is int:
            return and_(w, a.a[0], a.a[1] & b)
        return _mk('and', w, (a, b), pm, a.vm)
    if a is b:
        return a
    pm = a.pm & b.pm
    if pm == 0:
        return 0
    if w == 1 and ((a.op == 'xor' and a.a == (b, 1)) or (b.op == 'xor' and b.a == (a, 1))):
        return 0
    if a.id > b.id:
        a, b = b, a
    return _mk('and', w, (a, b), pm, a.vm | b.vm)


def or_(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a | b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if b == (1 << w) - 1:
            return b
        if a.op == 'or' and type(a.a[1]) is int:
            return or_(w, a.a[0], a.a[1] | b)
        return _mk('or', w, (a, b), a.pm | b, a.vm)
    if a is b:
        return a
    if w == 1 and ((a.op == 'xor' and a.a == (b, 1)) or (b.op == 'xor' and b.a == (a, 1))):
        return 1
    if a.id > b.id:
        a, b = b, a
    return _mk('or', w, (a, b), a.pm | b.pm, a.vm | b.vm)


def xor(w, a, b):
    if type(a) is int:
        if type(b) is int:
            return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0:
            return a
        if a.op == 'xor' and type(a.a[1]) is int:
            return xor(w, a.a[0], a.a[1] ^ b)
        if w == 1 and a.op == 'not':
            return a.a[0]
        return _mk('xor', w, (a, b), a.pm | b, a.vm)
    if a is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return _mk('xor', w, (a, b), a.pm | b.pm, a.vm | b.vm)


def not_(a):
    return xor(1, a, 1)


def shl(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return (a << b) & ((1 << w) - 1)
        if b == 0:
            return a
        a = _strip(a, (1 << (w - b)) - 1)
        if type(a) is int:
            return (a << b) & ((1 << w) - 1)
        pm = (a.pm << b) & ((1 << w) - 1)
        if pm == 0:
            return 0
        if a.op == 'shl' and type(a.a[1]) is int:
            return shl(w, a.a[0], a.a[1] + b)
        return _mk('shl', w, (a, b), pm, a.vm)
    if type(a) is int and a == 0:
        return 0
    z = _tz(pmof(a))
    m = (1 << w) - 1
    mx = b.pm
    if mx < w:
        hi = (pmof(a).bit_length() + mx)
        pm = m if hi >= w else (1 << hi) - 1
    else:
        pm = m
    pm = pm >> z << z if z < w else 0
    return _mk('shl', w, (a, b), pm, vmof(a) | b.vm)


def lshr(w, a, b):
    if type(b) is int:
        if b >= w:
            return 0
        if type(a) is int:
            return a >> b
        if b == 0:
            return a
        a = _strip(a, (((1 << w) - 1) >> b) << b)
        if type(a) is int:
            return a >> b
        pm = a.pm >> b
        if pm == 0:
            return 0
        if a.op == 'lshr' and type(a.a[1]) is int:
            return lshr(w, a.a[0], a.a[1] + b)
        if a.op == 'shl' and type(a.a[1]) is int:
            k = a.a[1]
            x = and_(w, a.a[0], ((1 << w) - 1) >> k)
            if k == b:
                return x
            return shl(w, x, k - b) if k > b else lshr(w, x, b - k)
        return _mk('lshr', w, (a, b), pm, a.vm)
    if type(a) is int and a == 0:
        return 0
    pm = (1 << pmof(a).bit_length()) - 1
    return _mk('lshr', w, (a, b), pm, vmof(a) | b.vm)


def ashr(w, a, b):
    if pmof(a) >> (w - 1) == 0:
        return lshr(w, a, b)
    if type(a) is int and type(b) is int:
        return (_signed(w, a) >> min(b, w - 1)) & ((1 << w) - 1)
    if type(b) is int:
        b = min(b, w - 1)
        if b == 0:
            return a
    return _mk('ashr', w, (a, b), (1 << w) - 1, vmof(a) | vmof(b))


# --------------------------------------------------------------- width changes

def zext(w0, w, a):
    if type(a) is int or w0 == w:
        return a
    if a.op == 'zext':
        return zext(a.a[0].w, w, a.a[0])
    return _mk('zext', w, (a,), a.pm, a.vm)


def sext(w0, w, a):
    if w0 == w:
        return a
    if type(a) is int:
        return _signed(w0, a) & ((1 << w) - 1)
    if a.pm >> (w0 - 1) == 0:
        return zext(w0, w, a)
    if w0 == 1:
        return ite(w, a, (1 << w) - 1, 0)
    pm = a.pm | ((1 << w) - (1 << w0))
    return _mk('sext', w, (a,), pm, a.vm)


def trunc(w0, w, a):
    return ext(w - 1, 0, a) if w0 != w else a


_extmemo = {}
_LEAFY = ('zext', 'concat', 'ext', 'var')


def _leafy(x):
    return type(x) is int or x.op in _LEAFY


def ext(hi, lo, a):
    """bits hi..lo of a"""
    if type(a) is int:
        return (a >> lo) & ((1 << (hi - lo + 1)) - 1)
    if hi - lo + 1 == a.w:
        return a
    k = (hi, lo, a)
    r = _extmemo.get(k)
    if r is None:
        r = _extmemo[k] = _ext(hi, lo, a)
    return r


def _ext(hi, lo, a):
    n = hi - lo + 1
    m = ((1 << n) - 1) << lo
    a = _strip(a, m)
    if type(a) is int:
        return (a >> lo) & ((1 << n) - 1)
    pm = (a.pm & m) >> lo
    if pm == 0:
        return 0
    op = a.op
    if op == 'ext':
        b = a.a[0]
        return ext(a.a[2] + hi, a.a[2] + lo, b)
    if op == 'zext':
        x = a.a[0]
        if hi < x.w:
            return ext(hi, lo, x)
        if lo == 0:
            return zext(x.w, n, x)
        return zext(x.w - lo, n, ext(x.w - 1, lo, x))
    if op == 'sext' and hi < a.a[0].w:
        return ext(hi, lo, a.a[0])
    if op == 'concat':
        pos = a.w
        for (pw, p) in a.a:
            pos -= pw
            if lo >= pos:
                if hi < pos + pw:
                    return ext(hi - pos, lo - pos, p) if (pw != n) else p
                break
        parts = []
        pos = a.w
        for (pw, p) in a.a:
            pos -= pw
            h = min(hi, pos + pw - 1)
            l = max(lo, pos)
            if h >= l:
                parts.append((h - l + 1, ext(h - pos, l - pos, p) if h - l + 1 != pw else p))
        return concat(parts)
    if op == 'lshr' and type(a.a[1]) is int:
        k = a.a[1]
        if hi + k < a.w:
            return ext(hi + k, lo + k, a.a[0])
    if op == 'shl' and type(a.a[1]) is int:
        k = a.a[1]
        if lo >= k:
            return ext(hi - k, lo - k, a.a[0])
        if lo == 0:
            return shl(n, ext(hi, 0, a.a[0]), k)
    if op == 'and':
        x, y = a.a
        if type(y) is int:
            return and_(n, ext(hi, lo, x), (y >> lo) & ((1 << n) - 1))
        if n == 1:
            return and_(n, ext(hi, lo, x), ext(hi, lo, y))
    if op == 'or' or op == 'xor':
        f = or_ if op == 'or' else xor
        x, y = a.a
        if _leafy(x) or _leafy(y):
            return f(n, ext(hi, lo, x), ext(hi, lo, y))
    if op == 'ite' and (type(a.a[1]) is int or type(a.a[2]) is int):
        return ite(n, a.a[0], ext(hi, lo, a.a[1]), ext(hi, lo, a.a[2]))
    if op in ('add', 'sub', 'mul') and lo == 0 and (_leafy(a.a[0]) or _leafy(a.a[1])):
        f = {'add': add, 'sub': sub, 'mul': mul}[op]
        return f(n, ext(hi, 0, a.a[0]), ext(hi, 0, a.a[1]))
    return _mk('ext', n, (a, hi, lo), pm, a.vm)


def concat(parts):
    """parts: [(width, value)] most significant first"""
    out = []
    for (w, x) in parts:
        if type(x) is T and x.op == 'concat':
            sub_ = x.a
        else:
            sub_ = ((w, x),)
        for (w, x) in sub_:
            if out:
                pw, p = out[-1]
                if type(x) is int and type(p) is int:
                    out[-1] = (pw + w, (p << w) | x)
                    continue
                if type(x) is T and type(p) is T:
                    xs, xh, xl = (x.a[0], x.a[1], x.a[2]) if x.op == 'ext' else (x, w - 1, 0)
                    ps, ph, pl = (p.a[0], p.a[1], p.a[2]) if p.op == 'ext' else (p, pw - 1, 0)
                    if xs is ps and pl == xh + 1:
                        out[-1] = (pw + w, ext(ph, xl, xs))
                        continue
                    if p.op == 'zext' and w == 0:
                        pass
            out.append((w, x))
    if len(out) == 1:
        return out[0][1]
    tw = sum(w for w, _ in out)
    if type(out[0][1]) is int and out[0][1] == 0:
        rest = out[1:]
        return zext(tw - out[0][0], tw, concat(rest))
    pm = 0
    vm = 0
    for (w, x) in out:
        pm = (pm << w) | pmof(x)
        vm |= vmof(x)
    return _mk('concat', tw, tuple(out), pm, vm)


# ---------------------------------------------------------------- ite, compare

def ite(w, c, a, b):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if c.op == 'xor' and c.a[1] == 1 and type(c.a[1]) is int:
        c = c.a[0]
        a, b = b, a
    if w == 1:
        if type(a) is int:
            return or_(1, c, b) if a else and_(1, not_(c), b)
        if type(b) is int:
            return or_(1, not_(c), a) if b else and_(1, c, a)
    if type(a) is T and a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if type(b) is T and b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if type(b) is T and b.op == 'ite' and (b.a[1] is a or (type(a) is int and type(b.a[1]) is int and a == b.a[1])):
        return ite(w, or_(1, c, b.a[0]), a, b.a[2])
    if a is b:
        return a
    pm = pmof(a) | pmof(b)
    if pm == 0:
        return 0
    return _mk('ite', w, (c, a, b), pm, c.vm | vmof(a) | vmof(b))


def eq(w, a, b):
    if a is b:
        return 1
    if type(a) is int:
        if type(b) is int:
            return 1 if a == b else 0
        a, b = b, a
    if type(b) is int:
        if b & ~a.pm:
            return 0
        if w == 1:
            return a if b else not_(a)
        op = a.op
        if op == 'zext':
            return eq(a.a[0].w, a.a[0], b)
        if op == 'ite':
            x, y = a.a[1], a.a[2]
            if type(x) is int or type(y) is int:
                ex, ey = eq(w, x, b), eq(w, y, b)
                if type(ex) is int or type(ey) is int:
                    return ite(1, a.a[0], ex, ey)
        if op == 'add' and type(a.a[1]) is int:
            return eq(w, a.a[0], (b - a.a[1]) & ((1 << w) - 1))
        if op == 'sub' and b == 0:
            return eq(w, a.a[0], a.a[1])
        if op == 'xor':
            if type(a.a[1]) is int:
                return eq(w, a.a[0], b ^ a.a[1])
            if b == 0:
                return eq(w, a.a[0], a.a[1])
        if op == 'shl' and type(a.a[1]) is int:
            k = a.a[1]
            return eq(w - k, ext(w - k - 1, 0, a.a[0]), b >> k)
        return _mk('eq', 1, (a, b), 1, a.vm)
    if w == 1:
        return not_(xor(1, a, b))
    if a.op == 'zext' and b.op == 'zext':
        wx, wy = a.a[0].w, b.a[0].w
        m = max(wx, wy)
        return eq(m, zext(wx, m, a.a[0]), zext(wy, m, b.a[0]))
    if a.op == 'add' and b.op == 'add' and type(a.a[1]) is int and type(b.a[1]) is int:
        return eq(w, a.a[0], add(w, b.a[0], (b.a[1] - a.a[1]) & ((1 << w) - 1)))
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', 1, (a, b), 1, a.vm | b.vm)


def ult(w, a, b):
    if a is b:
        return 0
    ia, ib = type(a) is int, type(b) is int
    if ia and ib:
        return 1 if a < b else 0
    if w == 1:
        return and_(1, not_(a), b)
    if ib:
        if b == 0:
            return 0
        if a.pm < b:
            return 1
        if b == 1:
            return eq(w, a, 0)
        if a.op == 'zext':
            return ult(a.a[0].w, a.a[0], b)
        return _mk('ult', 1, (a, b), 1, a.vm)
    if ia:
        if a >= b.pm:
            return 0
        if a == 0:
            return not_(eq(w, b, 0))
        if b.op == 'zext':
            return ult(b.a[0].w, a, b.a[0])
        return _mk('ult', 1, (a, b), 1, b.vm)
    if a.op == 'zext' and b.op == 'zext':
        wx, wy = a.a[0].w, b.a[0].w
        m = max(wx, wy)
        return ult(m, zext(wx, m, a.a[0]), zext(wy, m, b.a[0]))
    return _mk('ult', 1, (a, b), 1, a.vm | b.vm)


def ule(w, a, b):
    return not_(ult(w, b, a))


def slt(w, a, b):
    if type(a) is int and type(b) is int:
        return 1 if _signed(w, a) < _signed(w, b) else 0
    if a is b:
        return 0
    ta, tb = pmof(a) >> (w - 1), pmof(b) >> (w - 1)
    if ta == 0 and tb == 0:
        return ult(w, a, b)
    if ta == 0 and type(b) is int:      # a >= 0 > b
        return 0
    if tb == 0 and type(a) is int:      # a < 0 <= b
        return 1
    if w == 1:
        return and_(1, a, not_(b))
    return _mk('slt', 1, (a, b), 1, vmof(a) | vmof(b))


def sle(w, a, b):
    return not_(slt(w, b, a))


CMP = {
    'eq': eq,
    'ne': lambda w, a, b: not_(eq(w, a, b)),
    'ult': ult,
    'ule': ule,
    'ugt': lambda w, a, b: ult(w, b, a),
    'uge': lambda w, a, b: not_(ult(w, a, b)),
    'slt': slt,
    'sle': sle,
    'sgt': lambda w, a, b: slt(w, b, a),
    'sge': lambda w, a, b: not_(slt(w, a, b)),
}
BIN = {'add': add, 'sub': sub, 'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem,
       'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr}


# ------------------------------------------------------------------- evaluation

def _ev1(t, g):
    """evaluate one node, g(x) gives the value of an argument"""
    op = t.op
    w = t.w
    a = t.a
    if op == 'var':
        raise KeyError
    if op == 'ext':
        return (g(a[0]) >> a[2]) & ((1 << w) - 1)
    if op == 'zext':
        return g(a[0])
    if op == 'sext':
        return _signed(a[0].w, g(a[0])) & ((1 << w) - 1)
    if op == 'ite':
        return g(a[1]) if g(a[0]) else g(a[2])
    if op == 'concat':
        v = 0
        for (pw, p) in a:
            v = (v << pw) | g(p)
        return v
    x = g(a[0])
    y = g(a[1])
    if op == 'eq':
        return 1 if x == y else 0
    if op == 'ult':
        return 1 if x < y else 0
    if op == 'slt':
        w = a[0].w if type(a[0]) is T else a[1].w
        return 1 if _signed(w, x) < _signed(w, y) else 0
    return BIN[op](w, x, y)


def evaluate(t, model, memo):
    """value of t under model (var index -> int, missing = 0); memo: id -> int"""
    if type(t) is int:
        return t
    v = memo.get(t.id)
    if v is not None:
        return v
    stack = [t]
    def g(x):
        return x if type(x) is int else memo[x.id]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        if n.op == 'var':
            memo[n.id] = model.get(n.vm.bit_length() - 1, 0)
            stack.pop()
            continue
        todo = False
        if n.op == 'concat':
            for (_, p) in n.a:
                if type(p) is T and p.id not in memo:
                    stack.append(p)
                    todo = True
        else:
            for p in n.a:
                if type(p) is T and p.id not in memo:
                    stack.append(p)
                    todo = True
        if todo:
            continue
        memo[n.id] = _ev1(n, g)
        stack.pop()
    return memo[t.id]


# ------------------------------------------------------------------ translation

_ctx = z3.main_ctx()
_sorts = {}


def _sort(w):
    s = _sorts.get(w)
    if s is None:
        s = z3.BitVecSort(w)
        _sorts[w] = s
    return s


_consts = {}


def _num(w, v):
    k = (w, v)
    r = _consts.get(k)
    if r is None:
        if w == 1:
            r = z3.BoolVal(bool(v))
        else:
            r = z3.BitVecVal(v, w)
        _consts[k] = r
    return r


_B = z3.BitVecRef
_O = z3.BoolRef


def _bv(w, x):
    """z3 bit-vector for a width-w argument (booleans become 1-bit vectors)"""
    if w == 1:
        b = _num(1, x) if type(x) is int else x.z
        return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return _num(w, x) if type(x) is int else x.z


def _conv(t):
    op, w, a = t.op, t.w, t.a
    c = _ctx.ref()
    if op == 'var':
        return z3.Bool(a[0]) if w == 1 else z3.BitVec(a[0], w)
    if op == 'eq':
        k = a[0].w
        return _O(zc.Z3_mk_eq(c, _bv(k, a[0]).as_ast(), _bv(k, a[1]).as_ast()), _ctx)
    if op == 'ult' or op == 'slt':
        k = a[0].w if type(a[0]) is T else a[1].w
        f = zc.Z3_mk_bvult if op == 'ult' else zc.Z3_mk_bvslt
        return _O(f(c, _bv(k, a[0]).as_ast(), _bv(k, a[1]).as_ast()), _ctx)
    if op == 'ite':
        x = _num(w, a[1]) if type(a[1]) is int else a[1].z
        y = _num(w, a[2]) if type(a[2]) is int else a[2].z
        r = zc.Z3_mk_ite(c, a[0].z.as_ast(), x.as_ast(), y.as_ast())
        return _O(r, _ctx) if w == 1 else _B(r, _ctx)
    if op == 'zext':
        k = a[0].w
        if k == 1:
            return z3.If(a[0].z, _num(w, 1), _num(w, 0))
        return _B(zc.Z3_mk_zero_ext(c, w - k, a[0].z.as_ast()), _ctx)
    if op == 'sext':
        return _B(zc.Z3_mk_sign_ext(c, w - a[0].w, a[0].z.as_ast()), _ctx)
    if op == 'ext':
        r = _B(zc.Z3_mk_extract(c, a[1], a[2], a[0].z.as_ast()), _ctx)
        if w == 1:
            return r == z3.BitVecVal(1, 1)
        return r
    if op == 'concat':
        r = None
        for (pw, p) in a:
            x = _bv(pw, p)
            r = x if r is None else _B(zc.Z3_mk_concat(c, r.as_ast(), x.as_ast()), _ctx)
        return r
    if w == 1:
        x = _num(1, a[0]) if type(a[0]) is int else a[0].z
        y = _num(1, a[1]) if type(a[1]) is int else a[1].z
        if op == 'and':
            return z3.And(x, y)
        if op == 'or':
            return z3.Or(x, y)
        if op == 'xor':
            if type(a[1]) is int and a[1] == 1:
                return z3.Not(x)
            return z3.Xor(x, y)
        raise ValueError(op)
    x = _num(w, a[0]) if type(a[0]) is int else a[0].z
    y = _num(w, a[1]) if type(a[1]) is int else a[1].z
    return _B(_F[op](c, x.as_ast(), y.as_ast()), _ctx)


_F = {'add': zc.Z3_mk_bvadd, 'sub': zc.Z3_mk_bvsub, 'mul': zc.Z3_mk_bvmul, 'udiv': zc.Z3_mk_bvudiv,
      'urem': zc.Z3_mk_bvurem, 'sdiv': zc.Z3_mk_bvsdiv, 'srem': zc.Z3_mk_bvsrem, 'and': zc.Z3_mk_bvand,
      'or': zc.Z3_mk_bvor, 'xor': zc.Z3_mk_bvxor, 'shl': zc.Z3_mk_bvshl, 'lshr': zc.Z3_mk_bvlshr,
      'ashr': zc.Z3_mk_bvashr}


def to_z3(t):
    if type(t) is int:
        return _num(1, t)
    if t.z is not None:
        return t.z
    stack = [t]
    while stack:
        n = stack[-1]
        if n.z is not None:
            stack.pop()
            continue
        todo = False
        for p in n.a:
            if type(p) is tuple:
                p = p[1]
            if type(p) is T and p.z is None:
                stack.append(p)
                todo = True
        if todo:
            continue
        n.z = _conv(n)
        stack.pop()
    return t.z
