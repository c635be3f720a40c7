"""Meaning of Python operators over the verifier's values."""
import ast
from fractions import Fraction
import math

import z3

from .values import *
from .values import _cases

I, R = z3.IntSort(), z3.RealSort()
PYDIV = z3.Function('PYDIV', I, I, I)
PYMOD = z3.Function('PYMOD', I, I, I)
PYMODR_Q = z3.Function('PYMODR_Q', R, R, I)
PYMODR = z3.Function('PYMODR', R, R, R)
RPOW = z3.Function('RPOW', R, R, R)
POW2 = z3.Function('POW2', I, I)
INTREAL = z3.Function('FLOORQ', R, I)

OPNAMES = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
           ast.LShift: 'lshift', ast.RShift: 'rshift', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor', ast.MatMult: 'matmul'}


def const_num(v):
    """Concrete rational of a numeric value, or None."""
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, float):
        return Fraction(repr(v))
    if is_z3(v):
        s = z3.simplify(v) if v.num_args() else v
        if z3.is_int_value(s):
            return Fraction(s.as_long())
        if z3.is_rational_value(s):
            return Fraction(s.numerator_as_long(), s.denominator_as_long())
        if z3.is_true(s):
            return Fraction(1)
        if z3.is_false(s):
            return Fraction(0)
    return None


def fold(t):
    """Simplify a term to a literal when it is constant."""
    if is_z3(t) and t.num_args():
        s = z3.simplify(t)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_rational_value(s) or z3.is_true(s) or z3.is_false(s):
            return s
    return t


def known(V, c):
    """True / False if the path decides c, else None (cheap solver query)."""
    k = const_bool(c)
    if k is not None:
        return k
    if not V.feasible(c):
        return False
    if not V.feasible(z3.Not(c)):
        return True
    return None


def pick(V, c, a, b):
    k = known(V, c)
    if k is True:
        return a
    if k is False:
        return b
    return ite(c, a, b)


# ---------------------------------------------------------------------------------------------- numbers
def int_divmod(V, a, b, np=False):
    a, b = to_int(a), to_int(b)
    cb, ca = const_int(b), const_int(a)
    if cb is not None:
        if cb == 0:
            if np:
                raise Unsupported('numpy integer division by zero')
            V.throw('ZeroDivisionError')
        if ca is not None:
            return ca // cb, ca % cb
        if cb > 0:
            return Z(a) / cb, Z(a) % cb
        return -((Z(a) + 0) / (-cb)) if False else (-Z(a)) / (-cb), -((-Z(a)) % (-cb))
    if not np and V.decide(Z(b) == 0):
        V.throw('ZeroDivisionError')
    a, b = Z(a), Z(b)
    q, r = PYDIV(a, b), PYMOD(a, b)
    V.axiom(z3.Implies(b != 0, a == q * b + r))
    V.axiom(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
    V.axiom(z3.Implies(b < 0, z3.And(r <= 0, r > b)))
    V.axiom(z3.Implies(z3.And(a >= 0, a < b), z3.And(q == 0, r == a)))
    V.axiom(z3.Implies(z3.And(a >= b, a < 2 * b, b > 0), z3.And(q == 1, r == a - b)))
    V.axiom(z3.Implies(z3.And(a < 0, a >= -b, b > 0), z3.And(q == -1, r == a + b)))
    return q, r


def real_divmod(V, a, b, np=False):
    a, b = to_real(a), to_real(b)
    if not np and const_num(b) is None and V.decide(b == 0):
        V.throw('ZeroDivisionError')
    if const_num(b) == 0 and not np:
        V.throw('ZeroDivisionError')
    q, r = PYMODR_Q(a, b), PYMODR(a, b)
    V.axiom(z3.Implies(b != 0, a == z3.ToReal(q) * b + r))
    V.axiom(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
    V.axiom(z3.Implies(b < 0, z3.And(r <= 0, r > b)))
    V.axiom(z3.Implies(z3.And(a >= 0, a < b), z3.And(q == 0, r == a)))
    V.axiom(z3.Implies(z3.And(a >= b, a < 2 * b, b > 0), z3.And(q == 1, r == a - b)))
    V.axiom(z3.Implies(z3.And(a < 0, a >= -b, b > 0), z3.And(q == -1, r == a + b)))
    return q, r


def pow2(V, n):
    c = const_int(n)
    if c is not None and c >= 0:
        return 2 ** c
    t = POW2(Z(n))
    V.axiom(z3.Implies(Z(n) >= 0, t >= 1))
    V.axiom(z3.Implies(Z(n) >= 1, t == 2 * POW2(Z(n) - 1)))
    V.axiom(z3.Implies(Z(n) == 0, t == 1))
    return t


def power(V, a, b, np=False):
    ca, cb = const_num(a), const_num(b)
    if cb is not None and cb.denominator == 1 and 0 <= cb <= 8:
        n = int(cb)
        if n == 0:
            return 1 if is_int(a) else z3.RealVal(1)
        r = a
        for _ in range(n - 1):
            r = arith(V, 'mul', r, a, np)
        return r if not is_real(b) or is_real(r) else to_real(r)
    if ca is not None and cb is not None and ca > 0 and cb.denominator == 1 and abs(cb) < 4096:
        v = ca ** int(cb)
        if is_int(a) and is_int(b) and cb >= 0:
            return int(v)
        return Z(Fraction(v))
    if is_int(a) and is_int(b) and ca == 2:
        if V.decide(Z(b) >= 0):
            return pow2(V, b)
        return 1 / to_real(pow2(V, -Z(b)))
    x, y = to_real(a), to_real(b)
    t = RPOW(x, y)
    V.axiom(z3.Implies(x > 0, t > 0))
    V.axiom(z3.Implies(y == 0, t == 1))
    V.axiom(z3.Implies(y == 1, t == x))
    V.axiom(z3.Implies(x == 1, t == 1))
    V.axiom(z3.Implies(z3.And(x == 0, y > 0), t == 0))
    V.axiom(z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), z3.And(t >= 0, t <= 1)))
    V.axiom(z3.Implies(z3.And(x >= 1, y >= 0), t >= 1))
    V.unit.assumed.add('real power: positive on positive bases, 1 at exponent 0, identity at exponent 1, maps [0,1] to [0,1] for exponents >= 0')
    return t


def arith(V, op, a, b, np=False):
    """Numbers only."""
    if isinstance(a, FracV) or isinstance(b, FracV):
        return frac_arith(V, op, a, b)
    if op in ('and', 'or', 'xor') and is_bool(a) and is_bool(b):
        return And(a, b) if op == 'and' else Or(a, b) if op == 'or' else Z(a) != Z(b)
    real = is_real(a) or is_real(b)
    ca, cb = const_num(a), const_num(b)
    if op in ('add', 'sub', 'mul'):
        if ca is not None and cb is not None:
            v = ca + cb if op == 'add' else ca - cb if op == 'sub' else ca * cb
            return Z(v) if real else int(v)
        if real:
            # units
            if op == 'add' and ca == 0:
                return to_real(b)
            if op in ('add', 'sub') and cb == 0:
                return to_real(a)
            if op == 'mul' and ca == 1:
                return to_real(b)
            if op == 'mul' and cb == 1:
                return to_real(a)
            x, y = to_real(a), to_real(b)
        else:
            x, y = Z(to_int(a)), Z(to_int(b))
        return x + y if op == 'add' else x - y if op == 'sub' else x * y
    if op == 'truediv':
        if cb is not None:
            if cb == 0:
                if np:
                    raise Unsupported('numpy division by zero')
                V.throw('ZeroDivisionError')
            if ca is not None:
                return Z(ca / cb)
        elif not np and V.decide(to_real(b) == 0):
            V.throw('ZeroDivisionError')
        return to_real(a) / to_real(b)
    if op in ('floordiv', 'mod'):
        if real:
            if ca is not None and cb is not None and cb != 0:
                q = ca // cb
                return Z(Fraction(q)) if op == 'floordiv' else Z(ca - q * cb)
            q, r = real_divmod(V, a, b, np)
            return z3.ToReal(q) if op == 'floordiv' else r
        q, r = int_divmod(V, a, b, np)
        return q if op == 'floordiv' else r
    if op == 'pow':
        return power(V, a, b, np)
    if real:
        V.throw('TypeError', 'bit operation on float')
    if op == 'lshift':
        if ca is not None and cb is not None:
            return int(ca) << int(cb)
        return arith(V, 'mul', a, pow2(V, b))
    if op == 'rshift':
        if ca is not None and cb is not None:
            return int(ca) >> int(cb)
        if cb is not None:
            return Z(a) / (2 ** int(cb))
        return int_divmod(V, a, pow2(V, b))[0]
    if ca is not None and cb is not None:
        return int(ca) & int(cb) if op == 'and' else int(ca) | int(cb) if op == 'or' else int(ca) ^ int(cb)
    if op == 'and':
        for x, c in ((a, cb), (b, ca)):
            if c is not None and c >= 0 and (int(c) & (int(c) + 1)) == 0:
                return Z(to_int(x)) % (int(c) + 1)
    else:
        for x, c in ((a, cb), (b, ca)):
            if c is not None and c >= 0:
                xi = Z(to_int(x))
                if c == 0:
                    return xi
                if known(V, z3.And(xi >= 0, xi < (int(c) & -int(c)))) is True:      # no common bits
                    return xi + int(c)
    if op == 'and' and V.ghost.get('bits'):
        return bitand(V, a, b)
    raise Unsupported('bit operation on symbolic integers')


BITAND = z3.Function('BITAND', z3.IntSort(), z3.IntSort(), z3.IntSort())


def bitand(V, a, b):
    """a & b of naturals, defined bit by bit (units that use it ask for it)."""
    a, b = Z(to_int(a)), Z(to_int(b))
    r = BITAND(a, b)
    V.axiom(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= 0, r == 2 * BITAND(a / 2, b / 2) + z3.If(z3.And(a % 2 == 1, b % 2 == 1), 1, 0))))
    V.axiom(z3.Implies(z3.Or(a == 0, b == 0), r == 0))
    V.axiom(z3.Implies(z3.And(a == b, a >= 0), r == a))
    return r


def frac_parts(v):
    if isinstance(v, FracV):
        return v.num, v.den
    return to_int(v), 1


def mkfrac(num, den):
    cn, cd = const_int(num), const_int(den)
    if cn is not None and cd is not None:
        f = Fraction(cn, cd)
        return FracV(f.numerator, f.denominator)
    r = FracV(num, den)
    r.value_only = True
    return r


def frac_arith(V, op, a, b):
    if is_real(a) or is_real(b):
        return arith(V, op, a.real if isinstance(a, FracV) else a, b.real if isinstance(b, FracV) else b)
    (an, ad), (bn, bd) = frac_parts(a), frac_parts(b)
    mul = lambda x, y: arith(V, 'mul', x, y)
    if op == 'add':
        return mkfrac(arith(V, 'add', mul(an, bd), mul(bn, ad)), mul(ad, bd))
    if op == 'sub':
        return mkfrac(arith(V, 'sub', mul(an, bd), mul(bn, ad)), mul(ad, bd))
    if op == 'mul':
        return mkfrac(mul(an, bn), mul(ad, bd))
    if op == 'truediv':
        if const_int(bn) is not None:
            if const_int(bn) == 0:
                V.throw('ZeroDivisionError')
        elif V.decide(Z(bn) == 0):
            V.throw('ZeroDivisionError')
        n, d = mul(an, bd), mul(ad, bn)
        s = pick(V, Z(bn) > 0, 1, -1) if const_int(bn) is None else (1 if const_int(bn) > 0 else -1)
        return mkfrac(mul(n, s), mul(d, s))
    if op in ('mod', 'floordiv'):
        q, r = real_divmod(V, to_real(a), to_real(b))
        return q if op == 'floordiv' else r
    if op == 'pow' and const_int(b) is not None and const_int(b) >= 0:
        r = mkfrac(1, 1)
        for _ in range(const_int(b)):
            r = frac_arith(V, 'mul', r, a)
        return r
    return arith(V, op, to_real(a), to_real(b))


def is_number(v):
    return is_num(v) or isinstance(v, FracV)


# ---------------------------------------------------------------------------------------------- arrays
def out_dtype(op, a, b):
    def dt(x):
        if isinstance(x, Arr):
            return x.dtype
        return 'bool' if is_bool(x) else 'int' if is_int(x) else 'float'
    x, y = dt(a), dt(b)
    if 'obj' in (x, y):
        raise Unsupported('arithmetic on object arrays')
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        return 'bool'
    if op in ('and', 'or', 'xor') and x == y == 'bool':
        return 'bool'
    if op == 'truediv':
        return 'float'
    if 'float' in (x, y):
        return 'float'
    for p, q, other in ((x, y, b), (y, x, a)):
        if p in NARROW:
            if p == q or q == 'bool':
                return p
            if not isinstance(other, Arr) and is_int(other):
                lo, hi = NARROW[p]
                if const_int(other) is not None and lo <= const_int(other) <= hi:
                    return p
            raise Unsupported('mixed integer widths')
    return 'int'


NARROW = {'int8': (-2 ** 7, 2 ** 7 - 1), 'int16': (-2 ** 15, 2 ** 15 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1),
          'uint8': (0, 2 ** 8 - 1), 'uint16': (0, 2 ** 16 - 1), 'uint32': (0, 2 ** 32 - 1)}


def narrow(v, dtype):
    """v when it fits, an unspecified value otherwise (numpy wraps or leaves it undefined)."""
    lo, hi = NARROW[dtype]
    c = const_int(v)
    if c is not None and lo <= c <= hi:
        return c
    v = Z(to_int(v))
    return z3.If(z3.And(v >= lo, v <= hi), v, z3.Function('WRAP_' + dtype, I, I)(v))


def same_dim(V, a, b):
    """1 if broadcast of a, 2 if of b, 0 if equal."""
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None:
        if ca == cb:
            return 0
        if ca == 1:
            return 1
        if cb == 1:
            return 2
        V.throw('ValueError', 'operands could not be broadcast together')
    if is_z3(a) and is_z3(b) and a.eq(b):
        return 0
    if ca == 1:
        return 1 if not V.decide(Z(b) == 1) else 0
    if cb == 1:
        return 2 if not V.decide(Z(a) == 1) else 0
    if V.decide(Z(a) == Z(b)):
        return 0
    if V.decide(Z(a) == 1):
        return 1
    if V.decide(Z(b) == 1):
        return 2
    V.throw('ValueError', 'operands could not be broadcast together')


def broadcast(V, arrs):
    """Common shape and accessors of arrays / scalars."""
    nd = max(a.ndim if isinstance(a, Arr) else 0 for a in arrs)
    shape = [1] * nd
    for a in arrs:
        if not isinstance(a, Arr):
            continue
        for k in range(a.ndim):
            d = nd - a.ndim + k
            m = same_dim(V, shape[d], a.shape[k])
            if m == 1 or (m == 0 and const_int(shape[d]) is None and const_int(a.shape[k]) is not None):
                shape[d] = a.shape[k]
    accs = []
    for a in arrs:
        if not isinstance(a, Arr):
            accs.append(lambda *i, a=a: a)
            continue
        one = []
        for k in range(a.ndim):
            d = nd - a.ndim + k
            ck, cs = const_int(a.shape[k]), const_int(shape[d])
            if ck == 1 and cs != 1:
                one.append(True)
            elif ck is None and not (is_z3(shape[d]) and a.shape[k].eq(shape[d])) and known(V, a.shape[k] == Z(shape[d])) is not True:
                one.append(True)
            else:
                one.append(False)
        get, imap, off = a.storage.get, a.imap, nd - a.ndim
        accs.append(lambda *i, get=get, imap=imap, off=off, one=tuple(one): get(*imap(*[0 if o else x for o, x in zip(one, i[off:])])))
    return tuple(shape), accs


def coerce_elem(v, dtype):
    if dtype == 'float':
        return to_real(v)
    if dtype == 'int':
        return to_int(v)
    if dtype in NARROW:
        return narrow(v, dtype)
    return v


def elementwise(V, f, dtype, *arrs):
    shape, accs = broadcast(V, arrs)
    if not shape:
        return f(*[a(()) if False else a() for a in accs])
    return V.mkarr(shape, lambda *i: coerce_elem(f(*[a(*i) for a in accs]), dtype), dtype)


def arr_binop(V, op, a, b):
    a, b = as_operand(V, a), as_operand(V, b)
    if any(isinstance(x, Arr) and x.dtype in NARROW for x in (a, b)):
        for x in (a, b):
            # numpy picks the result width by the value of a scalar operand
            if not isinstance(x, Arr) and is_int(x) and const_int(x) is None:
                w = next(y.dtype for y in (a, b) if isinstance(y, Arr) and y.dtype in NARROW)
                if known(V, z3.And(x >= max(NARROW[w][0], -128), x <= 127)) is not True:
                    raise Unsupported('integer width depends on a scalar')
                dt = w
                break
        else:
            dt = out_dtype(op, a, b)
    else:
        dt = out_dtype(op, a, b)
    if op in ('floordiv', 'mod') and dt == 'bool':
        dt = 'int'
    return elementwise(V, lambda x, y: arith(V, op, x, y, np=True), dt, a, b)


def as_operand(V, v):
    if isinstance(v, Arr) or is_number(v):
        return v.real if isinstance(v, FracV) else v
    if isinstance(v, (SList, tuple)):
        from .models import asarray
        return asarray(V, v)
    raise Unsupported('array operand %r' % (v,))


def linear_form(a):
    """Window of a into its storage: (base indices, for each storage dimension the (view dim, stride) or None)."""
    nd = a.ndim
    zero = a.imap(*([0] * nd))
    D = len(zero)
    drivers = [None] * D
    probe = [z3.Int('lf%d' % k) for k in range(nd)]
    for k in range(nd):
        one = a.imap(*[1 if j == k else 0 for j in range(nd)])
        hit = 0
        for d in range(D):
            diff = const_int(Z(one[d]) - Z(zero[d]))
            if diff is None:
                raise Unsupported('write through an irregular view')
            if diff != 0:
                hit += 1
                if drivers[d] is not None:
                    raise Unsupported('write through an irregular view')
                drivers[d] = (k, diff)
        if hit != 1 and const_int(a.shape[k]) != 1:
            raise Unsupported('write through a broadcast view')
    full = a.imap(*probe)
    for d in range(D):
        exp = Z(zero[d]) + (drivers[d][1] * probe[drivers[d][0]] if drivers[d] else 0)
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(Z(full[d]) != exp)
        if s.check() != z3.unsat:
            raise Unsupported('write through an irregular view')
    return zero, drivers


def arr_write(V, a, value):
    """a[...] = value for the whole window a."""
    if a.readonly:
        V.throw('ValueError', 'assignment destination is read-only')
    st = a.storage
    if isinstance(value, Arr):
        if value.ndim > a.ndim:
            raise Unsupported('broadcast in assignment')
        vs = value.shape
        one = []
        for k in range(value.ndim):
            m = same_dim(V, vs[k], a.shape[a.ndim - value.ndim + k])
            if m == 2:
                V.throw('ValueError', 'could not broadcast')
            one.append(m == 1)
        vget, vmap, off = value.storage.get, value.imap, a.ndim - value.ndim
        val = lambda *j: vget(*vmap(*[0 if o else x for o, x in zip(one, j[off:])]))
    else:
        if isinstance(value, (SList, tuple)):
            from .models import asarray
            return arr_write(V, a, asarray(V, value))
        val = lambda *j: value
    dtype = a.dtype
    V.wrote(st, None, None)
    zero, drivers = linear_form(a)
    old = st.get
    shape = a.shape

    def get(*s):
        cond, j = [], [0] * a.ndim
        for d in range(len(s)):
            dr = drivers[d]
            if dr is None:
                c = Z(s[d]) == Z(zero[d])
                c = const_bool(c) if const_bool(c) is not None else c
                cond.append(c)
            else:
                k, stride = dr
                diff = fold(Z(s[d]) - Z(zero[d]))
                if stride == 1:
                    j[k] = diff
                elif stride == -1:
                    j[k] = fold(-Z(diff))
                else:
                    j[k] = Z(diff) / stride
                    cond.append(Z(diff) % abs(stride) == 0)
                cond.append(simp(Z(j[k]) >= 0))
                cond.append(simp(Z(j[k]) < Z(shape[k])))
        c = And(*cond)
        return _cases(c, lambda: coerce_assign(V, val(*j), dtype), lambda: old(*s))
    st.get = get
    st.arity = len(zero)


def simp(c):
    k = const_bool(c)
    return c if k is None else k


def coerce_assign(V, v, dtype):
    if dtype == 'float':
        return to_real(v)
    if dtype == 'int':
        if is_real(v) or isinstance(v, FracV):
            return trunc(V, to_real(v))
        return to_int(v)
    if dtype in NARROW:
        return narrow(trunc(V, to_real(v)) if is_real(v) or isinstance(v, FracV) else to_int(v), dtype)
    if dtype == 'bool' and is_num(v) and not is_bool(v):
        return Z(v) != 0
    return v


def floor(V, x):
    c = const_num(x)
    if c is not None:
        return math.floor(c)
    if is_int(x) or is_bool(x):
        return to_int(x)
    return z3.ToInt(to_real(x))


def trunc(V, x):
    """int(x) of a real."""
    c = const_num(x)
    if c is not None:
        return math.trunc(c)
    if is_int(x) or is_bool(x):
        return to_int(x)
    x = to_real(x)
    k = known(V, x >= 0)
    if k is True:
        return z3.ToInt(x)
    if k is False:
        return -z3.ToInt(-x)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


# ---------------------------------------------------------------------------------------------- binary operators
def user_class(V, v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, NT) and v.cls is not None:
        return v.cls
    if isinstance(v, Ref):
        return V.ref_class(v) if v.cls is not None else None
    return None


def user_binop(V, name, a, b):
    """__name__ / __rname__ of user classes; returns (found, value)."""
    ca, cb = user_class(V, a), user_class(V, b)
    NI = V.builtin('NotImplemented')
    if ca is not None:
        m, owner = ca.lookup('__%s__' % name)
        if isinstance(m, Func):
            r = V.call(m, [a, b])
            if r is not NI:
                return True, r
    if cb is not None:
        m, owner = cb.lookup('__r%s__' % name)
        if isinstance(m, Func):
            r = V.call(m, [b, a])
            if r is not NI:
                return True, r
    return False, None


def binop(V, op, a, b):
    name = OPNAMES[type(op)]
    if is_number(a) and is_number(b):
        return arith(V, name, a, b)
    if isinstance(a, (Obj, Ref, NT)) or isinstance(b, (Obj, Ref, NT)):
        found, r = user_binop(V, name, a, b)
        if found:
            return r
    if isinstance(a, Arr) or isinstance(b, Arr):
        return arr_binop(V, name, a, b)
    if name == 'add':
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, SList) and isinstance(b, SList):
            if a.typ != b.typ:
                V.throw('TypeError')
            return V.mklist(a.seq.concat(b.seq), a.typ)
        if isinstance(a, (str, Text)) and isinstance(b, (str, Text)):
            return Text.make([a, b])
        if isinstance(a, (str, Opaque)) and isinstance(b, (str, Opaque)):
            return Opaque('text')
        if isinstance(a, (tuple, NT)) and isinstance(b, (tuple, NT)):
            return tuple(seq_of(V, a).items) + tuple(seq_of(V, b).items)
    if name == 'mul':
        for x, y in ((a, b), (b, a)):
            if is_int(y):
                c = const_int(y)
                if isinstance(x, str) and c is not None:
                    return x * c
                if isinstance(x, (str, Text)):
                    return Opaque('text')
                if isinstance(x, tuple) and c is not None:
                    return x * c
                if isinstance(x, SList):
                    return V.mklist(repeat_seq(V, x.seq, y))
    if name == 'mod' and isinstance(a, (str, Opaque)):
        try:
            args = b if isinstance(b, tuple) else (b,)
            if isinstance(a, str) and all(isinstance(x, (str, int)) for x in args):
                return a % (args if isinstance(b, tuple) else b)
        except (TypeError, ValueError):
            pass
        t = percent_text(a, args) if isinstance(a, str) else None
        return Opaque('text') if t is None else t
    if isinstance(a, SSet) and isinstance(b, SSet):
        if name == 'or':
            return set_union(V, a, b)
        if name == 'and':
            return set_filter(V, a, lambda x: contains_set(V, b, x))
        if name == 'sub':
            return set_filter(V, a, lambda x: Not(contains_set(V, b, x)))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        V.throw('TypeError', 'unsupported operand')
    raise Unsupported('operator %s on %r and %r' % (name, a, b))


def repeat_seq(V, s, n):
    c = const_int(n)
    if s.concrete and c is not None:
        return Seq.of(s.items * max(c, 0))
    ln = const_int(s.n)
    cnt = pick(V, Z(n) >= 0, n, 0) if c is None else max(c, 0)
    if ln == 1:
        x = s[0]
        return Seq(cnt, lambda i: x, None, s.kind)
    if ln is not None:
        return Seq(Z(cnt) * ln, lambda i: s[Z(i) % ln], None, s.kind)
    raise Unsupported('repetition of a symbolic list')


def augmented(V, op, a, b):
    name = OPNAMES[type(op)]
    if isinstance(a, SList) and name == 'add':
        V.setseq(a, a.seq.concat(seq_of(V, b)))
        return a
    if isinstance(a, Arr):
        r = arr_binop(V, name, a, b)
        if not isinstance(r, Arr) or r.ndim != a.ndim:
            raise Unsupported('in-place broadcast')
        if a.dtype == 'int' and r.dtype == 'float':
            V.throw('TypeError', 'cannot cast in place')
        arr_write(V, a, r)
        return a
    if isinstance(a, SSet) and name in ('or', 'and', 'sub'):
        r = binop(V, op, a, b)
        V.wrote(a, None, r.kind)
        a.items, a.mem, a.kind = r.items, r.mem, r.kind
        return a
    cls = user_class(V, a)
    if cls is not None:
        m, owner = cls.lookup('__i%s__' % name)
        if isinstance(m, Func):
            return V.call(m, [a, b])
    return binop(V, op, a, b)


def neg(V, v):
    if is_num(v):
        c = const_num(v)
        if c is not None:
            return Z(-c) if is_real(v) else int(-c)
        return -(Z(to_int(v)) if not is_real(v) else v)
    if isinstance(v, FracV):
        r = FracV(neg(V, v.num), v.den)
        return r
    if isinstance(v, Arr):
        return elementwise(V, lambda x: neg(V, x), v.dtype, v)
    cls = user_class(V, v)
    if cls is not None:
        m, _ = cls.lookup('__neg__')
        if m is not None:
            return V.call(m, [v])
    raise Unsupported('negation of %r' % (v,))


def invert(V, v):
    if is_int(v):
        return arith(V, 'sub', neg(V, v), 1)
    if isinstance(v, Arr) and v.dtype == 'bool':
        return elementwise(V, lambda x: Not(x), 'bool', v)
    cls = user_class(V, v)
    if cls is not None:
        m, _ = cls.lookup('__invert__')
        if m is not None:
            return V.call(m, [v])
    raise Unsupported('~ of %r' % (v,))


# ---------------------------------------------------------------------------------------------- comparisons
def num_cmp(op, a, b):
    if isinstance(a, FracV) or isinstance(b, FracV):
        if not (is_real(a) or is_real(b)):
            (an, ad), (bn, bd) = frac_parts(a), frac_parts(b)
            return num_cmp(op, Z(an) * Z(bd), Z(bn) * Z(ad))
    ca, cb = const_num(a) if not isinstance(a, FracV) else None, const_num(b) if not isinstance(b, FracV) else None
    if ca is not None and cb is not None:
        return {'eq': ca == cb, 'ne': ca != cb, 'lt': ca < cb, 'le': ca <= cb, 'gt': ca > cb, 'ge': ca >= cb}[op]
    if is_bool(a) and is_bool(b) and op in ('eq', 'ne'):
        x, y = Z(a), Z(b)
    elif is_real(a) or is_real(b) or isinstance(a, FracV) or isinstance(b, FracV):
        x, y = to_real(a), to_real(b)
    else:
        x, y = Z(to_int(a)), Z(to_int(b))
    r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[op]()
    return r


CMP = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}


def compare(V, op, a, b):
    if isinstance(op, ast.Is):
        return identical(V, a, b)
    if isinstance(op, ast.IsNot):
        return Not(identical(V, a, b))
    if isinstance(op, ast.In):
        return contains(V, b, a)
    if isinstance(op, ast.NotIn):
        return Not(contains(V, b, a))
    return cmp(V, CMP[type(op)], a, b)


def cmp(V, op, a, b):
    if is_number(a) and is_number(b):
        return num_cmp(op, a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if (a is None or b is None) or isinstance(a, str) or isinstance(b, str):
            return op == 'ne'
        a, b = as_operand(V, a), as_operand(V, b)
        return elementwise(V, lambda x, y: num_cmp(op, x, y), 'bool', a, b)
    if op == 'eq':
        return eq(V, a, b)
    if op == 'ne':
        cls = user_class(V, a)
        if cls is not None:
            m, _ = cls.lookup('__ne__')
            if isinstance(m, Func):
                return V.truth(V.call(m, [a, b]))
        return Not(eq(V, a, b))
    ca, cb = user_class(V, a), user_class(V, b)
    if ca is not None:
        m, _ = ca.lookup('__%s__' % op)
        if isinstance(m, Func):
            return V.truth(V.call(m, [a, b]))
    if cb is not None:
        m, _ = cb.lookup('__%s__' % SWAP[op])
        if isinstance(m, Func):
            return V.truth(V.call(m, [b, a]))
    if isinstance(a, (tuple, NT)) and isinstance(b, (tuple, NT)):
        x, y = seq_of(V, a).items, seq_of(V, b).items
        return lex(V, op, x, y)
    if isinstance(a, str) and isinstance(b, str):
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
    if isinstance(a, SSet) and isinstance(b, SSet) and op in ('le', 'ge'):
        x, y = (a, b) if op == 'le' else (b, a)
        if x.items is not None:
            return And(*[contains_set(V, y, i) for i in x.items])
    if a is None or b is None:
        V.throw('TypeError', 'not comparable')
    raise Unsupported('comparison %s of %r and %r' % (op, a, b))


def lex(V, op, x, y):
    strict = op in ('lt', 'gt')
    base = 'lt' if op in ('lt', 'le') else 'gt'
    if not x or not y:
        if not x and not y:
            return not strict
        return (not x) if base == 'lt' else bool(x)
    e = eq(V, x[0], y[0])
    k = const_bool(e)
    if k is True:
        return lex(V, op, x[1:], y[1:])
    head = cmp(V, base, x[0], y[0])
    if k is False:
        return head
    return Or(head, And(e, lex(V, op, x[1:], y[1:])))


def percent_text(fmt, args):
    import re
    bits = re.split(r'(%[sd])', fmt)
    if any('%' in b for b in bits if b not in ('%s', '%d')) or sum(b in ('%s', '%d') for b in bits) != len(args):
        return None
    out, args = [], list(args)
    for b in bits:
        if b in ('%s', '%d'):
            x = args.pop(0)
            if not (isinstance(x, (str, Text)) and b == '%s') and not (is_num(x) and is_int(x) and not isinstance(x, bool)):
                return None
            out.append(str(const_int(x)) if not isinstance(x, (str, Text)) and const_int(x) is not None else x)
        else:
            out.append(b)
    return Text.make(out)


def identical(V, a, b):
    from .engine import HeapView
    if a is None or b is None:
        x = b if a is None else a
        if x is None:
            return True
        if isinstance(x, Ref):
            return (x.term == NONE) if x.maybe_none else False
        if isinstance(x, Opaque) and not x.known:
            raise Unsupported('identity of an unknown value')
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        return simp(a.term == b.term)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if is_bool(a) and is_bool(b):
        return Z(a) == Z(b)
    if isinstance(a, TypeOf) or isinstance(b, TypeOf):
        return eq(V, a, b)
    if is_num(a) and is_num(b):
        raise Unsupported('identity of numbers')
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a is not b and (a.storage.frozen or b.storage.frozen):
            raise Unsupported('identity of arrays in a list of symbolic length')
        return a is b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, SList) and isinstance(b, SList) and (a.frozen or b.frozen):
        raise Unsupported('identity of a list rebound in a loop')
    if isinstance(a, (NT, tuple, FracV, HeapView)) and isinstance(b, (NT, tuple, FracV, HeapView)):
        if a is b:
            return True
        if type(a) is type(b):
            raise Unsupported('identity of tuples')
    return a is b


def type_code(V, t):
    if isinstance(t, TypeOf):
        return t.term
    if isinstance(t, ClassV):
        return Z(t.code) if t.code is not None else None
    return None


def eq(V, a, b):
    if a is b and not isinstance(a, (Obj, Opaque)):
        return True
    if is_number(a) and is_number(b):
        return num_cmp('eq', a, b)
    if isinstance(a, (Text, str)) and isinstance(b, (Text, str)) and not (isinstance(a, str) and isinstance(b, str)):
        pa, pb = [x.parts if isinstance(x, Text) else [x] for x in (a, b)]
        if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) and (not isinstance(x, str) or x == y) for x, y in zip(pa, pb)) and sum(not isinstance(x, str) for x in pa) == 1:
            return And(*[Z(x) == Z(y) for x, y in zip(pa, pb) if not isinstance(x, str)])
        raise Unsupported('equality of texts')
    if isinstance(a, CharV) or isinstance(b, CharV):
        a, b = (a, b) if isinstance(a, CharV) else (b, a)
        if isinstance(b, CharV):
            return a.code == b.code
        if isinstance(b, Opaque):
            raise Unsupported('equality of an unknown value')
        return Z(a.code) == ord(b) if isinstance(b, str) and len(b) == 1 else False
    if isinstance(a, Token) and isinstance(b, Token) and type(a) is type(b):
        return simp(a.term == b.term)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported('equality of an unknown value')
    if isinstance(a, (Obj, NT, Ref)) or isinstance(b, (Obj, NT, Ref)):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and x.cls is None:
                continue
            cls = user_class(V, x) if not (isinstance(x, Ref) and isinstance(x.cls, (list, tuple))) else None
            if cls is not None:
                m, _ = cls.lookup('__eq__')
                if isinstance(m, Func):
                    r = V.call(m, [x, y])
                    if r is not V.builtin('NotImplemented'):
                        return V.truth(r)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return simp(a.term == b.term)
    if isinstance(a, Ref) and b is None:
        return (a.term == NONE) if a.maybe_none else False
    if isinstance(b, Ref) and a is None:
        return (b.term == NONE) if b.maybe_none else False
    if isinstance(a, (TypeOf, ClassV)) and isinstance(b, (TypeOf, ClassV)):
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return a is b
        x, y = type_code(V, a), type_code(V, b)
        if x is None or y is None:
            return False
        return x == y
    if isinstance(a, (tuple, NT)) and isinstance(b, (tuple, NT)):
        x, y = seq_of(V, a).items, seq_of(V, b).items
        if len(x) != len(y):
            return False
        return And(*[eq(V, p, q) for p, q in zip(x, y)])
    if isinstance(a, SList) and isinstance(b, SList):
        return And(a.typ == b.typ, seq_eq(V, a.seq, b.seq))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq(V, a, b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, SSet) and isinstance(b, SSet):
        if a.items is not None and b.items is not None:
            return And(*([contains_set(V, b, x) for x in a.items] + [contains_set(V, a, x) for x in b.items]))
        k = a.kind or b.kind
        from .engine import All
        return V.formula(All([None], lambda x: Z(contains_set(V, a, x)) == Z(contains_set(V, b, x)), kinds=[k]))
    if isinstance(a, SDict) and isinstance(b, SDict):
        if len(a.items) != len(b.items):
            return False
        return And(*[And(contains(V, b, k), eq(V, v, getitem(V, b, k))) if const_bool(contains(V, b, k)) else False for k, v in a.items])
    if type(a) is not type(b):
        return False
    if isinstance(a, (Obj, Func, Builtin, ModuleV, Mutable)):
        return a is b
    if isinstance(a, Bound):
        return a.func is b.func and a.self_ is b.self_
    return a == b


def seq_eq(V, a, b):
    from .engine import All
    ca, cb = const_int(a.n), const_int(b.n)
    if ca is not None and cb is not None:
        if ca != cb:
            return False
        if ca <= 64:
            return And(*[eq(V, a[i], b[i]) for i in range(ca)])
    n = a.n
    return And(Z(a.n) == Z(b.n), V.formula(All((0, n), lambda i: eq(V, a[i], b[i]))))


def contains(V, c, x):
    from .engine import HeapView, HeapSet, HeapSetSnapshot
    if isinstance(c, (HeapSet, HeapSetSnapshot)):
        return c.mem(x.term if isinstance(x, Ref) else Z(x))
    if isinstance(c, SSet):
        return contains_set(V, c, x)
    if isinstance(c, SDict):
        if c.sym is not None:
            return c.sym[0](x)
        return Or(*[key_eq(V, k, x) for k, _ in c.items])
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        if isinstance(x, CharV):
            return Or(*[eq(V, x, k) for k in sorted(set(c))])
        raise Unsupported('substring test')
    if isinstance(c, Range):
        if not is_int(x):
            raise Unsupported('membership in range')
        if const_int(c.step) == 1:
            return And(Z(x) >= Z(c.start), Z(x) < Z(c.stop))
    if isinstance(c, Obj):
        m, _ = c.cls.lookup('__contains__')
        if m is not None:
            return V.truth(V.call(m, [c, x]))
    s = seq_of(V, c)
    n = const_int(s.n)
    if n is not None and n <= 64:
        return Or(*[eq(V, s[i], x) for i in range(n)])
    return V.exists(0, s.n, lambda i: eq(V, s[i], x))


def key_eq(V, k, x):
    if type(k) is not type(x) and not (is_number(k) and is_number(x)):
        if isinstance(k, (NT, tuple)) and isinstance(x, (NT, tuple)):
            return eq(V, k, x)
        if isinstance(k, (CharV, str)) and isinstance(x, (CharV, str)):
            return eq(V, k, x)
        return False
    return eq(V, k, x)


def contains_set(V, s, x):
    if s.items is not None:
        return Or(*[key_eq(V, i, x) for i in s.items])
    return s.mem(x)


# ---------------------------------------------------------------------------------------------- truth, sequences
def truth(V, v):
    from .engine import HeapSet, CompV
    from .engine import HeapView
    if isinstance(v, HeapView) and hasattr(v, 'truth'):
        return v.truth(V)
    if is_bool(v):
        return v
    if is_num(v):
        return num_cmp('ne', v, 0)
    if isinstance(v, AnyText):
        return v.term != 0
    if isinstance(v, Opaque) and v.known:
        return True
    if isinstance(v, FracV):
        return num_cmp('ne', v.num, 0)
    if v is None:
        return False
    if isinstance(v, (str, tuple)):
        return len(v) > 0
    if isinstance(v, (SList, Seq)):
        s = v.seq if isinstance(v, SList) else v
        c = const_int(s.n)
        return c > 0 if c is not None else Z(s.n) > 0
    if isinstance(v, SSet):
        if v.items is not None:
            return len(v.items) > 0
        xs = v.kind.fresh('e')
        from .engine import flatten
        return z3.Exists(flatten(xs), Z(v.mem(xs)))
    if isinstance(v, SDict) and v.sym is None:
        return len(v.items) > 0
    if isinstance(v, (Obj, NT)) and user_class(V, v) is not None:
        m, _ = v.cls.lookup('__bool__')
        if isinstance(m, Func):
            return truth(V, V.call(m, [v]))
        m, _ = v.cls.lookup('__len__')
        if isinstance(m, Func):
            return truth(V, V.call(m, [v]))
        return True if isinstance(v, Obj) else len(v.vals) > 0
    if isinstance(v, NT):
        return len(v.vals) > 0
    if isinstance(v, Ref):
        return (v.term != NONE) if v.maybe_none else True
    if isinstance(v, (Func, Bound, Builtin, ClassV, ModuleV, IterV, GenV, CompV)):
        return True
    if isinstance(v, HeapSet):
        x = z3.Int(fresh_name('e'))
        return z3.Exists([x], v.mem(x))
    if isinstance(v, Range):
        return truth(V, seq_of(V, v))
    if isinstance(v, Arr):
        if all(const_int(s) == 1 for s in v.shape):
            return truth(V, v.at(*[0] * v.ndim))
        V.throw('ValueError', 'truth value of an array is ambiguous')
    if isinstance(v, Builtin):
        return True
    raise Unsupported('truth of %r' % (v,))


def range_seq(V, r):
    a, b, s = r.start, r.stop, r.step
    ca, cb, cs = const_int(a), const_int(b), const_int(s)
    if cs == 0:
        V.throw('ValueError', 'range() arg 3 must not be zero')
    if ca is not None and cb is not None and cs is not None:
        n = len(range(ca, cb, cs))
        if n <= 5000:
            return Seq.of(list(range(ca, cb, cs)))
    if cs is None:
        raise Unsupported('range with symbolic step')
    a, b = Z(a), Z(b)
    if cs == 1:
        n = pick(V, b >= a, b if const_int(a) == 0 else b - a, 0)
        return Seq(n, (lambda i: Z(i)) if const_int(a) == 0 else (lambda i: a + Z(i)), None, KInt())
    if cs > 0:
        n = pick(V, b > a, (b - a + (cs - 1)) / cs, 0)
    else:
        n = pick(V, b < a, (a - b + (-cs - 1)) / (-cs), 0)
    return Seq(n, lambda i: a + cs * Z(i), None, KInt())


def set_enum(V, mem, kind):
    """Some enumeration of a symbolic finite set, each element once."""
    from .engine import All, flatten
    s = Seq.fresh('enum', kind)
    idx = KInt().uf('enum.idx', max(1, len(flatten(kind.fresh('x')))))
    V.assume(s.n >= 0)
    V.assume(All((0, s.n), lambda i: And(mem(s[i]), idx(*flat_ints(s[i])) == i), pat=lambda i: flat_ints(s[i])[0]))
    V.assume(All([None], lambda x: Implies(mem(x), And(idx(*flat_ints(x)) >= 0, idx(*flat_ints(x)) < s.n, eq(V, s[idx(*flat_ints(x))], x))), kinds=[kind]))
    s.idx = idx
    return s


def seq_of(V, v):
    from .models import l_append, l_extend
    from .engine import CompV, HeapSet, HeapSetSnapshot, HeapView
    if isinstance(v, Seq):
        return v
    if isinstance(v, SList):
        return v.seq
    if isinstance(v, tuple):
        return Seq.of(v)
    if isinstance(v, NT):
        return Seq.of(v.vals)
    if isinstance(v, Range):
        return range_seq(V, v)
    if isinstance(v, str):
        return Seq.of(list(v))
    if isinstance(v, SSet):
        if v.items is not None:
            if len(v.items) > 1:
                V.unit.assumed.add('iteration order of small concrete sets is insertion order')
            return Seq.of(v.items)
        return set_enum(V, v.mem, v.kind)
    if isinstance(v, (HeapSet, HeapSetSnapshot)):
        hf = v.hf
        term = v.term
        return set_enum(V, lambda x: z3.Select(term, x.term), KRef(getattr(hf, 'elem', None)))
    if isinstance(v, HeapView):
        return v.seq(V)
    if isinstance(v, SDict):
        if v.sym is None:
            return Seq.of([k for k, _ in v.items])
        from .models import order_of
        return order_of(v)[0]
    if isinstance(v, Arr):
        return v.seq()
    if isinstance(v, CompV):
        return V.comp(v.node, v.env)
    if isinstance(v, GenV):
        out = V.mklist([])
        V.collecting.append(out)

        def one(x):
            l_append(V, out, x)
        one.many = lambda xs: l_extend(V, out, V.mklist(xs))
        try:
            V.run_gen(v, one)
        finally:
            V.collecting.pop()
        return out.seq
    if isinstance(v, IterV):
        s = v.seq.slice(v.pos, v.seq.n)
        V.wrote(v, 'pos', KInt())
        v.pos = v.seq.n
        return s
    if isinstance(v, Obj):
        m, _ = v.cls.lookup('__iter__')
        if isinstance(m, Func):
            return seq_of(V, V.call(m, [v]))
        if m is not None and isinstance(m, Builtin):
            return seq_of(V, m.fn(V, v))
        g, _ = v.cls.lookup('__getitem__')
        l, _ = v.cls.lookup('__len__')
        if g is not None and l is not None:
            n = V.call(l, [v])
            c = const_int(n)
            if c is not None:
                return Seq.of([V.call(g, [v, i]) for i in range(c)])
            return Seq(n, lambda i: V.merged(lambda: V.call(g, [v, i])), None, None)
    if v is None or is_num(v):
        V.throw('TypeError', 'not iterable')
    if isinstance(v, Ref):
        cls = V.ref_class(v)
        m, _ = cls.lookup('__iter__') if cls else (None, None)
        if m is not None:
            return seq_of(V, V.call(m, [v]))
    raise Unsupported('iteration over %r' % (v,))


def length(V, v):
    from .engine import HeapView
    if isinstance(v, str):
        return len(v)
    if isinstance(v, (SList, tuple, NT, Seq, Range)):
        if isinstance(v, NT):
            return len(v.vals)
        return seq_of(V, v).n
    if isinstance(v, SSet):
        if v.items is not None:
            return len(v.items)
        return seq_of(V, v).n
    if isinstance(v, SDict):
        if v.sym is None:
            return len(v.items)
        from .models import order_of
        return order_of(v)[0].n
    if isinstance(v, Arr):
        if not v.ndim:
            V.throw('TypeError', 'len() of unsized object')
        return v.shape[0]
    if isinstance(v, HeapView):
        return v.length(V) if hasattr(v, 'length') else V.seq_of(v).n
    if isinstance(v, (Obj, Ref)):
        cls = user_class(V, v)
        m, _ = cls.lookup('__len__') if cls else (None, None)
        if m is not None:
            return V.call(m, [v])
        V.throw('TypeError', 'no len()')
    if v is None or is_num(v) or isinstance(v, (GenV,)):
        V.throw('TypeError', 'no len()')
    raise Unsupported('len of %r' % (v,))


# ---------------------------------------------------------------------------------------------- indexing
def norm_index(V, i, n, exc='IndexError', check=True):
    i = to_int(i)
    ci, cn = const_int(i), const_int(n)
    if ci is not None and cn is not None:
        if not -cn <= ci < cn:
            V.throw(exc)
        return ci + cn if ci < 0 else ci
    if ci is not None:
        if ci >= 0:
            if check and not V.decide(Z(n) > ci):
                V.throw(exc)
            return ci
        if check and not V.decide(Z(n) >= -ci):
            V.throw(exc)
        return Z(n) + ci
    if check and not V.decide(z3.And(Z(i) < Z(n), Z(i) >= -Z(n))):
        V.throw(exc)
    return pick(V, Z(i) >= 0, i, Z(i) + Z(n))


def clamp_bound(V, i, n, default):
    if i is None:
        return default
    if not is_int(i) and not is_bool(i):
        if is_num(i):
            V.throw('TypeError', 'slice indices must be integers')
        raise Unsupported('slice bound %r' % (i,))
    i = to_int(i)
    ci, cn = const_int(i), const_int(n)
    if ci is not None and cn is not None:
        return max(0, min(cn, ci + cn if ci < 0 else ci))
    j = pick(V, Z(i) < 0, Z(i) + Z(n), i) if ci is None else (Z(n) + ci if ci < 0 else ci)
    if const_int(j) == 0:
        return 0
    j = pick(V, Z(j) < 0, 0, j)
    if is_z3(j) and is_z3(n) and j.eq(n):
        return n
    return pick(V, Z(j) > Z(n), n, j)


def slice_bounds(V, s, n):
    """(start, length, step) with start within bounds."""
    step = 1 if s.step is None else const_int(s.step)
    if step is None:
        if not is_int(s.step):
            raise Unsupported('slice step')
        # symbolic positive step
        if V.decide(Z(s.step) == 0):
            V.throw('ValueError', 'slice step cannot be zero')
        if not V.decide(Z(s.step) > 0):
            raise Unsupported('negative symbolic slice step')
        a, b = clamp_bound(V, s.start, n, 0), clamp_bound(V, s.stop, n, n)
        ln = Z(b) - Z(a)
        q, r = int_divmod(V, ln + Z(s.step) - 1, s.step)
        return a, pick(V, ln > 0, q, 0), s.step
    if step == 0:
        V.throw('ValueError', 'slice step cannot be zero')
    if step > 0:
        a, b = clamp_bound(V, s.start, n, 0), clamp_bound(V, s.stop, n, n)
        if const_int(a) is not None and const_int(b) is not None:
            return const_int(a), max(0, (const_int(b) - const_int(a) + step - 1) // step), step
        ln = fold(Z(b) - Z(a))
        if const_int(a) == 0:
            ln = b
        else:
            ln = pick(V, Z(ln) >= 0, ln, 0)
        if step != 1:
            ln = (Z(ln) + (step - 1)) / step
        return a, ln, step
    # negative step
    if s.start is None:
        a = Z(n) - 1
    else:
        i = to_int(s.start)
        j = pick(V, Z(i) < 0, Z(i) + Z(n), i)
        j = pick(V, Z(j) < 0, -1, j)
        a = pick(V, Z(j) >= Z(n), Z(n) - 1, j)
    if s.stop is None:
        b = -1
    else:
        i = to_int(s.stop)
        j = pick(V, Z(i) < 0, Z(i) + Z(n), i)
        j = pick(V, Z(j) < 0, -1, j)
        b = pick(V, Z(j) >= Z(n), Z(n) - 1, j)
    ln = pick(V, Z(a) > Z(b), (Z(a) - Z(b) + (-step - 1)) / (-step), 0)
    a, ln = fold(Z(a)), fold(Z(ln))
    return a, ln, step


def slice_seq(V, seq, s):
    if seq.concrete and all(x is None or const_int(x) is not None for x in (s.start, s.stop, s.step)):
        return Seq.of(seq.items[slice(*[None if x is None else const_int(x) for x in (s.start, s.stop, s.step)])])
    a, ln, step = slice_bounds(V, s, seq.n)
    if const_int(step) == 1:
        return seq.slice(a, Z(a) + Z(ln) if const_int(a) != 0 else ln)
    return Seq(ln, lambda i: seq[Z(a) + Z(step) * Z(i)], None, seq.kind)


def getitem(V, o, i):
    from .engine import HeapView
    if isinstance(o, (SList, tuple, NT, Seq, Range)):
        if isinstance(o, NT) and o.cls is not None:
            m, _ = o.cls.lookup('__getitem__')
            if isinstance(m, Func):
                return V.call(m, [o, i])
        s = seq_of(V, o)
        if isinstance(i, slice):
            r = slice_seq(V, s, i)
            if isinstance(o, SList):
                if o.typ == 'deque':
                    V.throw('TypeError')
                return V.mklist(r)
            if isinstance(o, (tuple, NT)):
                if not r.concrete:
                    c = const_int(r.n)
                    if c is None:
                        return r
                    return tuple(r[k] for k in range(c))
                return tuple(r.items)
            return r
        if is_num(i) and not is_int(i) and not is_bool(i):
            V.throw('TypeError', 'indices must be integers')
        if not is_num(i):
            if isinstance(i, (str, type(None))):
                V.throw('TypeError')
            raise Unsupported('index %r' % (i,))
        k = norm_index(V, i, s.n)
        if s.items is not None and const_int(k) is None and any(isinstance(x, (str, Opaque, Obj)) for x in s.items):
            for j in range(len(s.items) - 1):
                if V.decide(Z(k) == j):
                    return s.items[j]
            return s.items[-1]
        return s[k]
    if isinstance(o, SDict):
        if o.sym is not None:
            if not V.decide(o.sym[0](i)):
                if o.default is not None:
                    v = V.call(o.default, [])
                    setitem(V, o, i, v)
                    return v
                V.throw('KeyError', i)
            return o.sym[1](i)
        for k, v in o.items:
            e = key_eq(V, k, i)
            if e is False:
                continue
            if V.decide(e):
                return v
        if o.default is not None:
            v = V.call(o.default, [])
            setitem(V, o, i, v)
            return v
        V.throw('KeyError', i)
    if isinstance(o, Arr):
        return arr_getitem(V, o, i)
    if isinstance(o, str):
        if isinstance(i, slice):
            return o[slice(*[None if x is None else const_int(x) for x in (i.start, i.stop, i.step)])]
        c = const_int(i)
        if c is None:
            s = Seq.of(list(o))
            raise Unsupported('character at a symbolic index')
        if not -len(o) <= c < len(o):
            V.throw('IndexError')
        return o[c]
    if isinstance(o, HeapView):
        return o.getitem(V, i)
    if isinstance(o, Obj) or isinstance(o, Ref):
        cls = user_class(V, o)
        m, _ = cls.lookup('__getitem__') if cls else (None, None)
        if m is not None:
            return V.call(m, [o, i])
    if isinstance(o, ClassV):
        m, _ = o.lookup('__class_getitem__')
        return o
    if isinstance(o, Opaque):
        return Opaque(o.what)
    if o is None:
        V.throw('TypeError', 'not subscriptable')
    raise Unsupported('subscript of %r' % (o,))


def arr_getitem(V, o, i):
    from .models import asarray
    if isinstance(i, Arr):
        return fancy(V, o, i)
    if isinstance(i, SList):
        return fancy(V, o, asarray(V, i))
    idx = i if isinstance(i, tuple) else (i,)
    if any(x is Ellipsis for x in idx):
        k = [j for j, x in enumerate(idx) if x is Ellipsis][0]
        given = sum(1 for x in idx if x is not None and x is not Ellipsis)
        idx = idx[:k] + tuple([slice(None, None, None)] * (o.ndim - given)) + idx[k + 1:]
    given = sum(1 for x in idx if x is not None)
    if given > o.ndim:
        V.throw('IndexError', 'too many indices')
    idx = idx + tuple([slice(None, None, None)] * (o.ndim - given))
    if any(isinstance(x, (Arr, SList)) for x in idx):
        pos = [j for j, x in enumerate(idx) if isinstance(x, (Arr, SList))]
        if len(pos) == 1 and all(isinstance(x, slice) and x == slice(None, None, None) for j, x in enumerate(idx) if j != pos[0]):
            return fancy(V, o, asarray(V, idx[pos[0]]), pos[0])
        raise Unsupported('mixed fancy indexing')
    shape, maps = [], []     # maps: per storage-view dimension: ('c', const) or ('v', viewdim, start, step)
    dim = 0
    for x in idx:
        if x is None:
            shape.append(1)
            continue
        n = o.shape[dim]
        if isinstance(x, slice):
            a, ln, step = slice_bounds(V, x, n)
            maps.append(('v', len(shape), a, step))
            shape.append(ln)
        elif is_int(x) or is_bool(x):
            maps.append(('c', norm_index(V, x, n)))
        elif is_num(x):
            V.throw('IndexError', 'only integers')
        else:
            raise Unsupported('array index %r' % (x,))
        dim += 1
    imap = o.imap

    def m2(*j):
        out = []
        for m in maps:
            if m[0] == 'c':
                out.append(m[1])
            else:
                _, k, a, step = m
                x = j[k]
                if const_int(step) == 1:
                    out.append(x if const_int(a) == 0 else fold(Z(x) + Z(a)))
                else:
                    out.append(fold(Z(a) + Z(step) * Z(x)))
        return imap(*out)
    if not shape:
        return o.storage.get(*m2())
    r = Arr(o.storage, tuple(shape), m2, o.dtype, o.readonly)
    return r


def fancy(V, o, idx, axis=0):
    if idx.dtype == 'bool':
        if o.ndim != 1 or idx.ndim != 1:
            raise Unsupported('boolean mask')
        s = V.filtered(Seq(o.shape[0], lambda i: (i, o.at(i)), None, None), lambda p: idx.at(p[0]), lambda p: p[1], o.storage.kind)
        return V.mkarr((s.n,), lambda i: s[i], o.dtype)
    if idx.dtype != 'int':
        V.throw('IndexError', 'arrays used as indices must be of integer type')
    n = o.shape[axis]
    from .engine import All
    small = all(const_int(s) is not None and const_int(s) <= 64 for s in idx.shape)
    if small:
        import itertools
        for j in itertools.product(*[range(const_int(s)) for s in idx.shape]):
            norm_index(V, idx.at(*j), n)
    elif not V.decide_all(All([(0, s) for s in idx.shape], lambda *j: And(Z(idx.at(*j)) < Z(n), Z(idx.at(*j)) >= -Z(n)))):
        V.throw('IndexError')
    get, imap = o.storage.get, o.imap
    iget, iimap, ind = idx.storage.get, idx.imap, idx.ndim
    shape = o.shape[:axis] + idx.shape + o.shape[axis + 1:]

    def g(*j):
        x = iget(*iimap(*j[axis:axis + ind]))
        x = to_int(x)
        c = const_int(x)
        y = x if c is not None and c >= 0 else pick(V, Z(x) >= 0, x, Z(x) + Z(n))
        return get(*imap(*(j[:axis] + (y,) + j[axis + ind:])))
    return V.mkarr(shape, g, o.dtype)


def setitem(V, o, i, v):
    from .engine import HeapView
    if isinstance(o, SList):
        if isinstance(i, slice):
            new = seq_of(V, v)
            s = o.seq
            if i.step is not None and const_int(i.step) != 1:
                raise Unsupported('extended slice assignment')
            a, ln, step = slice_bounds(V, i, s.n)
            end = fold(Z(a) + Z(ln))
            V.setseq(o, s.slice(0, a).concat(new).concat(s.slice(end, s.n)))
            return
        if not is_int(i) and not is_bool(i):
            V.throw('TypeError')
        k = norm_index(V, i, o.seq.n)
        V.setseq(o, o.seq.set(k, v))
        return
    if isinstance(o, SDict):
        if o.sym is not None:
            mem, get, kind = o.sym
            V.wrote(o, None, None)
            o.sym = (lambda x: Or(key_eq(V, i, x), mem(x)), lambda x: _cases(key_eq(V, i, x), lambda: v, lambda: get(x)), kind)
            return
        V.wrote(o, None, None)
        for j, (k, _) in enumerate(o.items):
            e = key_eq(V, k, i)
            if e is False:
                continue
            if V.decide(e):
                o.items = o.items[:j] + [(k, v)] + o.items[j + 1:]
                return
        o.items = o.items + [(i, v)]
        return
    if isinstance(o, Arr):
        if isinstance(i, (Arr, SList)):
            return arr_set_fancy(V, o, i, v)
        idx = i if isinstance(i, tuple) else (i,)
        if any(isinstance(x, (Arr, SList)) for x in idx):
            return arr_set_points(V, o, idx, v)
        ints = [x for x in idx if x is not None and (is_int(x) or is_bool(x))]
        if len(ints) == len(idx) == o.ndim:
            ks = [norm_index(V, x, n) for x, n in zip(idx, o.shape)]
            if o.readonly:
                V.throw('ValueError', 'read-only')
            if isinstance(v, Arr):
                if all(const_int(s) == 1 for s in v.shape):
                    v = v.at(*[0] * v.ndim)
                else:
                    V.throw('ValueError', 'setting an array element with a sequence')
            st = o.storage
            V.wrote(st, None, None)
            loc = o.imap(*ks)
            old, dtype = st.get, o.dtype
            st.get = lambda *s: _cases(simp(And(*[simp(Z(x) == Z(y)) for x, y in zip(s, loc)])), lambda: coerce_assign(V, v, dtype), lambda: old(*s))
            st.arity = len(loc)
            return
        w = arr_getitem(V, o, i)
        if not isinstance(w, Arr):
            raise Unsupported('array assignment')
        arr_write(V, w, v)
        return
    if isinstance(o, HeapView):
        return o.setitem(V, i, v)
    if isinstance(o, (Obj, Ref)):
        cls = user_class(V, o)
        m, _ = cls.lookup('__setitem__') if cls else (None, None)
        if m is not None:
            return V.call(m, [o, i, v])
    if isinstance(o, (tuple, NT, str)) or o is None:
        V.throw('TypeError', 'no item assignment')
    raise Unsupported('item assignment on %r' % (o,))


def arr_set_fancy(V, o, i, v):
    from .models import asarray
    idx = asarray(V, i)
    st = o.storage
    if idx.dtype == 'bool' and o.ndim == 1 and not isinstance(v, (Arr, SList)):
        V.wrote(st, None, None)
        old, dtype = st.get, o.dtype
        zero, drivers = linear_form(o)
        if zero != (0,) or drivers != [(0, 1)]:
            raise Unsupported('mask assignment through a view')
        iget = idx.storage.get
        im = idx.imap
        st.get = lambda s: _cases(simp(iget(*im(s))), lambda: coerce_assign(V, v, dtype), lambda: old(s))
        return
    if idx.dtype == 'int' and o.ndim == 1 and all(const_int(s) is not None for s in idx.shape):
        for j in range(const_int(idx.shape[0])):
            setitem(V, o, idx.at(j), v.at(j) if isinstance(v, Arr) and v.ndim else v)
        return
    if idx.dtype == 'int' and o.ndim == 1 and not isinstance(v, (Arr, SList)):
        from .engine import All
        n = o.shape[0]
        ok = V.formula(All((0, idx.shape[0]), lambda j: And(Z(idx.at(j)) < Z(n), Z(idx.at(j)) >= 0)))
        if not V.decide(ok):
            raise Unsupported('fancy assignment with negative indices')
        V.wrote(st, None, None)
        old, dtype = st.get, o.dtype
        zero, drivers = linear_form(o)
        if zero != (0,) or drivers != [(0, 1)]:
            raise Unsupported('fancy assignment through a view')
        iget, im, ni = idx.storage.get, idx.imap, idx.shape[0]

        def hit(s):
            j = z3.Int(fresh_name('e'))
            return z3.Exists([j], z3.And(j >= 0, j < Z(ni), Z(iget(*im(j))) == Z(s)))
        st.get = lambda s: _cases(hit(s), lambda: coerce_assign(V, v, dtype), lambda: old(s))
        return
    raise Unsupported('fancy assignment')


def arr_set_points(V, o, idx, v):
    """o[i0, i1, ...] = v for index lists of one length."""
    from .engine import All
    from .models import asarray
    if len(idx) != o.ndim or not all(isinstance(x, (Arr, SList)) for x in idx) or isinstance(v, (Arr, SList)):
        raise Unsupported('fancy assignment')
    idx = [asarray(V, x) for x in idx]
    if any(x.ndim != 1 or x.dtype != 'int' for x in idx) or o.readonly:
        raise Unsupported('fancy assignment')
    n = idx[0].shape[0]
    for x in idx[1:]:
        if not V.decide(simp(Z(x.shape[0]) == Z(n))):
            raise Unsupported('fancy assignment of different lengths')
    V.check('assigned places are in the array', All((0, n), lambda j: And(*[And(Z(x.at(j)) >= 0, Z(x.at(j)) < Z(m)) for x, m in zip(idx, o.shape)])))
    st = o.storage
    probe = [z3.Int(fresh_name('p')) for _ in idx]
    if [z3.simplify(Z(x)).get_id() for x in o.imap(*probe)] != [x.get_id() for x in probe]:
        raise Unsupported('fancy assignment through a view')
    V.wrote(st, None, None)
    st.arity = o.ndim
    old, dtype = st.get, o.dtype
    gets = [(x.storage.get, x.imap) for x in idx]

    def hit(s):
        j = z3.Int(fresh_name('e'))
        return z3.Exists([j], z3.And(j >= 0, j < Z(n), *[Z(g(*m(j))) == Z(x) for (g, m), x in zip(gets, s)]))
    st.get = lambda *s: _cases(hit(s), lambda: coerce_assign(V, v, dtype), lambda: old(*s))


def delitem(V, o, i):
    if isinstance(o, SList):
        if isinstance(i, slice):
            s = o.seq
            a, ln, step = slice_bounds(V, i, s.n)
            if const_int(step) != 1:
                raise Unsupported('extended slice deletion')
            V.setseq(o, s.slice(0, a).concat(s.slice(fold(Z(a) + Z(ln)), s.n)))
            return
        k = norm_index(V, i, o.seq.n)
        V.setseq(o, o.seq.delete(k))
        return
    if isinstance(o, SDict) and o.sym is None:
        V.wrote(o, None, None)
        for j, (k, _) in enumerate(o.items):
            e = key_eq(V, k, i)
            if e is False:
                continue
            if V.decide(e):
                o.items = o.items[:j] + o.items[j + 1:]
                return
        V.throw('KeyError', i)
    cls = user_class(V, o)
    if cls is not None:
        m, _ = cls.lookup('__delitem__')
        if m is not None:
            return V.call(m, [o, i])
    raise Unsupported('del of an item of %r' % (o,))


# ---------------------------------------------------------------------------------------------- sets
def flat_ints(v):
    """Index terms identifying a value (for uninterpreted membership functions)."""
    from .engine import flatten
    out = []
    for t in flatten(v):
        if z3.is_int(t):
            out.append(t)
        elif z3.is_bool(t):
            out.append(z3.If(t, z3.IntVal(1), z3.IntVal(0)))
        elif z3.is_real(t):
            out.append(REALCODE(t))
        else:
            raise Unsupported('set element')
    return out


REALCODE = z3.Function('REALCODE', R, I)


def set_add(V, s, x):
    k = kind_of(x)
    V.wrote(s, None, k)
    if s.items is not None:
        for y in s.items:
            e = key_eq(V, y, x)
            if e is False:
                continue
            if V.decide(e):
                return
        s.items = s.items + [x]
        s.kind = join_kind(s.kind, k) if s.kind is not None else k
        return
    mem = s.mem
    s.mem = lambda v: Or(key_eq(V, v, x), mem(v))


def set_remove(V, s, x, must=False):
    V.wrote(s, None, kind_of(x))
    if s.items is not None:
        for j, y in enumerate(s.items):
            e = key_eq(V, y, x)
            if e is False:
                continue
            if V.decide(e):
                s.items = s.items[:j] + s.items[j + 1:]
                return
        if must:
            V.throw('KeyError', x)
        return
    if must and not V.decide(s.mem(x)):
        V.throw('KeyError', x)
    mem = s.mem
    s.mem = lambda v: And(Not(key_eq(V, v, x)), mem(v))


def set_union(V, a, b):
    if a.items is not None and b.items is not None:
        s = V.mkset(list(a.items), None, a.kind)
        for x in b.items:
            set_add(V, s, x)
        return s
    return V.mkset(None, lambda v: Or(contains_set(V, a, v), contains_set(V, b, v)), a.kind or b.kind)


def set_filter(V, a, p):
    if a.items is not None:
        return V.mkset([x for x in a.items if V.decide(p(x))], None, a.kind)
    mem = a.mem
    return V.mkset(None, lambda v: And(mem(v), p(v)), a.kind)


def set_of_seq(V, seq):
    c = const_int(seq.n)
    if c is not None:
        s = V.mkset([])
        for i in range(c):
            set_add(V, s, seq[i])
        return s
    k = seq.kind or kind_of(seq[z3.Int(fresh_name('probe'))])
    s = V.mkset(None, lambda v: V.exists(0, seq.n, lambda i: eq(V, seq[i], v)), k)
    s.of_seq = seq
    return s
