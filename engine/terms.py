"""Hash-consed terms of the abstract interpreter.  Integers are mathematical (wrap-around is not modelled
except for constant folding at a known width); pointers are (base, offset) pairs via 'gep'."""
class Term:
    __slots__ = ('op', 'args', 'id', 'syms', '__weakref__')
    def __repr__(self): return show(self)
_tab = {}
_n = [0]
def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.args = args; _n[0] += 1; t.id = _n[0]
        if op in ('sym',):
            t.syms = frozenset((t,)) | (args[2].syms if len(args) > 2 and isinstance(args[2], Term) else frozenset())
            # memory symbols mention their base
            for a in args[1:]:
                if isinstance(a, Term): t.syms |= a.syms
        else:
            s = frozenset()
            for a in args:
                if isinstance(a, Term): s |= a.syms
                elif isinstance(a, tuple):
                    for b in a:
                        if isinstance(b, Term): s |= b.syms
                        elif isinstance(b, tuple):
                            for c in b:
                                if isinstance(c, Term): s |= c.syms
            t.syms = s
        _tab[k] = t
    return t
def C(v): return mk('c', v)
ZERO = C(0); ONE = C(1)
def sym(name, *rest): return mk('sym', name, *rest)   # rest may hold Terms (memory symbols) / ints
def isc(t): return t.op == 'c'
def cv(t): return t.args[0]
def show(t, d=0):
    if not isinstance(t, Term): return str(t)
    o, a = t.op, t.args
    if o == 'c': return str(a[0])
    if o == 'sym':
        if a[0] == 'm':
            return '[%s+%s]%s' % (show(a[1]), a[2], '' if a[3] is None else "'" + show(a[3]))
        return str(a[0]) if len(a) == 1 else '%s(%s)' % (a[0], ','.join(show(x) for x in a[1:]))
    if o == 'g': return '@' + a[0]
    if o == 'f': return '&' + a[0]
    if o == 'gep': return '%s+%d%s' % (show(a[0]), a[1], ''.join('+%s*%d' % (show(x), s) for x, s in a[2]))
    if o == 'lin': return '(' + '+'.join(['%s' % a[0]] + ['%s*%s' % (c, show(x)) for x, c in a[1]]) + ')'
    return '%s(%s)' % (o, ','.join(show(x) for x in a))

# ---------------------------------------------------------------- linear arithmetic
def lin_parts(t):
    if t.op == 'c': return t.args[0], {}
    if t.op == 'lin': return t.args[0], dict(t.args[1])
    if t.op == 'gep' and t.args[1] != 0 or t.op == 'gep':
        k, d = t.args[1], {}
        b = t.args[0]; d[b] = 1
        for x, s in t.args[2]: 
            kk, dd = lin_parts(x); k += kk * s
            for y, c in dd.items(): d[y] = d.get(y, 0) + c * s
        return k, {x: c for x, c in d.items() if c}
    return 0, {t: 1}
def lin_make(k, d):
    d = {x: c for x, c in d.items() if c}
    if not d: return C(k)
    if k == 0 and len(d) == 1:
        x, c = next(iter(d.items()))
        if c == 1: return x
    return mk('lin', k, tuple(sorted(d.items(), key=lambda xc: xc[0].id)))
def add(a, b, sb=1):
    if isc(a) and isc(b): return C(a.args[0] + sb * b.args[0])
    k1, d1 = lin_parts(a); k2, d2 = lin_parts(b)
    d = dict(d1)
    for x, c in d2.items(): d[x] = d.get(x, 0) + sb * c
    return lin_make(k1 + sb * k2, d)
def sub(a, b): return add(a, b, -1)
def mulc(a, n):
    k, d = lin_parts(a)
    return lin_make(k * n, {x: c * n for x, c in d.items()})
def ptradd(p, off, var=()):
    var = tuple((x, s) for x, s in var)
    vs = []
    for x, s in var:
        if isc(x): off += x.args[0] * s
        else: vs.append((x, s))
    if p.op == 'gep':
        b, o, v = p.args
        off += o; vs = list(v) + vs
        p = b
    if off == 0 and not vs: return p
    return mk('gep', p, off, tuple(vs))
def ptr_split(p):
    """-> (base term, constant offset); variable parts stay in the base"""
    if p.op == 'gep':
        b, o, v = p.args
        if v: return mk('gep', b, 0, v), o
        return b, o
    if p.op == 'c': return p, 0
    if p.op == 'lin':   # integer used as pointer
        k, d = p.args
        return lin_make(0, dict(d)), k
    return p, 0
def ptr_root(p):
    while p.op == 'gep': p = p.args[0]
    return p

_submemo = {}
def subst(t, m):
    """replace symbols (Term->Term) inside t"""
    if not isinstance(t, Term): return t
    if not (t.syms & m.keys()): return t
    return _subst(t, m, {})
def _subst(t, m, memo):
    if not isinstance(t, Term): return t
    if t in m: return m[t]
    if not (t.syms & m.keys()): return t
    r = memo.get(t)
    if r is not None: return r
    o, a = t.op, t.args
    if o == 'lin':
        k, d = a[0], {}
        r = C(k)
        for x, c in a[1]: r = add(r, mulc(_subst(x, m, memo), c))
    elif o == 'gep':
        r = ptradd(_subst(a[0], m, memo), a[1], tuple((_subst(x, m, memo), s) for x, s in a[2]))
    else:
        r = mk(o, *[_subst(x, m, memo) if isinstance(x, Term) else x for x in a])
    memo[t] = r
    return r

# ---------------------------------------------------------------- integer ops
def trunc_const(v, w, signed=True):
    v &= (1 << w) - 1
    if signed and v >> (w - 1): v -= 1 << w
    return v
BOOLS = set()       # results declared as one bit
def t_trunc(x, w):
    if isc(x): return C(trunc_const(cv(x), w, w > 1))
    if x.op == 'zext':
        if x.args[1] == w: return x.args[0]
        if x.args[1] < w: return x
        return t_trunc(x.args[0], w)
    if x.op == 'sext':
        if x.args[1] == w: return x.args[0]
        if x.args[1] < w: return x
        return t_trunc(x.args[0], w)
    if w == 1:
        if x.op in ('eq', 'slt', 'ult', 'not') or x in BOOLS: return x
        return t_not(t_eq(x, ZERO))
    if x.op in ('and', 'or', 'xor'):
        return t_bit(x.op, t_trunc(x.args[0], w), t_trunc(x.args[1], w), w)
    if x.op == 'lin':
        k, d = x.args
        r = C(trunc_const(k, w))
        ok = True
        for y, c in d:
            if y.op in ('zext', 'sext') and y.args[1] == w: r = add(r, mulc(y.args[0], c))
            elif y.op in ('zext', 'sext'): r = add(r, mulc(y, c))
            else: r = add(r, mulc(y, c))
        return r
    return mk('trunc', x, w) if w < 32 else x
def t_zext(x, ow):
    if isc(x): return C(trunc_const(cv(x), ow, False) if ow > 1 or cv(x) >= 0 else 1 if cv(x) else 0)
    if ow == 1:
        return x        # booleans are 0/1 terms
    if ow >= 32: return x    # treat wide values as mathematical integers
    if x.op in ('eq', 'slt', 'ult', 'not'): return x
    if x.op == 'zext': return x
    return mk('zext', x, ow)
def t_sext(x, ow):
    if isc(x): return C(trunc_const(cv(x), ow))
    if ow == 1: return mulc(x, -1)
    return x if ow >= 32 else mk('sext', x, ow)
def t_bit(op, a, b, w):
    m = (1 << w) - 1
    if isc(a) and isc(b):
        va, vb = cv(a) & m, cv(b) & m
        r = va & vb if op == 'and' else va | vb if op == 'or' else va ^ vb
        return C(trunc_const(r, w) if w > 1 else r)
    if isc(a): a, b = b, a
    if isc(b):
        c = cv(b) & m
        if op == 'and':
            if c == 0: return ZERO
            if c == m: return a
            if a.op == 'sym' and a.args[0] == 'al':     # 4-aligned object of its own
                if c < 4: return ZERO
                if c | 3 == m: return a
            if a.op == 'zext':
                ow = a.args[1]; c2 = c & ((1 << ow) - 1)
                return t_zext(t_bit('and', a.args[0], C(trunc_const(c2, ow)), ow), ow)
            if a.op == 'and' and isc(a.args[1]): return t_bit('and', a.args[0], C(trunc_const(c & cv(a.args[1]), w)), w)
            if a.op == 'or' and isc(a.args[1]):
                return t_bit('or', t_bit('and', a.args[0], C(trunc_const(c, w)), w), C(trunc_const(c & cv(a.args[1]), w)), w)
            if c == 1 and a.op in ('eq', 'slt', 'ult', 'not'): return a
        elif op == 'or':
            if c == 0: return a
            if c == m: return C(-1 if w > 1 else 1)
            if a.op == 'or' and isc(a.args[1]): return t_bit('or', a.args[0], C(trunc_const(c | (cv(a.args[1]) & m), w)), w)
            if a.op == 'zext':
                ow = a.args[1]
                if c < (1 << ow): return t_zext(t_bit('or', a.args[0], C(trunc_const(c, ow)), ow), ow)
        else:
            if c == 0: return a
            if w == 1 or a.op in ('eq', 'slt', 'ult', 'not') and c == 1: return t_not(a)
            if a.op == 'xor' and isc(a.args[1]): return t_bit('xor', a.args[0], C(trunc_const(c ^ (cv(a.args[1]) & m), w)), w)
        return mk(op, a, C(trunc_const(c, w)), w)
    if a is b: return a if op != 'xor' else ZERO
    if a.op == 'zext' and b.op == 'zext' and a.args[1] == b.args[1]:
        return t_zext(t_bit(op, a.args[0], b.args[0], a.args[1]), a.args[1])
    if a.id > b.id: a, b = b, a
    return mk(op, a, b, w)
def t_not(b):
    if isc(b): return C(0 if cv(b) else 1)
    if b.op == 'not': return b.args[0]
    return mk('not', b)
NONNULL = ('g', 'f')
def _strip_ext(a, b):
    # compare extended values with constants in the narrow domain when possible
    if a.op in ('zext', 'sext') and isc(b):
        ow = a.args[1]; v = cv(b)
        if a.op == 'zext' and 0 <= v < (1 << ow): return a, b
    return a, b
def fresh_obj(t): return t.op == 'sym' and t.args[0] in ('alloca', 'heap')
def t_eq(a, b):
    if a is b: return ONE
    if isc(a) and isc(b): return C(1 if cv(a) == cv(b) else 0)
    if a.op == b.op == 'sext' and a.args[1] == b.args[1]: return t_eq(a.args[0], b.args[0])
    if isc(a): a, b = b, a
    if isc(b):
        v = cv(b)
        if a.op in ('eq', 'slt', 'ult', 'not'):
            if v == 0: return t_not(a)
            if v == 1: return a
            return ZERO
        if a.op in ('zext', 'sext'):
            ow = a.args[1]
            if a.op == 'zext':
                if v < 0 or v >= (1 << ow): return ZERO
                return t_eq(a.args[0], C(trunc_const(v, ow)))
            return t_eq(a.args[0], b)
        if v == 0 and (a.op in NONNULL or ptr_root(a).op in NONNULL): return ZERO
        if v == 0 and a.op == 'gep':
            r = ptr_root(a)
            if r.op == 'sym': return ZERO if a.args[1] != 0 or a.args[2] else mk('eq', a, b)
        if v == 0 and a.op == 'sym' and a.args[0] == 'alloca': return ZERO
    ra, rb = ptr_root(a), ptr_root(b)
    if ra is not rb and ra.op == 'sym' and rb.op == 'sym' and ra.args[0] == 'al' and rb.args[0] == 'al': return ZERO
    if ra is not rb:
        A = ra.op in NONNULL or fresh_obj(ra); B = rb.op in NONNULL or fresh_obj(rb)
        if A and B: return ZERO
        # an object created here cannot equal a value that existed before
        def initial(x): return x.op == 'sym' and (x.args[0].startswith('arg') or (x.args[0] == 'm' and x.args[3] is None))
        if fresh_obj(ra) and initial(rb) or fresh_obj(rb) and initial(ra): return ZERO
    d = sub(a, b)
    if isc(d): return C(1 if cv(d) == 0 else 0)
    if d.op == 'lin':
        k, ds = d.args
        if ds[0][1] < 0: d = mulc(d, -1)
    return mk('eq', d, ZERO)
def t_slt(a, b):
    if isc(a) and isc(b): return C(1 if cv(a) < cv(b) else 0)
    d = sub(a, b)
    if isc(d): return C(1 if cv(d) < 0 else 0)
    return mk('slt', d)          # d < 0
def t_ult(a, b, w=64):
    if isc(a) and isc(b):
        m = (1 << w) - 1
        return C(1 if (cv(a) & m) < (cv(b) & m) else 0)
    if isc(b) and cv(b) == 0: return ZERO
    if isc(b) and cv(b) == 1: return t_eq(a, ZERO)
    if isc(a) and cv(a) == 0: return t_not(t_eq(b, ZERO))
    if a is b: return ZERO
    ra = ptr_root(a)
    if ra is ptr_root(b) and ra.op == 'sym' and (ra.args[0] in ('al', 'alloca')):      # two places in one object
        d = sub(a, b)
        if isc(d): return C(1 if cv(d) < 0 else 0)
    return mk('ult', a, b)
