"""Path-sensitive abstract interpreter over the resolved IR.

For one entry function it computes a finite set of path summaries.  The abstract state is
  * an access-path memory (base term, offset) -> term,
  * a conjunction of facts about terms (interval, excluded values, known bits),
  * the trace of observable events (calls, stores, atomics) of the path.
Repo functions are expanded in their calling context (helpers are transparent) unless the rule names them
as primitive; loops are taken to a fixpoint with interval widening and their event segments are collected
per loop (LoopRef).  Nothing is executed and no solver is used: branches are pruned only by the facts."""
from terms import *
import ir
from ir import AnalysisError

INF = float('inf')
TOPF = (-INF, INF, frozenset(), 0, 0)

class Infeasible(Exception): pass

class Event:
    __slots__ = ('kind', 'name', 'args', 'ret', 'site', 'fn', 'snap', 'x', 'depth', 'inst')
    def __init__(s, kind, name, args=(), ret=None, site='', fn='', snap=None, x=None, depth=0):
        s.kind, s.name, s.args, s.ret, s.site, s.fn, s.snap, s.x, s.depth = kind, name, args, ret, site, fn, snap, x, depth
        s.inst = None
    def key(s): return (s.kind, s.name, s.args, s.ret, s.site, s.fn, s.x if not isinstance(s.x, dict) else None, s.depth)
    def __repr__(s):
        if s.kind == 'loop': return 'LOOP{%s}' % ' | '.join(';'.join(map(repr, g)) for g in s.inst.segs)
        if s.kind == 'st': return '[%s+%s]%s:=%s@%s' % (show(s.args[0]), s.args[1], s.x or '', show(s.args[2]), s.site)
        return '%s:%s(%s)%s@%s' % (s.kind, s.name if not isinstance(s.name, Term) else show(s.name), ','.join(show(a) for a in s.args), '' if s.ret is None else '=' + show(s.ret), s.site)
    def sub(s, m):
        a = tuple(subst(x, m) if isinstance(x, Term) else x for x in s.args)
        r = subst(s.ret, m) if isinstance(s.ret, Term) else s.ret
        n = subst(s.name, m) if isinstance(s.name, Term) else s.name
        sn = s.snap.sub(m) if s.snap else None
        if a == s.args and r is s.ret and n is s.name and sn is s.snap: return s
        e = Event(s.kind, n, a, r, s.site, s.fn, sn, s.x, s.depth); e.inst = s.inst
        return e

class Snap:
    """frozen view of the abstract store at an event"""
    __slots__ = ('mem', 'facts', 'dflt', 'ep', 'tagep', 'eqs', 'freed')
    def __init__(s, mem, facts, dflt, ep, tagep, eqs, freed):
        s.mem, s.facts, s.dflt, s.ep, s.tagep, s.eqs, s.freed = mem, facts, dflt, ep, tagep, eqs, freed
    def sub(s, m):
        ks = m.keys()
        ch = False
        mem = s.mem; facts = s.facts
        if any((b.syms & ks) or (v[0].syms & ks) for (b, o), v in mem.items()):
            mem = {(subst(b, m), o): (subst(v[0], m), v[1], v[2]) for (b, o), v in mem.items()}; ch = True
        if any(t.syms & ks for t in facts):
            facts = {subst(t, m): f for t, f in facts.items()}; ch = True
        if not ch: return s
        return Snap(mem, facts, s.dflt, s.ep, s.tagep, s.eqs, s.freed)

# ------------------------------------------------------------------ facts
def key_of(d):
    """term -> (key term without constant, sign, const): d = sign*key + const"""
    if d.op == 'lin':
        k, ds = d.args
        sg = 1
        if ds[0][1] < 0: sg = -1
        kt = lin_make(0, {x: c * sg for x, c in ds})
        return kt, sg, k
    return d, 1, 0

def bits(facts, t, depth=0):
    """(known zero mask, known one mask) of t's unsigned 64-bit pattern"""
    if t.op == 'c':
        v = t.args[0] & (2**64 - 1); return (~v) & (2**64 - 1), v
    f = facts.get(t)
    kz, ko = (f[3], f[4]) if f else (0, 0)
    if f and f[0] == f[1] and f[0] != -INF:
        v = int(f[0]) & (2**64 - 1); return (~v) & (2**64 - 1), v
    if depth < 12:
        if t.op in ('and', 'or', 'xor') and len(t.args) == 3:
            az, ao = bits(facts, t.args[0], depth + 1); bz, bo = bits(facts, t.args[1], depth + 1)
            if t.op == 'and': kz |= az | bz; ko |= ao & bo
            elif t.op == 'or': kz |= az & bz; ko |= ao | bo
            else: kz |= (az & bz) | (ao & bo); ko |= (az & bo) | (ao & bz)
        elif t.op == 'zext':
            w = t.args[1]; m = (1 << w) - 1
            az, ao = bits(facts, t.args[0], depth + 1)
            kz |= (az & m) | ((2**64 - 1) & ~m); ko |= ao & m
        elif t.op == 'sext':
            w = t.args[1]; m = (1 << w) - 1
            az, ao = bits(facts, t.args[0], depth + 1)
            kz |= az & m; ko |= ao & m
        elif t.op == 'trunc':
            m = (1 << t.args[1]) - 1
            az, ao = bits(facts, t.args[0], depth + 1)
            kz |= az & m; ko |= ao & m
        elif t.op in ('eq', 'slt', 'ult', 'not'):
            kz |= (2**64 - 1) & ~1
    return kz, ko

def interval(facts, t, depth=0):
    if t.op == 'c': return t.args[0], t.args[0]
    kt, sg, k = key_of(t)
    f = facts.get(kt)
    lo, hi = (f[0], f[1]) if f else (-INF, INF)
    if kt.op == 'lin' and depth < 4:
        l2 = h2 = 0
        for x, c in kt.args[1]:
            a, b = interval(facts, x, depth + 1)
            if c < 0: a, b = b, a
            l2 = l2 + (a * c if a not in (INF, -INF) else (INF if (a > 0) == (c > 0) else -INF))
            h2 = h2 + (b * c if b not in (INF, -INF) else (INF if (b > 0) == (c > 0) else -INF))
            if l2 != l2: l2 = -INF
            if h2 != h2: h2 = INF
        if l2 == l2: lo = max(lo, l2)
        if h2 == h2: hi = min(hi, h2)
    elif kt.op in ('eq', 'slt', 'ult', 'not'): lo, hi = max(lo, 0), min(hi, 1)
    elif kt.op == 'zext':
        lo, hi = max(lo, 0), min(hi, (1 << kt.args[1]) - 1)
        a, b = interval(facts, kt.args[0], depth + 1)
        if a >= 0: lo = max(lo, a); hi = min(hi, b)
    elif kt.op == 'and' and isc(kt.args[1]) and cv(kt.args[1]) >= 0:
        lo, hi = max(lo, 0), min(hi, cv(kt.args[1]))
    elif kt.op == 'sext':
        a, b = interval(facts, kt.args[0], depth + 1); lo, hi = max(lo, a), min(hi, b)
    elif kt.op in ('udiv', 'lshr') : 
        a, b = interval(facts, kt.args[0], depth + 1)
        if a >= 0: lo = max(lo, 0); hi = min(hi, b)
    elif kt.op == 'urem' and isc(kt.args[1]) and cv(kt.args[1]) > 0: lo, hi = max(lo, 0), min(hi, cv(kt.args[1]) - 1)
    elif kt.op == 'sym' and kt.args[0] in ('alloca', 'heap') : lo = max(lo, 0 if kt.args[0] == 'heap' else 1)
    elif kt.op in ('g', 'f'): lo = max(lo, 1)
    elif kt.op == 'gep':
        r = ptr_root(kt)
        a, b = interval(facts, r, depth + 1)
        if a >= 1 and kt.args[1] >= 0 and not kt.args[2]: lo = max(lo, 1)
    if sg < 0: lo, hi = -hi, -lo
    return lo + k, hi + k

def ev_cond(facts, c, depth=0):
    """truth of a boolean/integer term: True/False/None"""
    if c.op == 'c': return c.args[0] != 0
    if c.op == 'not':
        r = ev_cond(facts, c.args[0], depth); return None if r is None else not r
    f = facts.get(c)
    if f:
        if f[0] == f[1]: return f[0] != 0
        if f[0] > 0 or f[1] < 0 or 0 in f[2] or f[4]: return True
    if c.op == 'eq':
        d = c.args[0]
        kt, sg, k = key_of(d)
        tgt = -k * sg
        lo, hi = interval(facts, kt)
        if lo == hi == tgt: return True
        if tgt < lo or tgt > hi: return False
        fk = facts.get(kt)
        if fk and tgt in fk[2]: return False
        if kt.op != 'lin':
            kz, ko = bits(facts, kt)
            m = tgt & (2**64 - 1)
            wm = 0xffff
            if (kz & m & wm) or (ko & ~m & wm): return False
            if tgt == 0 and kt.op == 'and' and isc(kt.args[1]):
                cm = cv(kt.args[1]) & (2**64 - 1)
                if cm & ~kz == 0: return True
        return None
    if c.op == 'slt':
        lo, hi = interval(facts, c.args[0])
        if hi < 0: return True
        if lo >= 0: return False
        return None
    if c.op == 'ult':
        a, b = c.args
        al, ah = interval(facts, a); bl, bh = interval(facts, b)
        if al >= 0 and bl >= 0:
            lo, hi = interval(facts, sub(a, b))
            if hi < 0 or ah < bl: return True
            if lo >= 0 or al >= bh: return False
        elif isc(b) and cv(b) >= 0 and ah < 0: return False
        return None
    if c.op == 'zext': return ev_cond(facts, c.args[0], depth)
    lo, hi = interval(facts, c)
    if lo > 0 or hi < 0: return True
    if lo == hi == 0: return False
    kz, ko = bits(facts, c)
    if ko: return True
    return None

# what the operating system's interface promises about results
RESULTS = {n: (-1, 0) for n in 'stat lstat fstat bind listen connect close setsockopt getsockopt unlink epoll_ctl shutdown timerfd_settime futimens getsockname getpeername'.split()}
RESULTS.update({n: (-1, INF) for n in 'socket accept accept4 read write readv writev pread pwrite pread64 pwrite64 recv send recvfrom sendto recvmsg sendmsg sendfile sendfile64 epoll_wait epoll_create epoll_create1 eventfd open open64 dup poll lseek lseek64 fcntl fcntl64 ioctl'.split()})
def refine(facts, kt, lo=-INF, hi=INF, ne=None, kz=0, ko=0):
    """in-place on a private dict; raises Infeasible"""
    f = facts.get(kt, TOPF)
    l, h, n, z, o = f
    l = max(l, lo); h = min(h, hi)
    if ne is not None: n = n | {ne}
    z |= kz; o |= ko
    il, ih = interval(facts, kt)
    L, H = max(l, il), min(h, ih)
    while L in n and L != -INF: L += 1
    while H in n and H != INF: H -= 1
    if L > H or (z & o): raise Infeasible
    if L == H:
        bz, bo = bits({k: v for k, v in facts.items() if k is not kt}, kt) if kt.op != 'lin' else (0, 0)
        v = int(L) & 0xffff
        if ((bz | z) & v & 0xffff) or ((bo | o) & ~v & 0xffff): raise Infeasible
        n = frozenset()
    facts[kt] = (L, H, n, z, o)
    if kt.op == 'zext':      # narrow the narrow value as well
        if L == H: refine(facts, kt.args[0], trunc_const(int(L), kt.args[1]), trunc_const(int(L), kt.args[1])) if kt.args[0].op == 'sym' else None
        elif L > 0 and kt.args[0].op == 'sym': refine(facts, kt.args[0], ne=0)

def assume(facts, c, val):
    """refine private dict facts with truth of c; raises Infeasible. returns optional (a,b) equality for unification"""
    if c.op == 'c':
        if (c.args[0] != 0) != val: raise Infeasible
        return None
    if c.op == 'not': return assume(facts, c.args[0], not val)
    r = ev_cond(facts, c)
    if r is not None:
        if r != val: raise Infeasible
        return None
    if c.op == 'eq':
        d = c.args[0]
        kt, sg, k = key_of(d)
        tgt = -k * sg
        if val: 
            refine(facts, kt, tgt, tgt)
            if kt.op == 'lin':
                ds = kt.args[1]
                if tgt == 0 and len(ds) == 2 and sorted(x[1] for x in ds) == [-1, 1]: return ds[0][0], ds[1][0]
                # propagate: both-known constants
            else: _down(facts, kt, tgt)
        else:
            refine(facts, kt, ne=tgt)
            if kt.op == 'and' and tgt == 0 and isc(kt.args[1]): _bitne(facts, kt)
            elif kt.op == 'and' and isc(kt.args[1]) and tgt & (2**64-1) == cv(kt.args[1]) & (2**64-1) and bin(cv(kt.args[1]) & (2**64-1)).count('1') == 1:
                _setbits(facts, kt.args[0], kz=tgt & (2**64 - 1))
            elif kt.op in ('zext', 'sext'):
                try: assume(facts, t_eq(kt.args[0], C(trunc_const(tgt, kt.args[1]))), False)
                except Infeasible: raise
        return None
    if c.op == 'slt':
        kt, sg, k = key_of(c.args[0])
        # sg*kt + k < 0
        if val:
            if sg > 0: refine(facts, kt, hi=-k - 1)
            else: refine(facts, kt, lo=k + 1)
        else:
            if sg > 0: refine(facts, kt, lo=-k)
            else: refine(facts, kt, hi=k)
        return None
    if c.op == 'ult':
        a, b = c.args
        bl, bh = interval(facts, b); al, ah = interval(facts, a)
        refine(facts, c, 1 if val else 0, 1 if val else 0)
        if val and isc(b) and cv(b) > 0:
            ka, sa, ca = key_of(a)
            if sa > 0: refine(facts, ka, lo=-ca, hi=cv(b) - 1 - ca)
            else: refine(facts, ka, lo=ca - cv(b) + 1, hi=ca)
        elif al >= 0 and bl >= 0: assume(facts, t_slt(a, b), val)
        elif not val and isc(a) and cv(a) == 0: assume(facts, t_eq(b, ZERO), True)
        elif val and bl >= 0 and bh < INF: assume(facts, t_slt(a, C(0)), False); assume(facts, t_slt(a, b), True)
        elif val: 
            # a <u b: b is non-zero
            try: refine(facts, key_of(b)[0], ne=0) if key_of(b)[2] == 0 else None
            except Infeasible: raise
        return None
    if c.op == 'zext': return assume(facts, c.args[0], val)
    kt, sg, k = key_of(c)
    tgt = -k * sg
    if val:
        refine(facts, kt, ne=tgt)
        if kt.op == 'and' and isc(kt.args[1]) and tgt == 0: _bitne(facts, kt)
    else:
        refine(facts, kt, tgt, tgt); 
        if kt.op != 'lin': _down(facts, kt, tgt)
    return None

def _bitne(facts, kt):
    x, m = kt.args[0], cv(kt.args[1]) & (2**64 - 1)
    if bin(m).count('1') == 1: _setbits(facts, x, ko=m)
def _setbits(facts, x, kz=0, ko=0):
    if x.op in ('zext', 'sext', 'trunc'): _setbits(facts, x.args[0], kz & ((1 << x.args[1]) - 1), ko & ((1 << x.args[1]) - 1)); return
    if x.op in ('and', 'or') and isc(x.args[1]):
        c = cv(x.args[1]) & (2**64 - 1)
        if x.op == 'and': _setbits(facts, x.args[0], kz & c, ko & c)
        else: _setbits(facts, x.args[0], kz & ~c, ko & ~c)
        return
    if x.op in ('c',): return
    k, o = bits(facts, x)
    if (k & ko) or (o & kz): raise Infeasible
    kt, sg, kk = key_of(x)
    if kk or sg < 0: return
    refine(facts, kt, kz=kz, ko=ko)
def _down(facts, kt, tgt):
    """kt == tgt: push to sub-terms"""
    if kt.op == 'and' and isc(kt.args[1]):
        m = cv(kt.args[1]) & (2**64 - 1)
        v = tgt & (2**64 - 1)
        _setbits(facts, kt.args[0], kz=m & ~v, ko=m & v)
    elif kt.op in ('zext', 'sext'):
        assume(facts, t_eq(kt.args[0], C(trunc_const(tgt, kt.args[1]))), True)
    elif kt.op == 'or' and isc(kt.args[1]) and tgt == 0: raise Infeasible

# ------------------------------------------------------------------ states
class LoopInst:
    _n = 0
    def __init__(s, head, fn, line):
        s.head, s.fn, s.line = head, fn, line
        s.segs = {}      # key -> tuple(events)
        s.upd = {}       # slot -> set of (value at head, value at back edge)
        s.wsym = {}      # slot -> widened symbol
        s.entry = None   # state at first arrival
        s.cur = None
        s.iters = 0
        LoopInst._n += 1; s.n = LoopInst._n
    @property
    def seglist(s): return list(s.segs.values())

ALLOCSZ = {}    # local object -> size in bytes
class Frame:
    __slots__ = ('fn', 'env', 'bi', 'ii', 'prev', 'call', 'ctx', 'loops', 'allocas')
    def clone(s):
        f = Frame()
        f.fn, f.env, f.bi, f.ii, f.prev, f.call, f.ctx = s.fn, dict(s.env), s.bi, s.ii, s.prev, s.call, s.ctx
        f.loops = list(s.loops); f.allocas = s.allocas
        return f

class State:
    __slots__ = ('frames', 'mem', 'mem_sh', 'facts', 'dflt', 'ep', 'tagep', 'names', 'trace', 'freed', 'esc', 'eqs', 'user')
    def clone(s):
        n = State()
        n.frames = [f.clone() for f in s.frames]
        n.mem = s.mem; s.mem_sh = True; n.mem_sh = True
        n.facts = dict(s.facts); n.dflt = dict(s.dflt); n.ep = s.ep; n.tagep = dict(s.tagep)
        n.names = s.names; n.trace = s.trace; n.freed = s.freed; n.esc = s.esc; n.eqs = dict(s.eqs); n.user = dict(s.user)
        return n
    def wmem(s):
        if s.mem_sh: s.mem = dict(s.mem); s.mem_sh = False
        return s.mem
    def snap(s):
        s.mem_sh = True
        return Snap(s.mem, dict(s.facts), dict(s.dflt), s.ep, dict(s.tagep), s.eqs, s.freed)

class Summary:
    """one path through the entry function"""
    __slots__ = ('env', 'newv', 'kind', 'ret', 'events', 'final', 'fn', 'site')
    def bits(s, t): return bits(s.final.facts, t)
    def truth(s, t): return ev_cond(s.final.facts, t)
    def const(s, t):
        if t is None: return None
        if isc(t): return cv(t)
        lo, hi = interval(s.final.facts, t)
        if lo == hi: return int(lo)
        if t.op in ('eq', 'slt', 'ult', 'not') or t.op == 'zext' and t.args[0].op in ('eq', 'slt', 'ult', 'not'):
            r = ev_cond(s.final.facts, t)
            return None if r is None else int(r)
        return None
    def flat(s, into_loops=True):
        """all events, loop segments included (each once)"""
        return list(flat(s.events, into_loops))
    def calls(s, *names):
        return [e for e in s.flat() if e.kind == 'call' and e.name in names]
    def describe(s, n=40):
        return ' -> '.join('%s@%s' % (e.name if e.kind == 'call' else e.kind, e.site) for e in s.events if e.kind in ('call', 'icall'))[:1500]

def flat(events, into_loops=True):
    for e in events:
        if e.kind == 'loop':
            if into_loops:
                for g in e.inst.seglist:
                    yield from flat(g, True)
        else: yield e

# library calls that do not keep their pointer arguments
NOCAPTURE_EXT = {'read', 'write', 'recv', 'send', 'readv', 'writev', 'recvmsg', 'sendmsg', 'pread', 'pwrite', 'gettimeofday', 'time', 'clock_gettime', 'epoll_ctl', 'epoll_wait', 'fstat', 'stat', 'pipe', 'socketpair',
                 'getsockname', 'getpeername', 'getsockopt', 'setsockopt', 'bind', 'connect', 'accept', 'accept4', 'sendfile', 'inet_ntop', 'inet_pton', 'getaddrinfo', 'SSL_read_early_data', 'SSL_write_early_data', 'SSL_read', 'SSL_write', 'localtime_r', 'open', 'unlink', 'sysctl', 'io_getevents'}
READONLY_EXT = {'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_destroy', 'pthread_mutex_init', 'strlen', 'strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'memcmp',
                'strchr', 'strrchr', 'strstr', 'printf', 'fprintf', 'puts', 'write', 'send', 'pthread_cond_signal', 'pthread_cond_broadcast', 'close', 'shutdown', 'connect', 'bind', 'listen', 'setsockopt',
                'pthread_cond_wait', 'pthread_cond_init', 'pthread_cond_destroy', 'pthread_setspecific', 'pthread_getspecific', 'sendto', 'writev', 'pwrite', 'sendmsg', 'epoll_ctl', 'atoi', 'atoll', 'abort',
                'pthread_cond_timedwait', 'free', 'SSL_write', 'SSL_set_ex_data', 'SSL_get_ex_data', 'unlink', 'freeaddrinfo', 'klog', 'vfprintf', 'time', 'usleep', 'sleep', 'ERR_clear_error', 'perror', 'memchr'}
HEAP = {'malloc': 0, 'calloc': (0, 1), 'realloc': 1, 'strdup': None, 'memalign': 1, 'aligned_alloc': 1, 'valloc': 0, 'operator new': 0, 'operator new[]': 0, 'strndup': None}
# calls during which another thread may change any shared memory
BLOCKING_EXT = {'sigwait', 'pthread_cond_wait', 'pthread_cond_timedwait', 'epoll_wait', 'io_uring_submit_and_wait_timeout', 'io_uring_wait_cqe_timeout', 'swapcontext', 'jump_fcontext'}
FREE = {'free', 'operator delete', 'operator delete[]'}

EXACT = False       # set for the properties about wide quantities (times, sizes, file positions)
def within32(F, t):
    lo, hi = interval(F, t)
    return lo is not None and hi is not None and -2**31 <= lo and hi < 2**32

class Cfg:
    """what is primitive for a rule"""
    def __init__(s, opaque=(), resolve=None, maxdepth=8, models=None, record_stores=True, record_loads=False, maxsteps=400000, maxpaths=6000,
                 havoc='mod', no_havoc=(), pure=(), inline_only=None, snap=True, noreturn=(), uaf=True, record_icall=True, table=None, resolver=None, assume_null_free=True, private_calls=(), concurrent=False, blocking=(), backedge=False, snap_st=False, cut=False, exact=False):
        s.snap_st = snap_st; s.exact = exact or EXACT     # exact: cutting an unknown value to 32 bits is visible in the term
        s.cut = cut     # a path ends (kind 'cut') where it would start the (cut+1)-th iteration of a loop; no widening before that
        s.blocking = set(blocking)
        s.concurrent = concurrent
        s.opaque = set(opaque) | {'klog', 'vklog'}; pure = tuple(pure) + ('klog', 'vklog'); s.resolve = resolve or {}; s.maxdepth = maxdepth; s.models = models or {}
        s.record_stores = record_stores; s.record_loads = record_loads; s.maxsteps = maxsteps; s.maxpaths = maxpaths
        s.havoc = havoc; s.no_havoc = set(no_havoc); s.pure = set(pure); s.inline_only = inline_only; s.snap = snap; s.noreturn = set(noreturn); s.uaf = uaf
        s.resolver = resolver; s.private_calls = set(private_calls); s.backedge = backedge

class Engine:
    def __init__(self, prog):
        self.p = prog
        self._mod = {}
        self.stats = {'functions': set(), 'paths': 0, 'steps': 0, 'states': 0, 'loops': 0}

    # ------------------------------------------------------------ mod sets
    def modset(self, fn, seen=None):
        """set of tags (struct, off) / '?' / 'ALL' a repo function may store to, transitively"""
        if fn.key in self._mod: return self._mod[fn.key]
        seen = seen or set()
        if fn.key in seen: return set()
        seen = seen | {fn.key}
        out = set()
        defs = {i['i']: i for b in fn.blocks for i in b}
        def tagof(o):
            if 'i' in o:
                d = defs.get(o['i'])
                if d is None: return '?'
                if d['k'] == 'getelementptr':
                    if 'st' in d and not d['v']: return (sname(d['st']), d['o'])
                    if 'st' in d: return (sname(d['st']), None)
                    return '?'
                if d['k'] == 'alloca': return None
                return '?'
            if 'g' in o: return ('@', o['g'])
            if o.get('e') == 'gep': return ('@', o['b'].get('g'))
            return '?'
        full = True
        for b in fn.blocks:
            for i in b:
                k = i['k']
                if k == 'store': t = tagof(i['a'][1])
                elif k in ('atomicrmw', 'cmpxchg'): t = tagof(i['a'][0])
                elif k in ('call', 'invoke'):
                    if 'f' in i:
                        if i.get('intr'):
                            if i['f'].startswith('llvm.mem'): out.add('?')
                            continue
                        if i['f'] in ('klog', 'vklog'): continue
                        g = self.callee(i)
                        if i['f'] in ('jump_fcontext', 'swapcontext', 'libucontext_swapcontext', 'setcontext'): out.add('ALL')
                        if g is not None:
                            if g.key in seen: full = False
                            out |= self.modset(g, seen)
                    elif 'cv' in i and 'asm' not in i['cv']: out.add('ALL')
                    continue
                else: continue
                if t: out.add(t)
        if full or len(seen) == 1: self._mod[fn.key] = out
        return out
    def callee(self, i):
        fs = self.p.byname.get(i['f'])
        if not fs: return None
        for f in fs:
            if f.ln == i.get('ln'): return f
        return fs[0] if len(fs) == 1 else fs[0]

    # ------------------------------------------------------------ entry
    def run(self, fn, cfg, setup=None, args=None):
        if isinstance(fn, str): fn = self.p.fn(fn)
        self.cfg = cfg
        self.steps = 0
        self.nullderefs = []
        self.stats['functions'].add(fn.key)
        s = State()
        s.frames = []; s.mem = {}; s.mem_sh = False; s.facts = {}; s.dflt = {}; s.ep = None; s.tagep = {}; s.names = frozenset()
        s.trace = None; s.freed = frozenset(); s.esc = frozenset(); s.eqs = {}; s.user = {}
        f = Frame(); f.fn = fn; f.env = {}; f.bi = 0; f.ii = 0; f.prev = None; f.call = None; f.ctx = (); f.loops = []; f.allocas = None
        self.argterms = list(args) if args else [sym('arg%d' % i, a) if False else sym('arg:' + (a or str(i))) for i, a in enumerate(fn.args)]
        f.env = {('a', i): t for i, t in enumerate(self.argterms)}
        s.frames.append(f)
        if setup: setup(self, s)
        work = [s]; out = []; self.out = out
        while work:
            st = work.pop()
            try:
                self.exec(st, work, out)
            except Infeasible:
                pass
            if len(out) > cfg.maxpaths: raise AnalysisError('path budget exceeded in %s' % fn.name)
        self.stats['paths'] += len(out)
        self.stats['steps'] += self.steps
        return out

    # ------------------------------------------------------------ helpers
    def opval(self, st, fr, o):
        if 'i' in o: 
            v = fr.env.get(o['i'])
            return v if v is not None else sym('undef')
        if 'a' in o: return fr.env[('a', o['a'])]
        if 'c' in o: 
            return C(o['c']) if o['w'] > 1 else C(1 if o['c'] else 0)
        if 'g' in o: return mk('g', o['g'])
        if 'f' in o: return mk('f', o['f'])
        if o.get('e') == 'gep': return ptradd(self.opval(st, fr, o['b']), o['o'])
        if o.get('e') == 'cast': return self.opval(st, fr, o['b'])
        if 'u' in o: return sym('undef')
        if 'z' in o: return ZERO
        return sym('opaqueconst')

    def new(self, st, name, *rest):
        """create a fresh symbol, ageing an existing one of the same name"""
        t = sym(name, *rest)
        nm = (name,) + rest
        if nm in st.names:
            n1 = (name, '~1') + rest; n2 = (name, '~2') + rest
            t1 = sym(*n1); t2 = sym(*n2)
            if self.cfg.cut:                # a bounded number of rounds: every age keeps its own symbol
                k = 1
                while (name, '~%d' % k) + rest in st.names: k += 1
                for j in range(k, 1, -1): self.substitute(st, {sym(name, '~%d' % (j - 1), *rest): sym(name, '~%d' % j, *rest)})
                st.names = st.names | {(name, '~%d' % k) + rest}
            elif n1 in st.names: self.substitute(st, {t1: t2}, forget={t2}); st.names = st.names | {n2}
            self.substitute(st, {t: t1})
            st.names = st.names | {n1}
        else: st.names = st.names | {nm}
        return t

    def epoch_sym(self, st, site):
        if not self.cfg.cut: return self.new(st, 'E', site)
        again = 0                       # a bounded number of rounds: every call leaves a memory of its own
        while ('E', site, again) in st.names: again += 1
        st.names = st.names | {('E', site, again)}
        return sym('E', site, again + 1) if again else sym('E', site)
    def substitute(self, st, m, forget=()):
        ks = m.keys()
        for f in st.frames:
            for k, v in list(f.env.items()):
                if isinstance(v, Term) and v.syms & ks: f.env[k] = subst(v, m)
        if any((b.syms & ks) or (v[0].syms & ks) for (b, o), v in st.mem.items()):
            st.mem = {(subst(b, m), o): (subst(v[0], m), v[1], v[2]) for (b, o), v in st.mem.items()}; st.mem_sh = False
        if any(t.syms & ks for t in st.facts):
            nf = {}
            for t, f in st.facts.items():
                if t.syms & ks:
                    t2 = subst(t, m)
                    kt, sg, k = key_of(t2)
                    if forget and (t2.syms & forget): continue
                    if kt.op == 'c':
                        v = k if False else (kt.args[0] * sg + k)
                        if not (f[0] <= v <= f[1]) or v in f[2]: raise Infeasible
                        continue
                    if kt is not t2 or sg < 0 or k:
                        l, h = f[0] - k, f[1] - k
                        if sg < 0: l, h = -h, -l
                        try:
                            g = nf.get(kt, TOPF); nf[kt] = (max(g[0], l), min(g[1], h), g[2] | frozenset((x - k) * sg for x in f[2]), g[3], g[4])
                        except TypeError: pass
                        continue
                    g = nf.get(t2, TOPF)
                    nf[t2] = (max(g[0], f[0]), min(g[1], f[1]), g[2] | f[2], g[3] | f[3], g[4] | f[4])
                else:
                    g = nf.get(t, TOPF)
                    nf[t] = (max(g[0], f[0]), min(g[1], f[1]), g[2] | f[2], g[3] | f[3], g[4] | f[4])
            for t, g in nf.items():
                if g[0] > g[1] or (g[3] & g[4]) or (g[0] == g[1] and g[0] in g[2]): raise Infeasible
            st.facts = nf
        for b in list(st.dflt):
            if b.syms & ks: st.dflt[subst(b, m)] = st.dflt.pop(b)
        if isinstance(st.ep, Term): st.ep = subst(st.ep, m)
        for k, v in list(st.tagep.items()):
            if v is not None: st.tagep[k] = subst(v, m)
        if any(t.syms & ks for t in st.freed): st.freed = frozenset(subst(t, m) for t in st.freed)
        if any(t.syms & ks for t in st.esc): st.esc = frozenset(subst(t, m) for t in st.esc)
        if any((a.syms & ks) or (b.syms & ks) for a, b in st.eqs.items()):
            st.eqs = {(a if a in m else subst(a, m)): subst(b, m) for a, b in st.eqs.items()}
        for k, v in list(st.user.items()):
            if isinstance(v, Term): st.user[k] = subst(v, m)
        # open trace
        stop = None
        nodes = []
        t = st.trace; 
        while t is not None:
            nodes.append(t); t = t[0]
        new = None; changed = False
        for nd in reversed(nodes):
            e = nd[1]
            if isinstance(e, tuple): e2 = e       # loop marker
            else: e2 = e if e.kind == 'loop' else e.sub(m)
            if changed or e2 is not e:
                changed = True; new = (new, e2)
            else: new = nd
        st.trace = new

    def emit(self, st, kind, name, args=(), ret=None, i=None, x=None, snap=None):
        fr = st.frames[-1]
        site = ''
        if i is not None:
            site = '%s:%s' % (i.get('sf', fr.fn.file).split('/')[-1], i.get('l', 0))
        e = Event(kind, name, tuple(args), ret, site, fr.fn.name, (st.snap() if (snap is None and self.cfg.snap or snap) else None), x, len(st.frames))
        st.trace = (st.trace, e)
        return e

    # memory ---------------------------------------------------------------
    def private(self, st, base):
        r = ptr_root(base)
        return fresh_obj(r) and r not in st.esc
    def escape(self, st, t):
        add_ = {x for x in t.syms if fresh_obj(x)}
        if add_:
            add_ -= st.esc
            if add_:
                st.esc = st.esc | add_
                # things stored inside escape too
                for (b, o), v in list(st.mem.items()):
                    if ptr_root(b) in add_ and v[0].syms: self.escape(st, v[0])
    def load(self, st, ptr, size, tag, i=None):
        v = self._load(st, ptr, size, tag, i)
        if self.cfg.record_loads:
            base, off = ptr_split(ptr); r = ptr_root(base)
            if not (r.op == 'sym' and r.args[0] == 'alloca'): self.emit(st, 'ld', None, (base, off), v, i, x=tag, snap=self.cfg.snap_st)
        return v
    def _load(self, st, ptr, size, tag, i=None):
        base, off = ptr_split(ptr)
        self.access(st, base, off, 'ldq', i, tag)
        k = (base, off)
        v = st.mem.get(k)
        if v is not None:
            if v[1] == size: return v[0]
            if isc(v[0]) and size < v[1]: return C(trunc_const(cv(v[0]), size * 8))
            if size < v[1]: return t_trunc(v[0], size * 8)
            return self.msym(st, base, off, tag, size)
        # inside a larger stored slot?
        for d in range(1, 8):
            w = st.mem.get((base, off - d))
            if w is not None and w[1] > d:
                if isc(w[0]): return C(trunc_const((cv(w[0]) & ((1 << (8 * w[1])) - 1)) >> (8 * d), size * 8))
                return sym('part', w[0], d, size)
        return self.msym(st, base, off, tag, size)
    def msym(self, st, base, off, tag, size):
        r = base
        for (o, n, kind, x) in st.dflt.get(r, ()):
            if o <= off and (n is None or off + size <= o + n):
                if kind == 'zero': return ZERO
                if kind == 'copy':
                    sb, so, snap = x
                    return self.load_snap(snap, ptradd(sb, so + off - o), size, tag)
                if kind == 'junk': return sym('m', base, off, x)
                break
        if base.op == 'g' or (base.op == 'gep' and ptr_root(base).op == 'g'):
            v = self.const_global(base, off, size)
            if v is not None: return v
        if self.private(st, base) : ep = None
        else: ep = st.tagep.get(tag, st.ep) if tag is not None else st.ep
        if ep is not None and not isinstance(ep, Term): ep = None
        t = sym('m', base, off, ep)
        return st.eqs.get(t, t)
    def load_snap(self, snap, ptr, size, tag):
        base, off = ptr_split(ptr)
        v = snap.mem.get((base, off))
        if v is not None and v[1] == size: return v[0]
        for (o, n, kind, x) in snap.dflt.get(base, ()):
            if o <= off and (n is None or off + size <= o + n):
                if kind == 'zero': return ZERO
                break
        if base.op == 'g':
            c = self.const_global(base, off, size)
            if c is not None: return c
        ep = snap.tagep.get(tag, snap.ep) if tag is not None else snap.ep
        t = sym('m', base, off, ep)
        return snap.eqs.get(t, t)
    def const_global(self, base, off, size):
        if base.op != 'g': return None
        g = self.p.globals.get(base.args[0])
        if not g or not g.get('const') or 'init' not in g: return None
        return self.ginit(base.args[0], off, size)
    def ginit(self, key, off, size=8):
        g = self.p.globals.get(key)
        if not g or 'init' not in g: return None
        for ent in g['init']:
            o, v = ent[0], ent[1]
            if o == off:
                if 'c' in v: return C(v['c'])
                if 'f' in v: return mk('f', v['f'])
                if 'g' in v: return mk('g', v['g'])
                if 'z' in v: return ZERO
                if v.get('e') == 'gep' and 'g' in v['b']: return ptradd(mk('g', v['b']['g']), v['o'])
                return None
            if 'z' in v and o <= off and off + size <= o + (ent[2] if len(ent) > 2 else 0): return ZERO
        return None
    def store(self, st, ptr, val, size, tag, i=None, rec=True):
        base, off = ptr_split(ptr)
        self.access(st, base, off, 'store', i, tag)
        mem = st.wmem()
        # kill overlapping slots of the same base
        for d in range(-7, size):
            if d == 0: continue
            k = (base, off + d)
            if k in mem and (d > 0 or off + d + mem[k][1] > off):
                del mem[k]
        if base.op == 'gep' and base.args[2]:
            # variable index: invalidates slots of the same array
            b0, o0 = base.args[0], base.args[1]
            for (b, o) in list(mem):
                if b is b0 and o >= off or (b is not base and b.op == 'gep' and b.args[0] is b0): del mem[(b, o)]
            # remember that the array content is unknown from here on
            if b0 in st.dflt or True:
                pass
        else:
            for (b, o) in list(mem):
                if b.op == 'gep' and b.args[0] is base and o <= off: del mem[(b, o)]
        mem[(base, off)] = (val, size, tag)
        if not self.private(st, base): self.escape(st, val)
        if rec and self.cfg.record_stores and not (ptr_root(base).op == 'sym' and ptr_root(base).args[0] == 'alloca' and ptr_root(base) not in st.esc):
            self.emit(st, 'st', None, (base, off, val), None, i, x=tag, snap=self.cfg.snap_st)
    def access(self, st, base, off, how, i, tag):
        r = ptr_root(base)
        if self.cfg.uaf and r in st.freed:
            self.emit(st, 'uaf', 'load' if how == 'ldq' else how, (base, C(off)), None, i, x=tag, snap=False)
        if self.cfg.record_loads and how == 'load' and not (r.op == 'sym' and r.args[0] == 'alloca'):
            self.emit(st, 'ld', None, (base, off), None, i, x=tag, snap=False)
        if r.op in ('sym', 'c') and (isc(r) and cv(r) == 0 and r.op == 'c' or self.isnull(st, r)):
            fr = st.frames[-1]
            self.nullderefs.append((st.frames[0].fn.name, fr.fn.name, '%s:%s' % ((i or {}).get('sf', '').split('/')[-1], (i or {}).get('l', 0)), show(base), off))
            raise Infeasible
    def isnull(self, st, r):
        f = st.facts.get(r)
        return bool(f and f[0] == 0 and f[1] == 0)
    def havoc_all(self, st, ep):
        mem = st.wmem()
        for k in list(mem):
            if not self.private(st, k[0]): del mem[k]
        for b in list(st.dflt):
            if not self.private(st, b): del st.dflt[b]
        st.ep = ep; st.tagep = {}
        st.eqs = {}
    def havoc_tags(self, st, tags, ep, gl=()):
        mem = st.wmem()
        for k, v in list(mem.items()):
            if v[2] in tags or (v[2] and (v[2][0], None) in tags):
                if not self.private(st, k[0]): del mem[k]
            elif k[0].op == 'g' and ('@', k[0].args[0]) in tags: del mem[k]
        for t in tags:
            if isinstance(t, tuple) and t[0] != '@': st.tagep[t] = ep
    def havoc_obj(self, st, base, lo, hi, ep):
        mem = st.wmem()
        for (b, o) in list(mem):
            if b is base and lo <= o < hi: del mem[(b, o)]
        r = base
        st.dflt[r] = ((lo, None if hi == INF else hi - lo, 'junk', ep),) + st.dflt.get(r, ())

    # main loop ---------------------------------------------------------------
    def exec(self, st, work, out):
        while True:
            self.steps += 1
            if self.steps > self.cfg.maxsteps: raise AnalysisError('step budget exceeded in %s' % st.frames[0].fn.name)
            fr = st.frames[-1]
            i = fr.fn.blocks[fr.bi][fr.ii]
            k = i['k']
            A = lambda n: self.opval(st, fr, i['a'][n])
            if k == 'load' and i.get('at'):
                # an atomic read: one indivisible step that changes nothing
                tag = self.tag(fr, i['a'][0]); old = self.atomold(st, fr, A(0), i, tag); fr = st.frames[-1]
                base, off = ptr_split(A(0))
                self.emit(st, 'atomic', 'add', (base, C(off), ZERO, C(i['sz'])), old, i, x=tag)
                fr.env[i['i']] = old
            elif k == 'store' and i.get('at'):
                tag = self.tag(fr, i['a'][1]); old = self.atomold(st, fr, A(1), i, tag); fr = st.frames[-1]
                base, off = ptr_split(A(1))
                self.emit(st, 'atomic', 'xchg', (base, C(off), A(0), C(i['sz'])), old, i, x=tag)
                self.store(st, A(1), A(0), i['sz'], tag, i, rec=False)
            elif k == 'load':
                p = A(0)
                if self.cfg.concurrent and i.get('vo') and not self.private(st, ptr_split(p)[0]):
                    b_, o_ = ptr_split(p); self.access(st, b_, o_, 'ldq', i, None)
                    v = self.new(st, 'vol', self.site(fr, i, 'load')); fr = st.frames[-1]
                    for kk in [kk for kk in st.facts if v in kk.syms]: del st.facts[kk]
                    b_, o_ = ptr_split(self.opval(st, fr, i['a'][0]))
                    self.emit(st, 'ld', None, (b_, o_), v, i, x=self.tag(fr, i['a'][0]), snap=False)
                else: v = self.load(st, p, i['sz'], self.tag(fr, i['a'][0]), i)
                fr.env[i['i']] = v
            elif k == 'store':
                self.store(st, A(1), A(0), i['sz'], self.tag(fr, i['a'][1]), i)
            elif k == 'getelementptr':
                p = A(0)
                fr.env[i['i']] = ptradd(p, i['o'], [(self.opval(st, fr, x), s) for x, s in i['v']])
            elif k == 'icmp':
                fr.env[i['i']] = self.icmp(st, i['pr'], A(0), A(1), i['ow'])
            elif k in ('add', 'sub'):
                fr.env[i['i']] = add(A(0), A(1), 1 if k == 'add' else -1)
            elif k in ('and', 'or', 'xor'):
                a, b = A(0), A(1)
                a, b = self.pin(st, a), self.pin(st, b)
                fr.env[i['i']] = t_bit(k, a, b, i.get('w', 64))
            elif k == 'mul':
                a, b = self.pin(st, A(0)), self.pin(st, A(1))
                fr.env[i['i']] = mulc(b, cv(a)) if isc(a) else mulc(a, cv(b)) if isc(b) else mk('mul', *sorted((a, b), key=lambda t: t.id))
            elif k in ('shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
                fr.env[i['i']] = self.arith(k, self.pin(st, A(0)), self.pin(st, A(1)), i.get('w', 64))
            elif k == 'zext': fr.env[i['i']] = t_zext(A(0), i['ow'])
            elif k == 'sext': fr.env[i['i']] = t_sext(A(0), i['ow'])
            elif k == 'trunc':
                a = A(0)
                fr.env[i['i']] = mk('trunc', a, 32) if self.cfg.exact and i['w'] == 32 and (a.op in ('lin', 'mul') or a.op == 'sym' and (a.args[0] == 'm' or a.args[0].startswith('arg'))) and not within32(st.facts, a) else t_trunc(a, i['w'])
            elif k in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'): fr.env[i['i']] = A(0)
            elif k == 'alloca':
                t = sym('alloca', '%s%s' % (fr.fn.name, '' if not fr.ctx else '#%d' % self.ctxid(fr.ctx)), i.get('nm') or i['i'])
                ALLOCSZ[t] = i.get('sz', -1)
                if t in st.freed: st.freed = st.freed - {t}
                st.esc = st.esc - {t}
                mem = st.wmem()
                for key in [kk for kk in mem if ptr_root(kk[0]) is t]: del mem[key]
                st.dflt.pop(t, None)
                fr.env[i['i']] = t
            elif k in ('call', 'invoke'):
                r = self.call(st, fr, i, work)
                if r == 'end': return
                if r == 'pushed': continue
                if k == 'invoke':
                    if not self.goto(st, fr, i['nd'], work): return
                    continue
            elif k == 'br':
                if len(i['t']) == 1:
                    if not self.goto(st, fr, i['t'][0], work): return
                    continue
                c = A(0)
                self.branch(st, c, i, work)
                return_needed = self._branch_take(st, fr, c, i, work)
                if not return_needed: return
                continue
            elif k == 'switch':
                if not self.switch(st, fr, i, work): return
                continue
            elif k == 'ret':
                v = A(0) if i['a'] else None
                if len(st.frames) == 1:
                    b = v
                    while b is not None and b.op in ('zext', 'sext') and b.args[0].op in ('zext', 'sext', 'not', 'eq', 'slt', 'ult'): b = b.args[0]
                    if b is None or b.op not in ('not', 'eq', 'slt', 'ult') or ev_cond(st.facts, b) is not None:
                        self.finish(st, 'ret', v, i, out); return
                    # a yes-or-no answer given as an expression: one path per answer
                    for val in (True, False):
                        s2 = st.clone()
                        try: self.do_assume(s2, b, val)
                        except Infeasible: continue
                        self.finish(s2, 'ret', C(int(val) if v.op != 'sext' else -int(val)), i, out)
                    return
                call = fr.call
                st.frames.pop()
                fr = st.frames[-1]
                if v is not None: fr.env[call['i']] = v
                if call['k'] == 'invoke':
                    if not self.goto(st, fr, call['nd'], work): return
                    continue
                fr.ii += 1
                continue
            elif k == 'unreachable':
                self.finish(st, 'abort', None, i, out); return
            elif k == 'select':
                c = A(0)
                r = ev_cond(st.facts, c)
                if r is None:
                    s2 = st.clone()
                    try:
                        self.do_assume(s2, c, False)
                        f2 = s2.frames[-1]; f2.env[i['i']] = self.opval(s2, f2, i['a'][2]); f2.ii += 1
                        work.append(s2)
                    except Infeasible: pass
                    self.do_assume(st, c, True)
                    fr = st.frames[-1]
                    fr.env[i['i']] = self.opval(st, fr, i['a'][1])
                else: fr.env[i['i']] = A(1) if r else A(2)
            elif k == 'atomicrmw':
                p, v = A(0), A(1)
                tag = self.tag(fr, i['a'][0])
                old = self.atomold(st, fr, p, i, tag); fr = st.frames[-1]; p, v = A(0), A(1)
                op = i['rop']
                new = add(old, v) if op == 'add' else add(old, v, -1) if op == 'sub' else v if op == 'xchg' else mk(op, old, v)
                base, off = ptr_split(p)
                self.emit(st, 'atomic', op, (base, C(off), v, C(i['sz'])), old, i, x=tag)
                self.store(st, p, new, i['sz'], tag, i, rec=False)
                fr.env[i['i']] = old
            elif k == 'cmpxchg':
                p, c, n = A(0), A(1), A(2)
                tag = self.tag(fr, i['a'][0])
                old = self.atomold(st, fr, p, i, tag); fr = st.frames[-1]; p, c, n = A(0), A(1), A(2)
                base, off = ptr_split(p)
                eqt = t_eq(old, c)
                s2 = st.clone()
                try:
                    self.do_assume(s2, eqt, False)
                    f2 = s2.frames[-1]
                    self.emit(s2, 'atomic', 'cas-fail', (base, C(off), c, n, C(i['sz'])), old, i, x=tag)
                    f2.env[i['i']] = mk('agg', old, ZERO); f2.ii += 1; work.append(s2)
                except Infeasible: pass
                self.do_assume(st, eqt, True)
                fr = st.frames[-1]
                self.emit(st, 'atomic', 'cas', (base, C(off), c, n, C(i['sz'])), old, i, x=tag)
                self.store(st, p, n, i['sz'], tag, i, rec=False)
                fr.env[i['i']] = mk('agg', A(1), ONE)    # the value found is the one expected
            elif k == 'extractvalue':
                a = A(0)
                fr.env[i['i']] = a.args[i['ix'][0]] if a.op == 'agg' else mk('ev', a, i['ix'][0])
            elif k == 'insertvalue':
                a, b = A(0), A(1)
                ix = i['ix'][0]
                l = list(a.args) if a.op == 'agg' else [mk('ev', a, 0), mk('ev', a, 1)]
                while len(l) <= ix: l.append(mk('ev', a, len(l)))
                l[ix] = b
                fr.env[i['i']] = mk('agg', *l)
            elif k == 'phi': pass      # done on the edge
            elif k == 'fence': self.emit(st, 'fence', 'fence', (), None, i)
            elif k in ('landingpad', 'resume'): return
            else:
                fr.env[i['i']] = mk('x:' + k, *[self.opval(st, fr, a) for a in i.get('a', [])])
            fr.ii += 1

    def atomold(self, st, fr, p, i, tag):
        b, o = ptr_split(p)
        if not self.cfg.concurrent or self.private(st, b): return self.load(st, p, i['sz'], tag, i)
        self.access(st, b, o, 'ldq', i, None)
        v = self.new(st, 'vol', self.site(fr, i, 'atomic'))
        for kk in [kk for kk in st.facts if v in kk.syms]: del st.facts[kk]
        return v
    _ctx = {}
    def ctxid(self, ctx):
        return self._ctx.setdefault(ctx, len(self._ctx) + 1)
    def branch(self, *a): pass
    def pin(self, st, t):
        if isc(t): return t
        f = st.facts.get(t)
        if f and f[0] == f[1]: return C(int(f[0]))
        return t
    def arith(self, k, a, b, w):
        if isc(b):
            v = cv(b)
            if isc(a):
                x = cv(a); m = (1 << w) - 1
                if k == 'shl': return C(trunc_const(x << v, w))
                if k == 'lshr': return C((x & m) >> v)
                if k == 'ashr': return C(x >> v)
                if v:
                    if k == 'udiv': return C((x & m) // (v & m))
                    if k == 'urem': return C((x & m) % (v & m))
                    q = abs(x) // abs(v) * (1 if (x < 0) == (v < 0) else -1)
                    if k == 'sdiv': return C(q)
                    if k == 'srem': return C(x - q * v)
            if k == 'shl': return mulc(a, 1 << v)
            if v == 0 and k in ('lshr', 'ashr'): return a
            if v == 1 and k in ('udiv', 'sdiv'): return a
        return mk(k, a, b, w) if k in ('lshr', 'ashr') else mk(k, a, b)
    def icmp(self, st, pr, a, b, w):
        if pr == 'eq': return t_eq(a, b)
        if pr == 'ne': return t_not(t_eq(a, b))
        if pr == 'slt': return t_slt(a, b)
        if pr == 'sgt': return t_slt(b, a)
        if pr == 'sge': return t_not(t_slt(a, b))
        if pr == 'sle': return t_not(t_slt(b, a))
        if pr == 'ult': return t_ult(a, b, w)
        if pr == 'ugt': return t_ult(b, a, w)
        if pr == 'uge': return t_not(t_ult(a, b, w))
        if pr == 'ule': return t_not(t_ult(b, a, w))
        return mk('x:' + pr, a, b)
    def tag(self, fr, o):
        """(struct, offset) of the pointer operand's outermost typed step"""
        if 'i' in o:
            d = self.defs(fr.fn).get(o['i'])
            if d and d['k'] == 'getelementptr':
                if 'st' in d: return (sname(d['st']), d['o']) if not d['v'] else (sname(d['st']), None)
                # array step on top of a struct step
                return self.tag(fr, d['a'][0])
            return None
        if 'g' in o: return ('@', o['g'])
        if o.get('e') == 'gep': return ('@', o['b'].get('g'))
        return None
    def defs(self, fn):
        try: return fn.insts
        except AttributeError:
            fn.insts = {i['i']: i for b in fn.blocks for i in b}; return fn.insts

    def do_assume(self, st, c, val):
        f = dict(st.facts)
        pair = assume(f, c, val)
        st.facts = f
        if pair:
            a, b = pair
            # replace the more derived term by the other
            def rank(t): return (t.op != 'sym', 0 if t.op == 'sym' and t.args[0] == 'm' else 1 if t.op == 'sym' and not fresh_obj(t) and not t.args[0].startswith('arg') else 2)
            x, y = (a, b)
            cand = [(p, q) for p, q in ((a, b), (b, a)) if p.op == 'sym' and p not in q.syms and not fresh_obj(p)]
            if cand:
                cand.sort(key=lambda pq: (0 if pq[0].args[0] == 'm' else 2 if str(pq[0].args[0]).startswith('arg') else 1, -pq[0].id))
                p, q = cand[0]
                if p.args[0] == 'm': st.eqs[p] = q
                self.substitute(st, {p: q})
    def _branch_take(self, st, fr, c, i, work):
        r = ev_cond(st.facts, c)
        t, f = i['t']
        if r is not None:
            return self.goto(st, fr, t if r else f, work)
        s2 = st.clone()
        try:
            self.do_assume(s2, c, False)
            if self.goto(s2, s2.frames[-1], f, work): work.append(s2)
        except Infeasible: pass
        try:
            self.do_assume(st, c, True)
        except Infeasible: return False
        return self.goto(st, st.frames[-1], t, work)
    def switch(self, st, fr, i, work):
        v = self.opval(st, fr, i['a'][0])
        if isc(v):
            for cval, b in i['cs']:
                if cval == cv(v): return self.goto(st, fr, b, work)
            return self.goto(st, fr, i['d'], work)
        for cval, b in i['cs']:
            c = t_eq(v, C(cval))
            r = ev_cond(st.facts, c)
            if r is False: continue
            s2 = st.clone()
            try:
                self.do_assume(s2, c, True)
                if self.goto(s2, s2.frames[-1], b, work): work.append(s2)
            except Infeasible: pass
            if r is True: return False
            self.do_assume(st, c, False)
        return self.goto(st, st.frames[-1], i['d'], work)

    def goto(self, st, fr, b, work):
        """take the edge fr.bi -> b; returns False when the path ends here (loop fixpoint)"""
        src = fr.bi
        fn = fr.fn
        blk = fn.blocks[b]
        newv = {}
        for i in blk:
            if i['k'] != 'phi': break
            for pb, o in i['in']:
                if pb == src:
                    newv[i['i']] = self.opval(st, fr, o)
        live = fn.live[b]
        env = {k: v for k, v in fr.env.items() if isinstance(k, tuple) or k in live}
        env.update(newv)
        fr.env = env
        fr.prev = src; fr.bi = b; fr.ii = 0
        # leave loops
        while fr.loops and b not in fn.loopblocks[fr.loops[-1][0]]:
            fr.loops.pop()
        if b in fn.heads:
            if fr.loops and fr.loops[-1][0] == b:
                if self.cfg.cut:
                    n = fr.loops[-1][2] + 1
                    if n < self.cfg.cut:        # walk over a given shape: the pointers are known
                        fr.loops[-1] = (b, fr.loops[-1][1], n)
                        return True
                    self.finish(st, 'cut', None, {}, self.out); self.out[-1].env = dict(fr.env); self.out[-1].newv = dict(newv)
                    return False
                return self.iterate(st, fr, b, newv)
            inst = LoopInst(b, fn.name, blk[0].get('l') if blk else 0)
            inst.fn = fn.name
            line = next((x.get('l') for x in blk if x.get('l')), fn.line)
            inst.line = line
            mark = ('mark', inst)
            inst.cur = self.loopstate(st, fr); inst.entry = inst.cur
            fr.loops.append((b, inst, 0))
            self.stats['loops'] += 1
            ev = Event('loop', inst.fn, (), None, '%s:%s' % (fn.file.split('/')[-1], line), fn.name, None, None, len(st.frames)); ev.inst = inst
            st.trace = (st.trace, ('mark', inst, ev, None, inst.cur))
        return True
    def loopstate(self, st, fr):
        return dict(env=dict(fr.env), mem=dict(st.mem), facts=dict(st.facts), ep=st.ep, tagep=dict(st.tagep), freed=st.freed, dflt=dict(st.dflt))
    def iterate(self, st, fr, b, newv):
        inst = fr.loops[-1][1]
        inst.iters += 1
        if inst.iters > 400: raise AnalysisError('loop at %s:%s in %s does not stabilise' % (fr.fn.file, inst.line, fr.fn.name))
        # collect the segment
        seg = []
        t = st.trace
        while not (isinstance(t[1], tuple) and t[1][0] == 'mark' and t[1][1] is inst):
            if not isinstance(t[1], tuple): seg.append(t[1])
            t = t[0]
        seg.reverse()
        ev = t[1][2]
        # drop nested loop refs with no events
        k = tuple(e.key() if e.kind != 'loop' else ('loop', e.inst.fn, e.inst.line) for e in seg)
        if self.cfg.backedge:
            # end of one iteration: memory and facts as they are there
            be = Event('back', inst.fn, (), None, ev.site, fr.fn.name, st.snap(), (t[1][4], dict(fr.env)), len(st.frames))
            seg.append(be); k += (frozenset(st.facts.items()), id(t[1][4]))
        if k not in inst.segs: inst.segs[k] = tuple(seg)
        # trace: prefix, loopref, new marker
        pre = t[0]
        if not (t[1][3]):
            st.trace = ((pre, ev), ('mark', inst, ev, True, None))
        else:
            st.trace = (pre, t[1])
        cur = inst.cur
        nm = '%s:%s%s' % (fr.fn.name, b, '' if not fr.ctx else '#%d' % self.ctxid(fr.ctx))
        # 1. widen env
        todo = []
        for k2, v in fr.env.items():
            o = cur['env'].get(k2)
            if o is None or o is v: continue
            todo.append(('e', k2, o, v))
        keys = set(st.mem) | set(cur['mem'])
        memtodo = []
        old = cur['mem']
        wsyms = []
        for k2, o, v in [(x[1], x[2], x[3]) for x in todo]:
            w = sym('w', nm, 'v%s' % (k2,))
            wsyms.append(('e', k2, o, v, w))
        def stale(t): return any(x.op == 'sym' and len(x.args) > 1 and x.args[1] in ('~1', '~2') for x in t.syms)
        for k2 in keys:
            a, c = old.get(k2), st.mem.get(k2)
            if a is not None and c is not None and a[0] is c[0] and a[1] == c[1]: continue
            if any(x[0] == 'w' and x[1] == nm for x in [y.args for y in k2[0].syms if y.op == 'sym' and len(y.args) > 1]) and a is None:
                continue    # slot of the per-iteration object: handled below (dropped)
            if stale(k2[0]): continue
            wsyms.append(('m', k2, a, c, sym('w', nm, 'm', k2[0], k2[1])))
        for kind, k2, o, v, w in wsyms:
            ov = o if kind == 'e' else (o[0] if o else sym('m', k2[0], k2[1], None))
            vv = v if kind == 'e' else (v[0] if v else None)
            inst.upd.setdefault((kind, k2), set()).add((ov, vv)); inst.wsym[(kind, k2)] = w
        # compute joined facts for each widened slot before renaming
        info = {}
        for kind, k2, o, v, w in wsyms:
            if kind == 'm':
                ov = o[0] if o else sym('m', k2[0], k2[1], None); vv = v[0] if v else None
            else: ov, vv = o, v
            l1, h1 = interval(cur['facts'], ov)
            z1, o1 = bits(cur['facts'], ov)
            nz1 = self._nonzero(cur['facts'], ov)
            if vv is None: l2, h2, z2, o2, nz2 = -INF, INF, 0, 0, False
            else:
                l2, h2 = interval(st.facts, vv); z2, o2 = bits(st.facts, vv); nz2 = self._nonzero(st.facts, vv)
            lo = l1 if l2 >= l1 else -INF
            hi = h1 if h2 <= h1 else INF
            if lo == -INF and l1 >= 0 and l2 >= 0: lo = 0
            ne = frozenset([0]) if nz1 and nz2 else frozenset()
            info[w] = (lo, hi, ne, z1 & z2, o1 & o2)
        # 2. age: symbols of the previous iteration
        agem = {}
        epn = []
        if st.ep is not cur['ep']: epn.append(('wep', nm))
        for tg in set(st.tagep) | set(cur['tagep']):
            if st.tagep.get(tg) is not cur['tagep'].get(tg): epn.append(('wep', nm, str(tg)))
        for nmk in epn:
            if nmk in st.names: agem[sym(*nmk)] = sym(nmk[0], '~1', *nmk[1:])
            else: st.names = st.names | {nmk}
        for x in wsyms:
            w = x[4]
            nmk = w.args
            if nmk in st.names:
                agem[w] = sym(nmk[0], '~1', *nmk[1:])
            else: st.names = st.names | {nmk}
        # values to assign (they are new symbols, so compute after ageing)
        if agem: self.substitute(st, agem)
        fr = st.frames[-1]
        for kind, k2, o, v, w in wsyms:
            if kind == 'e': fr.env[k2] = w
        mem = st.wmem()
        for kind, k2, o, v, w in wsyms:
            if kind == 'm':
                k3 = (subst(k2[0], agem), k2[1]) if agem else k2
                mem.pop(k3, None)
                if o is None and v is not None and False: pass
                sz = (v or o)[1]; tg = (v or o)[2]
                mem[k2] = (w, sz, tg)
        for k2 in list(mem):
            if stale(k2[0]): del mem[k2]
        # drop slots of objects only known in this iteration and not at the head before
        # 3. facts: keep what holds on both sides
        nf = {}
        for t2, f in st.facts.items():
            if stale(t2): continue
            g = cur['facts'].get(t2)
            if t2 in info: continue
            if g is None:
                # fact learnt inside the body about a pre-existing term: not an invariant
                continue
            if f == g: nf[t2] = f; continue
            lo = g[0] if f[0] >= g[0] else -INF
            hi = g[1] if f[1] <= g[1] else INF
            r = (lo, hi, f[2] & g[2], f[3] & g[3], f[4] & g[4])
            if r != TOPF: nf[t2] = r
        for w, f in info.items():
            if f != TOPF: nf[w] = f
        st.facts = nf
        # epochs
        if st.ep is not cur['ep']:
            st.ep = sym('wep', nm)
        for tg in set(st.tagep) | set(cur['tagep']):
            if st.tagep.get(tg) is not cur['tagep'].get(tg): st.tagep[tg] = sym('wep', nm, str(tg))
        st.freed = frozenset(t2 for t2 in st.freed if not stale(t2))
        st.eqs = {a: c for a, c in st.eqs.items() if not stale(a) and not stale(c)}
        for b2 in list(st.dflt):
            if stale(b2): del st.dflt[b2]
        new = self.loopstate(st, fr)
        same = (new['env'] == cur['env'] and {k: (v[0], v[1]) for k, v in new['mem'].items()} == {k: (v[0], v[1]) for k, v in cur['mem'].items()} and new['facts'] == cur['facts'] and new['ep'] is cur['ep'] and new['tagep'] == cur['tagep'] and new['freed'] <= cur['freed'])
        if same and inst.iters > 1:
            return False
        if inst.iters > 60:
            # force convergence: drop all facts that keep changing
            st.facts = {t2: f for t2, f in st.facts.items() if cur['facts'].get(t2) == f}
            new = self.loopstate(st, fr)
        inst.cur = new
        st.trace = (st.trace[0], st.trace[1][:4] + (new,))
        return True
    def _nonzero(self, facts, t):
        return ev_cond(facts, t_eq(t, ZERO)) is False

    def finish(self, st, kind, v, i, out):
        ev = []
        t = st.trace
        while t is not None:
            if not isinstance(t[1], tuple): ev.append(t[1])
            t = t[0]
        ev.reverse()
        s = Summary(); s.kind = kind; s.ret = v; s.events = ev; s.final = st.snap(); s.fn = st.frames[0].fn.name
        s.site = '%s:%s' % (i.get('sf', '').split('/')[-1], i.get('l', 0))
        if kind == 'abort' : 
            # assertion failures and explicit aborts end the process: not a completed path
            return
        out.append(s)

    # calls ---------------------------------------------------------------
    def call(self, st, fr, i, work):
        args = [self.opval(st, fr, a) for a in i['a']]
        cfg = self.cfg
        name = i.get('f')
        if name is None:
            o = i['cv']
            if 'asm' in o:
                fr.env[i['i']] = sym('asm', o['asm'][:20]); self.emit(st, 'asm', o['asm'][:30], args, None, i); return None
            t = self.opval(st, fr, o)
            t = self.pin(st, t)
            if t.op == 'f': name = t.args[0]; fobj = self.p.byname.get(name, [None])[0]
            else:
                nm = self.slotname(fr, i['cv'], t)
                if cfg.resolver:
                    tgt = cfg.resolver(self, st, t, nm)
                    if tgt:
                        name = tgt; fobj = self.p.byname.get(name, [None])[0]
                if name is None:
                    return self.opaque_call(st, fr, i, None, t, args, nm)
        else: fobj = self.callee(i) if not i.get('intr') else None
        if i.get('intr'): return self.intrinsic(st, fr, i, name, args)
        if name in cfg.models:
            r = cfg.models[name](self, st, fr, i, args, work)
            if r is not NotImplemented: return r
        if name in cfg.noreturn or name in ('__assert_fail', 'abort', 'exit', '_exit'):
            self.finish(st, 'abort', None, i, [])
            return 'end'
        if fobj is not None and name not in cfg.opaque and len(st.frames) < cfg.maxdepth and not any(f.fn is fobj for f in st.frames) \
                and (cfg.inline_only is None or cfg.inline_only(fobj)):
            self.stats['functions'].add(fobj.key)
            nf = Frame(); nf.fn = fobj; nf.bi = 0; nf.ii = 0; nf.prev = None; nf.call = i; nf.loops = []; nf.allocas = None
            nf.ctx = fr.ctx + ((fr.fn.key, i['i']),)
            nf.env = {('a', n): a for n, a in enumerate(args)}
            if len(args) < fobj.nargs: raise AnalysisError('arity mismatch calling %s' % name)
            st.frames.append(nf)
            return 'pushed'
        return self.opaque_call(st, fr, i, name, None, args, None, fobj)

    def slotname(self, fr, o, t):
        """name a function pointer by the record field it was loaded from"""
        d = self.defs(fr.fn).get(o.get('i')) if 'i' in o else None
        if d and d['k'] == 'load':
            ptr = d['a'][0]
            tg = self.tag(fr, ptr)
            if 'g' in ptr or ptr.get('e') == 'gep':
                g = ptr.get('g') or ptr['b'].get('g'); off = ptr.get('o', 0)
                G = self.p.globals.get(g, {})
                ty = G.get('type')
                f = self.p.fieldname(ty, off) if ty else None
                return '%s.%s' % (G.get('name', g), f or off)
            if tg and tg[0] != '@':
                f = self.p.fieldname(tg[0], tg[1]) if tg[1] is not None else None
                return '%s.%s' % (tg[0], f or tg[1])
            if tg and tg[0] == '@':
                gd = self.defs(fr.fn).get(ptr.get('i'))
                G = self.p.globals.get(tg[1], {})
                off = gd['o'] if gd else 0
                ty = G.get('type'); f = self.p.fieldname(ty, off) if ty else None
                return '%s.%s' % (G.get('name', tg[1]), f or off)
        if 'a' in o: return 'param.%s' % fr.fn.args[o['a']]
        return 'ptr'

    def site(self, fr, i, name):
        return '%s@%s:%s%s' % (name, fr.fn.name, i['i'], '' if not fr.ctx else '#%d' % self.ctxid(fr.ctx))

    def opaque_call(self, st, fr, i, name, term, args, nm, fobj=None):
        cfg = self.cfg
        label = name or nm
        isptr = i.get('p')
        if name in HEAP:
            h = self.new(st, 'heap', self.site(fr, i, name))
            fr = st.frames[-1]
            st.freed = st.freed - {h}; st.esc = st.esc - {h}
            mem = st.wmem()
            for k in [k for k in mem if ptr_root(k[0]) is h]: del mem[k]
            st.dflt.pop(h, None); st.facts.pop(h, None)
            if name == 'calloc': st.dflt[h] = ((0, None, 'zero', None),)
            elif name == 'realloc':
                st.freed = st.freed | ({args[0]} if not isc(args[0]) else set())
                st.dflt[h] = ((0, None, 'junk', sym('ep', self.site(fr, i, name))),)
            self.emit(st, 'call', name, args, h, i)
            fr.env[i['i']] = h
            return None
        ret = None
        if i.get('w') or 'w' in i or i['k'] == 'call':
            site = self.site(fr, i, label); again = 0
            if cfg.cut:                             # a bounded number of rounds: every call has a result of its own
                while ('ret', site, again) in st.names: again += 1
                st.names = st.names | {('ret', site, again)}
            ret = sym('ret', site, again + 1) if again else self.new(st, 'ret', site)
            fr = st.frames[-1]
            args = [self.opval(st, fr, a) for a in i['a']]
            if term is not None: term = self.opval(st, fr, i['cv']) if 'asm' not in i['cv'] else term
            # a result symbol re-created: drop facts
            for k in [k for k in st.facts if ret in k.syms]: del st.facts[k]
            if i.get('w') == 1: BOOLS.add(ret)
            if fobj is None and name in RESULTS: refine(st.facts, ret, *RESULTS[name])
        if name is not None:
            e = self.emit(st, 'call', name, args, ret, i)
        else:
            e = self.emit(st, 'icall', label, args, ret, i, x=None)
            e.x = term
        if cfg.uaf:
            for a in args:
                if any(x in st.freed for x in [ptr_root(a)]) and name not in FREE: self.emit(st, 'uaf', 'arg:' + str(label), (a, ZERO), None, i)
                elif name in FREE and ptr_root(a) in st.freed: self.emit(st, 'uaf', 'doublefree', (a, ZERO), None, i)
        if name in FREE:
            if not isc(args[0]): st.freed = st.freed | {args[0]}
            if ret is not None: fr.env[i['i']] = ret
            return None
        ep = None
        def epoch():
            return self.epoch_sym(st, self.site(st.frames[-1], i, label))
        key = name if name is not None else label
        if key in cfg.pure or (name is None and cfg.havoc == 'none'): pass
        elif name is None:
            for a in args: self.escape(st, a)
            if label in cfg.no_havoc: pass
            else: self.havoc_all(st, epoch())
        elif fobj is not None:
            ms = self.modset(fobj)
            for a in args: self.escape(st, a)
            if key in cfg.no_havoc: pass
            elif 'ALL' in ms: self.havoc_all(st, epoch())
            else:
                e1 = epoch()
                self.havoc_tags(st, ms, e1)
                if '?' in ms:
                    for a in args:
                        r = ptr_root(a)
                        if r.op == 'sym' and r.args[0] == 'alloca': self.havoc_obj(st, ptr_split(a)[0], ptr_split(a)[1], INF, e1)
        else:
            # external function
            if name == '__errno_location':
                fr.env[i['i']] = mk('g', 'errno')
                st.trace = st.trace[0]
                return None
            fr = st.frames[-1]
            e1 = None
            if name in BLOCKING_EXT or name in cfg.blocking:
                for a in args: self.escape(st, a)
                e1 = epoch(); fr = st.frames[-1]
                self.havoc_all(st, e1)
            elif name not in READONLY_EXT:
                for a in args:
                    r = ptr_root(a)
                    if r.op in ('sym', 'g') and not isc(a):
                        b, o = ptr_split(a)
                        if r.op == 'sym' and r.args[0] == 'alloca':
                            if e1 is None: e1 = epoch()
                            if name not in NOCAPTURE_EXT: self.escape(st, a)
                            self.havoc_obj(st, b, o, INF, e1)
                        elif any(k[0] is b and o <= k[1] < o + 16 for k in st.mem) or r.args[0] == 'heap':
                            if e1 is None: e1 = epoch()
                            self.havoc_obj(st, b, o, o + 16 if o else INF, e1)
                        if fresh_obj(r) and name not in NOCAPTURE_EXT: self.escape(st, a)
            else:
                for a in args:
                    if name not in ('strlen', 'memcmp', 'strcmp', 'strcasecmp', 'strncasecmp', 'close'): self.escape(st, a)
            mem = st.wmem()
            if e1 is None: e1 = self.epoch_sym(st, self.site(st.frames[-1], i, label))
            mem[(mk('g', 'errno'), 0)] = (sym('errno', e1), 4, None)
        fr = st.frames[-1]
        if ret is not None:
            fr.env[i['i']] = ret
            if name in ('strlen',): refine(st.facts, ret, lo=0)
        if i.get('nr'): 
            return 'end'
        return None

    def ubound(self, st, n):
        """upper bound of an unsigned length branched on earlier (None: none known)"""
        r = None
        for t, f in st.facts.items():
            if t.op != 'ult': continue
            x, y = t.args; v = ev_cond(st.facts, t)
            if v is True and x is n and isc(y): k = cv(y) - 1
            elif v is False and y is n and isc(x): k = cv(x)
            else: continue
            if k >= 0 and (r is None or k < r): r = k
        return r
    def intrinsic(self, st, fr, i, name, args):
        if name.startswith('llvm.memset'):
            b, o = ptr_split(args[0]); n = args[2]
            self.access(st, b, o, 'store', i, None)
            nv = cv(n) if isc(n) else None
            mem = st.wmem()
            for (bb, oo) in list(mem):
                if bb is b and oo >= o and (nv is None or oo < o + nv): del mem[(bb, oo)]
            kind = 'zero' if isc(args[1]) and cv(args[1]) == 0 else 'junk'
            st.dflt[b] = ((o, nv, kind, sym('memset', self.site(fr, i, 'memset')) if kind == 'junk' else None),) + st.dflt.get(b, ())
            self.emit(st, 'memset', 'memset', args[:3], None, i, snap=False)
        elif name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            b, o = ptr_split(args[0]); sb, so = ptr_split(args[1]); n = args[2]
            self.access(st, b, o, 'store', i, None); self.access(st, sb, so, 'load', i, None)
            nv = cv(n) if isc(n) else None; top = nv if nv is not None else self.ubound(st, n)
            snap = st.snap()
            self.emit(st, 'memcpy', 'memcpy', args[:3], None, i)
            mem = st.wmem()
            for (bb, oo) in list(mem):
                if bb is b and oo >= o and (top is None or oo < o + top): del mem[(bb, oo)]
            if nv is None and top is not None:
                st.dflt[b] = ((o, top, 'junk', sym('memcpy', self.site(fr, i, 'memcpy'))),) + st.dflt.get(b, ())
                return None
            if nv is not None:
                for (bb, oo), v in snap.mem.items():
                    if bb is sb and so <= oo and oo + v[1] <= so + nv:
                        mem[(b, o + oo - so)] = v
                        if not self.private(st, b): self.escape(st, v[0])
            st.dflt[b] = ((o, nv, 'copy', (sb, so, snap)),) + st.dflt.get(b, ())[:4]
        elif name.startswith('llvm.expect'): fr.env[i['i']] = args[0]
        elif name.startswith('llvm.trap'): return 'end'
        elif i.get('w'): fr.env[i['i']] = mk('x:' + name, *args)
        return None

def sname(s):
    for p in ('struct.', 'class.', 'union.'):
        if s.startswith(p): s = s[len(p):]
    return s

if __name__ == '__main__':
    import sys, time
    p = ir.Program(sys.argv[1]); e = Engine(p)
    t = time.time()
    for n in sys.argv[2:]:
        S = e.run(n, Cfg())
        print('==', n, len(S), 'paths')
        for s in S:
            print('  ret', s.ret, s.const(s.ret) if s.ret is not None else '')
            for ev in s.events: print('     ', ev)
    print(time.time() - t, e.stats['steps'])
