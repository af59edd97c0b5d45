"""Check framework: obligations, known findings, evidence, exit codes."""
import os, sys, json, time, traceback, itertools
import ir
from ir import Program, AnalysisError, VERIF
from absint import *
from terms import *

_progs = {}
_engines = {}
def program(cfg='epoll'):
    if cfg not in _progs: _progs[cfg] = Program(cfg)
    return _progs[cfg]
def engine(cfg='epoll'):
    if cfg not in _engines: _engines[cfg] = Engine(program(cfg))
    return _engines[cfg]

LOCK = 'pthread_mutex_lock'; UNLOCK = 'pthread_mutex_unlock'; TRYLOCK = 'pthread_mutex_trylock'

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.obligations = 0; self.discharged = 0
        self.viol = []           # (key, msg)
        self.samples = []
        self.rules = {}
        self.entries = set(); self.npaths = 0
        self.assumptions = []
        self._memo = {}
        self.cfg = 'epoll'
    @property
    def p(self): return program(self.cfg)
    @property
    def e(self): return engine(self.cfg)
    def run(self, fn, **kw):
        cfg = kw.pop('config', self.cfg)
        setup = kw.pop('setup', None); args = kw.pop('args', None)
        key = (fn if isinstance(fn, str) else fn.key, cfg, repr(sorted((k, sorted(v) if isinstance(v, (set, frozenset)) else v) for k, v in kw.items() if k not in ('models', 'resolver', 'inline_only'))), setup, tuple(args or ()), id(kw.get('models')), id(kw.get('resolver')), id(kw.get('inline_only')))
        if key in self._memo: self.args = self._memo[key + ('args',)]; return self._memo[key]
        E = engine(cfg)
        S = E.run(fn, Cfg(**kw), setup=setup, args=args)
        self.entries.add(key[0] + ('' if cfg == 'epoll' else '@' + cfg)); self.npaths += len(S)
        self._memo[key] = S
        for s in S: s_args[id(s)] = list(E.argterms)
        self._memo[key + ('args',)] = list(E.argterms)
        self.args = list(E.argterms)
        return S
    def off(self, t, f): return self.p.off(t, f)
    def ob(self, rule, inst, ok, msg='', path=None):
        """one obligation: rule `rule` at instance `inst`"""
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.discharged += 1; r[1] += 1
            if len(self.samples) < 12 and r[1] <= 1: self.samples.append('%s: %s holds' % (rule, inst))
            return True
        key = '%s|%s' % (rule, inst)
        m = '%s at %s: %s' % (rule, inst, msg)
        if path is not None: m += '\n    path: ' + path.describe() + ' [exit %s]' % path.site
        if not any(k == key for k, _ in self.viol): self.viol.append((key, m))
        return False
    def each(self, rule, inst, S, pred, msg, minimum=1):
        """pred(path)-> True / False / (False,msg); every path must satisfy it"""
        if len(S) < minimum: raise AnalysisError('%s: only %d paths through %s' % (rule, len(S), inst))
        for s in S:
            r = pred(s)
            if isinstance(r, tuple): self.ob(rule, inst, r[0], r[1] or msg, s)
            else: self.ob(rule, inst, r, msg, s)
    def some(self, rule, inst, S, pred, msg):
        """at least one path satisfies pred (the behaviour is still reachable)"""
        return self.ob(rule, inst, any(pred(s) for s in S), msg)

    def finish(self):
        kf = load_known()
        mine = [k for k in kf if k['property'] == self.pid]
        seen = []
        new = []
        for key, m in self.viol:
            hit = [k for k in mine if k['key'] == key]
            if hit: seen.append((hit[0], m))
            else: new.append((key, m))
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(explanation='static analysis of /repo\'s current sources: %d entry functions analysed, %d functions expanded, %d abstract paths enumerated to a fixpoint, %d rule obligations (%d discharged, %d known findings); rules: %s' % (
                      len(self.entries), sum(len(e.stats['functions']) for e in _engines.values()), self.npaths, self.obligations, self.discharged, len(seen),
                      '; '.join('%s %d/%d' % (k, v[1], v[0]) for k, v in sorted(self.rules.items()))),
                      obligations=self.obligations, discharged=self.discharged, entry_functions=sorted(self.entries)[:400], abstract_paths=self.npaths,
                      functions_expanded=sum(len(e.stats['functions']) for e in _engines.values()),
                      units={c: len(p.units) for c, p in _progs.items()}, rules={k: dict(instances=v[0], discharged=v[1]) for k, v in self.rules.items()}, samples=self.samples),
                  assumptions=self.assumptions + ['clang 18 -O0 IR of the sources is the program; distinct access paths do not alias unless a branch equates them; integer overflow is not modelled unless a rule says so; a failed assert() ends the process'],
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        for k, m in seen: print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        print('%s: %d obligations, %d discharged, %d entry functions, %d paths, %.1fs' % (self.pid, self.obligations, self.discharged, len(self.entries), self.npaths, time.time() - self.t0))
        if new:
            rp = os.path.join(VERIF, 'evidence', 'replay-%s.txt' % self.pid)
            with open(rp, 'w') as f:
                for k, m in new: f.write(m + '\n')
            for k, m in new[:8]: print('  ' + m)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0

s_args = {}
def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('KNOWN '):
                d = json.loads(l[6:]); out.append(d)
    return out

# ------------------------------------------------------------- path helpers
def initial(base, off):
    """value of memory at function entry"""
    return sym('m', base, off, None)
def final(ctx, s, base, off, size=8, tag=None):
    return ctx.e.load_snap(s.final, ptradd(base, off), size, tag)
def at(ctx, ev, base, off, size=8, tag=None):
    return ctx.e.load_snap(ev.snap, ptradd(base, off), size, tag)
def same(facts, a, b):
    if a is b: return True
    return ev_cond(facts, t_eq(a, b)) is True
def eqv(snap, a, b):
    """a and b are the same value at this point of the path"""
    def rep(t):
        for _ in range(8):
            n = snap.eqs.get(t, t)
            if n is t: return t
            t = n
        return t
    return rep(a) is rep(b) or same(snap.facts, a, b)
def differs(facts, a, b):
    return ev_cond(facts, t_eq(a, b)) is False
def isnull(facts, t): return ev_cond(facts, t_eq(t, ZERO)) is True
def at_rest(ctx, g, off=0, size=4):
    """the static initial value of global g[off, off+size) is zero (None: unknown)"""
    d = ctx.p.globals.get(g.args[0]) if g is not None and g.op == 'g' else None
    if not d or not isinstance(d.get('init'), list): return None
    return all(bool(v.get('z')) or v.get('c') == 0 for o, v, n in d['init'] if o < off + size and off < o + n)
def nonnull(facts, t): return ev_cond(facts, t_eq(t, ZERO)) is False
def lt(facts, a, b): return ev_cond(facts, t_slt(a, b))

class Stop(Exception): pass
def automaton(events, init, step):
    """run a finite automaton over a trace; step(state, ev) -> state | list of states.  Loops are taken to a fixpoint.
    returns the set of states at the end"""
    S = {init}
    for e in events:
        if e.kind == 'loop':
            todo = list(S); seen = set(S)
            segs = e.inst.seglist
            while todo:
                q = todo.pop()
                for g in segs:
                    for r in automaton(g, q, step):
                        if r not in seen: seen.add(r); todo.append(r)
            S = seen
        else:
            n = set()
            for q in S:
                r = step(q, e)
                if isinstance(r, (list, set)): n.update(r)
                else: n.add(r)
            S = n
    return S

def lock_scan(events, on_event=None):
    """held-lock tracking; on_event(held frozenset, ev). returns (errors, final held sets)"""
    errs = []
    def step(h, e):
        if e.kind == 'call' and e.name == LOCK:
            l = e.args[0]
            if l in h: errs.append(('relock', e, l))
            if on_event: on_event(h, e)
            return h | {l}
        if e.kind == 'call' and e.name == UNLOCK:
            l = e.args[0]
            if l not in h: errs.append(('unlock-not-held', e, l))
            if on_event: on_event(h, e)
            return h - {l}
        if on_event: on_event(h, e)
        return h
    end = automaton(events, frozenset(), step)
    return errs, end

def stores(events, base=None, off=None):
    for e in flat(events):
        if e.kind == 'st' and (base is None or e.args[0] is base) and (off is None or e.args[1] == off): yield e

def _slots(e):
    """loop slots: (slot, start value, symbol of later iterations, new values)"""
    for slot, ups in e.inst.upd.items():
        w = e.inst.wsym[slot]
        starts = {o for o, n in ups if o is not w}
        if len(starts) != 1: continue
        # a path forked in the first iteration may arrive after the slot was widened
        yield slot, starts.pop(), w, {n for o, n in ups}
def traversals(events, nextoff):
    """loops that walk a singly linked list through field `nextoff`:
    list of (loop event, start term, walking symbol)"""
    out = []
    for e in events:
        if e.kind != 'loop': continue
        for slot, start, w, news in _slots(e):
            if slot[0] != 'e': continue
            if all(n is not None and (n is w or n.op == 'sym' and n.args[0] == 'm' and n.args[1] in (w, start) and n.args[2] == nextoff) for n in news) and any(n is not w for n in news): out.append((e, start, w))
    return out
def slotvals(ctx, e, b):
    """{slot: (value at the start, value at the end)} of one loop iteration ending in back event b (slots that vary over the loop)"""
    cur, env = b.x
    out = {}
    for slot in e.inst.upd:
        k, key = slot
        if k == 'e': o, n = cur['env'].get(key), env.get(key)
        else:
            n = b.snap.mem.get(key); n = n[0] if n else None
            o = cur['mem'].get(key); o = o[0] if o else next((x for x in (n.syms if n is not None else ()) if x.args[0] == 'm' and (x.args[1], x.args[2]) == key), sym('m', key[0], key[1], None))
        if o is not None and n is not None: out[slot] = (o, n)
    return out
def counters(events):
    """loops slots that grow by exactly one per iteration: list of (loop event, slot, start term, symbol)"""
    out = []
    for e in events:
        if e.kind != 'loop': continue
        for slot, start, w, news in _slots(e):
            ok = bool(news)
            for n in news:
                d = [sub(n, o) for o in (w, start)] if n is not None else []
                if not any(isc(x) and cv(x) == 1 for x in d): ok = False
            if ok: out.append((e, slot, start, w))
    return out

# ------------------------------------------------------------- intrusive doubly linked lists
def decode(t):
    """(base, offset) of the memory cell a value was read from (also as a loop-carried value)"""
    if t.op != 'sym': return None
    if t.args[0] == 'm': return t.args[1], t.args[2]
    if t.args[0] == 'w' and len(t.args) == 5 and t.args[2] == 'm': return t.args[3], t.args[4]
    return None
def offset_of(t, base, off):
    """c when t is (some earlier value of the cell) + c: (symbol, c)"""
    if t.op == 'sym': return (t, 0) if decode(t) == (base, off) else None
    if t.op == 'lin':
        k, d = t.args
        if len(d) == 1 and d[0][1] == 1 and decode(d[0][0]) == (base, off): return d[0][0], k
    return None
def net(seg, base, off):
    """net constant change of a plain counter over a straight-line segment (None: not a constant change)"""
    tot = 0; cur = None; c = 0
    for e in seg:
        if e.kind == 'st' and e.args[0] is base and e.args[1] == off:
            r = offset_of(e.args[2], base, off)
            if r is None: return None
            if r[0] is not cur: tot += c; cur = r[0]
            c = r[1]
    return tot + c
def unlinked(events, P=0, N=8):
    """nodes l whose two neighbours are joined by stores of these events: [(node pointer, event)]"""
    out = []
    sts = [e for e in events if e.kind == 'st']
    for e in sts:
        B, o, V = e.args
        if o != N: continue
        dB, dV = decode(B), decode(V)
        if dB is None or dV is None: continue
        b, k = dB[0], dB[1] - P
        if dV[0] is not b or dV[1] != k + N: continue
        for f in sts:
            if f.args[0] is V and f.args[1] == P and f.args[2] is B: out.append((ptradd(b, k), e)); break
    return out
def linked(events, P=0, N=8):
    """nodes spliced into a list: [(node, predecessor, successor, last event)]"""
    out = []
    sts = [e for e in events if e.kind == 'st']
    at_ = {}
    for i, e in enumerate(sts): at_.setdefault((e.args[0], e.args[1]), []).append((i, e.args[2]))
    for i, e in enumerate(sts):
        B, o, V = e.args
        x = ptradd(B, o - N); xb, xo = ptr_split(x)
        for _, a in at_.get((xb, xo + P), ()):
            ab, ao = ptr_split(a); sb, so = ptr_split(V)
            if any(v is x for _, v in at_.get((ab, ao + N), ())) and any(v is x for _, v in at_.get((sb, so + P), ())):
                out.append((x, a, V, e)); break
    return out

# ------------------------------------------------------------- segments and counters
def segments(events):
    """straight-line event sequences: the top-level one (loops dropped) and every loop body, recursively"""
    out = [[e for e in events if e.kind != 'loop']]
    for e in events:
        if e.kind == 'loop':
            for g in e.inst.seglist: out += segments(g)
    return out
def delta(seg, base, off):
    """net constant change of the counter (base,off) over a straight-line segment; None when not a constant change"""
    last = None; tot = 0
    for e in seg:
        if e.kind == 'ld' and e.args[0] is base and e.args[1] == off: last = e.ret
        elif e.kind == 'st' and e.args[0] is base and e.args[1] == off:
            if last is None: return None
            d = sub(e.args[2], last)
            if not isc(d): return None
            tot += cv(d); last = e.args[2]
        elif e.kind == 'atomic' and e.args[0] is base and cv(e.args[1]) == off:
            if e.name in ('add', 'sub') and isc(e.args[2]): tot += cv(e.args[2]) * (1 if e.name == 'add' else -1)
            elif e.name != 'cas-fail': return None
    return tot
def both(F, t):
    """case split on t: yields (t is non-zero, facts)"""
    for v in (False, True):
        f = dict(F)
        try: assume(f, t_eq(t, ZERO), v)
        except Infeasible: continue
        yield (not v), f
def truth(F, t):
    return ev_cond(F, t_not(t_eq(t, ZERO)))
def is_call(e, *names): return e.kind == 'call' and e.name in names
def index_of(events, ev):
    for i, e in enumerate(events):
        if e is ev: return i
    return -1
def locals_of(t): return t.op == 'sym' and t.args[0] == 'alloca'
def ptrlin(p):
    """pointer as (root, integer term)"""
    k = ZERO
    while p.op == 'gep':
        k = add(k, C(p.args[1]))
        for v, n in (p.args[2] or ()): k = add(k, mulc(v, n))
        p = p.args[0]
    return p, k
def pdiff(p, q):
    """p - q as an integer term (None if unrelated)"""
    a, i = ptrlin(p); b, j = ptrlin(q)
    return sub(i, j) if a is b else None
