"""Event loops: how many there are, how they are prepared, started, addressed, ended and given back."""
from fw import *
import ir
from sync import fld
from tls import only, now, flat2
from pool import isheap
import absint
from bufs import peq
from terms import mulc

def loops(ctx): return both_parts(ctx, 1)
def life(ctx): return both_parts(ctx, 2)
def both_parts(ctx, part):
    SID, LIST, TMO, TICK, TID, CUR_, CTX, RETV = fld(ctx, 'kselector_s', 'sid', 'list', 'timeout', 'tick', 'thread_id', 'current', 'ctx', 'ret_val'); NL = ctx.p.enum('KGL_LIST_COUNT') if 'KGL_LIST_COUNT' in ctx.p.enums else 3
    NL = ir.macro_values(['KGL_LIST_COUNT', 'KGL_LIST_CONNECT', 'KGL_LIST_RW'], ['"kselector.h"'])
    CONN, RW, NL = NL['KGL_LIST_CONNECT'], NL['KGL_LIST_RW'], NL['KGL_LIST_COUNT']
    CB, CARG, CNEXT = fld(ctx, 'kgl_selector_manager_callback_s', 'call_back', 'arg', 'next')
    glob = lambda ev, but=(): [e for e in ev if e.kind == 'st' and e.args[0].op == 'g' and e.args[0] not in but]
    nexts = lambda ev: [e for e in ev if e.kind == 'icall' and str(e.name).endswith('kgl_selector_module.next')]
    bit = lambda f: ctx.p.bitfield('kselector_s', f)
    def bitset(t, f):
        o, n = bit(f); o = o % 8
        while t.op == 'or':
            if isc(t.args[1]) and cv(t.args[1]) >> o & 1: return True
            t = t.args[0]
        return isc(t) and bool(cv(t) >> o & 1)
    # ---- where the loops are kept
    p = ctx.run('get_selector_count')[0]; CNT = p.ret.args[1]
    lds = {e.args[0] for p in ctx.run('is_selector_manager_init', record_loads=True) for e in p.flat() if e.kind == 'ld' and e.args[0].op == 'g'}
    if len(lds) != 1: raise AnalysisError('the table of event loops was not recognised in is_selector_manager_init')
    TAB = lds.pop()
    ctx.ob('table-empty', 'at start', at_rest(ctx, TAB, 0, 8) is not False and at_rest(ctx, CNT) is not False, 'before the set-up there is no event loop')
    hs = {e.args[0] for p in ctx.e.run('selector_manager_init', Cfg(cut=8, havoc='none', opaque=('kselector_new', 'selector_manager_set_timeout', 'get_perfect_selector')), args=[C(4), C(0)]) for e in p.flat() if e.kind == 'st' and e.args[0].op == 'g' and e.args[0] not in (CNT, TAB) and p.const(e.args[2]) == 3}
    HASH = hs.pop() if len(hs) == 1 else None
    L = [sym('al', 'loop%d' % i) for i in range(64)]; table = sym('al', 'table'); none = sym('al', 'nobody')
    def seeded(n, extra=None):
        def f(E, st):
            m = st.wmem()
            m[(TAB, 0)] = (table if n else ZERO, 8, None); m[(CNT, 0)] = (C(n), 4, None); 
            if HASH is not None: m[(HASH, 0)] = (C(n - 1 if n else 0), 4, None)
            if n: assume(st.facts, t_eq(table, ZERO), False)
            for k in range(n): m[(table, 8 * k)] = (L[k], 8, None); assume(st.facts, t_eq(L[k], ZERO), False)
            if extra: extra(E, st, m)
        return f
    made = {}
    def new_(E, st, fr, i, args, work):
        k = st.user.get('made', 0); r = L[k] if k < 64 else none; st.user = dict(st.user, made=k + 1); assume(st.facts, t_eq(r, ZERO), False)
        fr.env[i['i']] = r; E.emit(st, 'call', 'kselector_new', args, r, i)
        m = st.wmem()
        for j in range(NL): m[(r, TMO + 4 * j)] = (C(-1), 4, None)       # whatever a new loop has is no one's setting
        return None
    def realloc_(E, st, fr, i, args, work):
        # the table grows: it may move, or growing fails
        s2 = st.clone(); f2 = s2.frames[-1]; f2.env[i['i']] = ZERO; f2.ii += 0
        fr.env[i['i']] = ONE; E.emit(st, 'call', 'grow-table', args, ONE, i); return None
    MODELS = {'kselector_new': new_}
    def run(fn, n, args=None, cut=70, extra=None, models=MODELS, opaque=(), **kw):
        S = ctx.e.run(fn, Cfg(cut=cut, havoc='none', models=models, opaque=opaque, pure=opaque, maxsteps=2000000, **kw), setup=seeded(n, extra), args=args)
        ctx.npaths += len(S); ctx.entries.add(fn); return S
    def pow2(v): 
        r = 1
        while r * 2 <= v and r < 64: r *= 2
        return r
    # ---- creation: as many loops as asked for, rounded down to a power of two
    fn = 'selector_manager_init'; size = sym('arg:size'); seen = set()
    ready = [e for e in glob([])]
    # the list of callbacks waiting for the loops: the global that selector_manager_on_ready adds to while there are none
    def waiting(fn_):
        out = set()
        for p in run(fn_, 0):
            for e in p.flat():
                if e.kind == 'st' and e.args[0].op == 'g' and isheap(e.args[2]): out.add(e.args[0])
        if len(out) != 1: raise AnalysisError('%s keeps its callbacks in no single list' % fn_)
        return out.pop()
    READY = waiting('selector_manager_on_ready'); INITS = waiting('selector_manager_thread_init')
    if part == 1:
        for tm in (0, 1):
            for p in run(fn, 0, args=[size, C(tm)], extra=lambda E, st, m: m.__setitem__((READY, 0), (ZERO, 8, None))):
                F = p.final.facts; g = lambda b, o, n=8: final(ctx, p, b, o, n)
                if p.kind == 'cut': ctx.ob('count', fn, False, 'the loops are created in a bounded number of steps', p); continue
                n = p.const(g(CNT, 0, 4)); lo, hi = absint.interval(F, size) if hasattr(absint, 'interval') else interval(F, size)
                t = g(TAB, 0)
                ok = n is not None and pow2(lo if lo != -absint.INF else -1) == n and pow2(hi if hi != absint.INF else 1 << 30) == n
                ctx.ob('count', fn, ok, 'the number of loops is the greatest power of two not above the number asked for (1 to 64), not %s for %s to %s' % (n, lo, hi), p)
                if not ok: continue
                seen.add(n)
                mk_ = only(p.flat(), 'kselector_new'); ml = only(p.flat(), 'malloc')
                ctx.ob('table', fn, isheap(t) and len(mk_) == n and (HASH is None or p.const(g(HASH, 0, 4)) == n - 1) and all(g(t, 8 * k) is L[k] for k in range(n)) and any(m.ret is t and p.const(m.args[0]) is not None and p.const(m.args[0]) >= 8 * n for m in ml), 'every place of the table holds its own loop', p)
                ctx.ob('prepared', fn, all(p.const(g(L[k], SID, 4)) == k and bitset(g(L[k], bit('utm')[0] // 8, 1), 'utm') == (k == 0) for k in range(n)), 'each loop has its number, exactly the first one keeps the time', p)
                ctx.ob('prepared-timeouts', fn, all((p.const(g(L[k], TMO + 4 * j, 4)) or -1) > 0 for k in range(n) for j in (CONN, RW)), 'every loop has time-outs', p)
                F2 = p.final.facts
                if isheap(t) and not nonnull(F2, t): continue          # no memory for the table: nothing is promised
                ctx.ob('flush-timer', fn, len(nexts(p.flat())) == tm, 'the periodic timer is added when asked for', p)
        ctx.ob('count-all', fn, seen == {1, 2, 4, 8, 16, 32, 64}, 'every number of loops is reachable: %s' % sorted(seen))
    def of(p, t, n):
        """t is one of the n loops of the table"""
        if t in L[:n]: return True
        if not (t.op == 'sym' and t.args[0] == 'm' and t.args[1].op == 'gep' and (t.args[1].args[0] is table or isheap(t.args[1].args[0])) and t.args[2] + t.args[1].args[1] == 0 and len(t.args[1].args[2]) == 1): return False
        (v, sc), = t.args[1].args[2]
        while v.op in ('zext', 'sext'): v = v.args[0]
        if v.op == 'and' and any(isc(a) and 0 <= cv(a) < n for a in v.args[:2]): return sc == 8
        lo, hi = interval(p.final.facts, v); return sc == 8 and 0 <= lo and hi < n
    # ---- what waits for the loops: posted once each when they are there, kept until then
    def chain(list_, k):
        def f(E, st, m):
            its = [sym('al', 'item%d' % j) for j in range(k)]
            m[(list_, 0)] = (its[0] if k else ZERO, 8, None)
            for j, it in enumerate(its):
                assume(st.facts, t_eq(it, ZERO), False)
                m[(it, CB)] = (sym('cb%d' % j), 8, None); m[(it, CARG)] = (sym('ca%d' % j), 8, None); m[(it, CNEXT)] = (its[j + 1] if j + 1 < k else ZERO, 8, None)
        return f
    if part == 1:
        for n, k in ((1, 0), (1, 3), (2, 2), (4, 3)):
            got = 0
            for p in run(fn, 0, args=[C(n), C(0)], extra=chain(READY, k)):
                t = final(ctx, p, TAB, 0); F = p.final.facts
                if not isheap(t): continue
                got += 1; nx = nexts(p.flat()); fr_ = only(p.flat(), 'free'); its = [sym('al', 'item%d' % j) for j in range(k)]
                ok = len(nx) == k and {(e.args[3], e.args[2]) for e in nx} == {(sym('ca%d' % j), sym('cb%d' % j)) for j in range(k)} and all(of(p, e.args[0], n) and isc(e.args[1]) and cv(e.args[1]) == 0 and p.const(e.args[4]) == 0 for e in nx)
                ctx.ob('ready-posted', fn, ok, 'each of %d callbacks waiting for the loops is posted once to a loop' % k, p)
                ctx.ob('ready-given-back', fn, sorted(str(e.args[0]) for e in fr_) == sorted(map(str, its)) and isnull(F, final(ctx, p, READY, 0)), 'the list of waiting callbacks is given back', p)
            if not got: raise AnalysisError('selector_manager_init never succeeds')
        for f_, lst in (('selector_manager_on_ready', READY), ('selector_manager_thread_init', INITS)):
            for n in (0, 1, 2):
                for p in run(f_, n, args=[sym('arg:cb'), sym('arg:arg')], extra=chain(lst, 1)):
                    nx = nexts(p.flat()); F = p.final.facts; h = final(ctx, p, lst, 0); old = sym('al', 'item0')
                    if n and f_.endswith('on_ready'):
                        ok = len(nx) == 1 and of(p, nx[0].args[0], n) and nx[0].args[2] is sym('arg:cb') and nx[0].args[3] is sym('arg:arg') and p.const(nx[0].args[4]) == 0 and h is old
                        ctx.ob('ready-now', f_, ok, 'with the loops there the callback is posted to one of them at once', p)
                    elif n: ctx.ob('thread-init-late', f_, not nx and h is old and p.const(p.ret) == -1, 'a per-thread callback comes too late once the loops are there', p)
                    elif isheap(h):
                        ok = not nx and final(ctx, p, h, CB) is sym('arg:cb') and final(ctx, p, h, CARG) is sym('arg:arg') and final(ctx, p, h, CNEXT) is old and (f_.endswith('on_ready') or p.const(p.ret) == 0)
                        ctx.ob('ready-kept', f_, ok, 'the callback is kept in front of those already waiting', p)
                    else: ctx.ob('ready-kept', f_, isnull(F, h), 'the callback is kept', p)
        # ---- a loop by its number
        for n in (1, 2, 4, 64):
            for k in sorted({0, n // 2, n - 1}):
                for p in run('get_selector_by_index', n, args=[C(k)]): ctx.ob('by-index', 'get_selector_by_index', p.ret is L[k], 'loop %d of %d is found by its number' % (k, n), p)
            for p in run('get_selector_by_index', n, args=[sym('arg:index')]): ctx.ob('by-index', 'get_selector_by_index', of(p, p.ret, n), 'any number stands for one of the %d loops' % n, p)
        # ---- any loop of the table
        for cfg in ('epoll', 'ndebug'):
            ctx.cfg = cfg
            for n in (1, 2, 4, 8):
                S = run('get_perfect_selector', n)
                for p in S: ctx.ob('any-loop', 'get_perfect_selector', p.kind != 'cut' and of(p, p.ret, n), 'a loop of the table is chosen', p)
                if not S: raise AnalysisError('get_perfect_selector has no path')
        ctx.cfg = 'epoll'
        # ---- time-outs
        fn = 'selector_manager_set_timeout'; c, r = sym('arg:c'), sym('arg:r')
        for n in (1, 2, 4):
            for p in run(fn, n, args=[c, r]):
                F = p.final.facts
                def is_val(t, s):
                    """t is s seconds in milliseconds"""
                    return t is mulc(s, 1000) or peq(t, mulc(s, 1000))
                def want(t, s):
                    b = truth(F, t_slt(ZERO, s))
                    if b is None: b2 = truth(F, t_slt(ZERO, mulc(s, 1000))); b = b2
                    return is_val(t, s) if b is True else p.const(t) == 60000 if b is False else None
                out = [e for e in p.flat() if e.kind == 'st' and not locals_of(e.args[0]) and not (e.args[0] in L[:n] and TMO <= e.args[1] < TMO + 4 * NL)]
                ctx.ob('timeout-bounds', fn, not out, 'setting time-outs touches the time-outs of the %d loops alone' % n + (': writes %s+%s at %s' % (show(out[0].args[0]), out[0].args[1], out[0].site) if out else ''), p)
                for k in range(n):
                    tc = final(ctx, p, L[k], TMO + 4 * CONN, 4); tr = final(ctx, p, L[k], TMO + 4 * RW, 4)
                    b = truth(F, t_slt(ZERO, c))
                    ctx.ob('timeout-rw', fn, want(tr, r) is True, 'loop %d times reads and writes out after the seconds asked for, or after a minute' % k, p)
                    ctx.ob('timeout-connect', fn, b is not None and want(tc, c if b else r) is True, 'loop %d times connecting out after the seconds asked for, or like reads and writes' % k, p)
        # ---- starting
        fn = 'selector_manager_start'; hook, th = sym('arg:hook'), sym('arg:thread')
        for n in (1, 2, 4):
            for p in run(fn, n, args=[hook, th], opaque=('kselector_start', 'kselector_thread'), models={}):
                F = p.final.facts; ev = p.flat(); st_ = only(ev, 'kselector_start'); here = only(ev, 'kselector_thread'); t_ = truth(F, t_eq(th, ZERO))
                ran = [e.args[0] for e in st_ + here]
                ok = sorted(map(str, ran)) == sorted(map(str, L[:n])) and t_ is not None and (not here if t_ is False else len(here) == 1 and here[0].args[0] is L[0] and index_of(ev, here[0]) > max([index_of(ev, e) for e in st_] or [-1]))
                ctx.ob('started', fn, ok, 'every loop is run once, the first one here when no thread is asked for', p)
                hk = [e for e in ev if e.kind == 'st' and e.args[0].op == 'g' and e.args[2] is hook]
                ctx.ob('hook', fn, len(hk) == 1 and all(index_of(ev, hk[0]) < index_of(ev, e) for e in st_ + here), 'the clock hook is in place before any loop runs', p)
        # ---- more loops later
        fn = 'selector_manager_grow'; table2 = sym('al', 'table2'); size = sym('arg:size')
        for n in (1, 2, 4):
            def new_from(E, st, fr, i, args, work):
                k = st.user.get('made', n)
                r = L[k] if k < 64 else none; st.user = dict(st.user, made=k + 1); fr.env[i['i']] = r; E.emit(st, 'call', 'kselector_new', args, r, i); assume(st.facts, t_eq(r, ZERO), False)
                m = st.wmem()
                for j in range(NL): m[(r, TMO + 4 * j)] = (C(60000), 4, None)
                return None
            def rea(E, st, fr, i, args, work):
                if st.user.get('nomem'): r = ZERO
                else:
                    r = table2; m = st.wmem()
                    for k in range(n): m[(table2, 8 * k)] = (L[k], 8, None)
                fr.env[i['i']] = r; E.emit(st, 'call', 'realloc', args, r, i); return None
            def old(E, st, m):
                for k in range(n):
                    for j in range(NL): m[(L[k], TMO + 4 * j)] = (sym('tmo%d' % j), 4, None)
            grown = set(); refused = 0
            for nomem in (False, True):
                def old2(E, st, m, nomem=nomem): old(E, st, m); st.user = dict(st.user, nomem=nomem); assume(st.facts, t_eq(table2, ZERO), False)
                for p in run(fn, n, args=[size], opaque=('kselector_start',), extra=old2, models={'kselector_new': new_from, 'realloc': rea}):
                    F = p.final.facts; ev = p.flat(); rv = p.const(p.ret); st_ = only(ev, 'kselector_start'); mk_ = only(ev, 'kselector_new'); g = lambda b, o, s_=8: final(ctx, p, b, o, s_)
                    if p.kind == 'cut': ctx.ob('grow', fn, False, 'the loops are added in a bounded number of steps', p); continue
                    if rv == 0:
                        refused += 1
                        ctx.ob('grow-refused', fn, not st_ and not mk_ and p.const(g(CNT, 0, 4)) == n and (HASH is None or p.const(g(HASH, 0, 4)) == n - 1) and g(TAB, 0) is table, 'nothing changes when the loops cannot be added', p); continue
                    lo, hi = interval(F, size); m = p.const(g(CNT, 0, 4))
                    ok = rv == 1 and n == 1 and m is not None and m > n and pow2(lo if lo != -absint.INF else -1) == m and pow2(hi if hi != absint.INF else 1 << 30) == m
                    if not ctx.ob('grow', fn, ok, 'only a single loop grows, to the greatest power of two not above the number asked for', p): continue
                    grown.add(m); rs = only(ev, 'realloc')
                    ctx.ob('grow-table', fn, (HASH is None or p.const(g(HASH, 0, 4)) == m - 1) and g(TAB, 0) is table2 and all(g(table2, 8 * k) is L[k] for k in range(m)) and len(rs) == 1 and (p.const(rs[0].args[1]) or 0) >= 8 * m, 'old and new loops have their places', p)
                    ctx.ob('grow-prepared', fn, all(p.const(g(L[k], SID, 4)) == k for k in range(1, m)) and all(g(L[k], TMO + 4 * j, 4) is sym('tmo%d' % j) for k in range(1, m) for j in (CONN, RW)), 'a new loop has its number and the time-outs of the first one', p)
                    first = {}
                    for e in st_: first.setdefault(e.args[0], e)
                    ok = len(st_) == m - 1 and set(first) == set(L[1:m])
                    for k in range(1, m):
                        e = first.get(L[k])
                        if e is None: continue
                        ok = ok and all(at(ctx, e, L[k], TMO + 4 * j, 4) is sym('tmo%d' % j) for j in (CONN, RW)) and all(index_of(ev, x) < index_of(ev, e) for x in ev if x.kind == 'st' and x.args[0] is L[k] and x.args[1] in (SID, TMO + 4 * CONN, TMO + 4 * RW))
                    ctx.ob('grow-started', fn, ok, 'each new loop is started once, after it was prepared', p)
                    own = [e for e in ev if e.kind == 'call' and e.name == 'pthread_self']
                    ctx.ob('grow-thread', fn, any(same(F, e.ret, g(L[0], TID)) or truth(F, t_eq(e.ret, initial(L[0], TID))) is True for e in own), 'only the thread of the first loop may add more', p)
            if n == 1: ctx.ob('grow-all', fn, grown == {2, 4, 8, 16, 32, 64}, 'every number of loops can be grown to: %s' % sorted(grown))
            if not refused: raise AnalysisError('selector_manager_grow never refuses')
    if part == 2:
        # ---- one loop: made whole, given back whole
        for cfg in ('epoll', 'ndebug'):
            ctx.cfg = cfg; tick = sym('arg:tick'); made = 0; fn = 'kselector_new'
            for p in ctx.e.run(fn, Cfg(cut=8, havoc='none'), args=[tick]):
                F = p.final.facts; s_ = p.ret
                ini = [e for e in p.flat() if e.kind == 'icall' and str(e.name).endswith('kgl_selector_module.init')]
                if p.kind == 'cut' or not isheap(s_): ctx.ob('new', fn, False, 'a loop is made', p); continue
                made += 1; g = lambda o, n=8: final(ctx, p, s_, o, n)
                ctx.ob('new-lists', fn, all(g(LIST + 16 * j) is ptradd(s_, LIST + 16 * j) and g(LIST + 16 * j + 8) is ptradd(s_, LIST + 16 * j) for j in range(NL)), 'a new loop waits for nothing', p)
                ctx.ob('new-timeouts', fn, all((p.const(g(TMO + 4 * j, 4)) or 0) > 0 for j in range(NL)), 'a new loop has time-outs', p)
                T = ptradd(s_, TICK); h = g(TICK); q = g(TICK + 8); has = truth(F, t_eq(tick, ZERO))
                ctx.ob('new-ticks', fn, (h is T and q is T) if has is not False else (ptr_split(h) == ptr_split(tick) and ptr_split(q) == ptr_split(tick) and final(ctx, p, tick, 0) is T and final(ctx, p, tick, 8) is T), 'a new loop has the tick given to it, or none', p)
                ctx.ob('new-blank', fn, all(isnull(F, g(o)) for o in (CUR_, TID)) and isnull(F, g(fld(ctx, 'kselector_s', 'block')[0])) and p.const(g(SID, 4)) == -1, 'a new loop has no thread, no number, no task and no timer', p)
                late = [e for e in p.flat() if e.kind == 'st' and e.args[0] is s_ and ini and index_of(p.flat(), e) > index_of(p.flat(), ini[0]) and e.args[1] == CTX]
                ctx.ob('new-module', fn, len(ini) == 1 and ini[0].args[0] is s_ and not late, 'the event mechanism of a new loop is set up once', p)
            if not made: raise AnalysisError('kselector_new makes nothing')
            fn = 'kselector_destroy'
            for p in ctx.run(fn):
                s_ = ctx.args[0]; ev = p.flat(); d = [e for e in ev if e.kind == 'icall' and str(e.name).endswith('kgl_selector_module.destroy')]; f_ = only(ev, 'free')
                ctx.ob('destroyed', fn, len(d) == 1 and d[0].args[0] is s_ and len(f_) == 1 and f_[0].args[0] is s_ and index_of(ev, d[0]) < index_of(ev, f_[0]), 'the event mechanism is taken down before the memory of the loop is given back, each once', p)
        ctx.cfg = 'epoll'
        # the event mechanism: everything set up is taken down
        S = ctx.run('epoll_selector_init'); s_ = ctx.args[0]; setup_ = None
        for p in S:
            c_ = final(ctx, p, s_, CTX)
            if not isheap(c_): ctx.ob('mechanism', 'epoll_selector_init', False, 'the mechanism belongs to the loop', p); continue
            F = p.final.facts; fds = set(); rest = set()
            for e in p.flat():
                if e.kind != 'call': continue
                if e.name in ('epoll_create1', 'epoll_create', 'eventfd', 'timerfd_create', 'signalfd', 'socket', 'dup'):
                    at_ = [x.args[1] for x in p.flat() if x.kind == 'st' and x.args[0] is c_ and x.args[2] is e.ret]
                    at_ = [o for o in set(at_) if final(ctx, p, c_, o, 4) is e.ret]
                    ctx.ob('mechanism', 'epoll_selector_init', len(at_) == 1, '%s is kept in the mechanism' % e.name, p); fds |= set(at_)
                elif e.name == 'pthread_mutex_init': rest.add(('mutex', pdiff(e.args[0], c_)))
                elif e.name == 'syscall' and p.const(e.args[0]) == 206: rest.add(('aio', pdiff(e.args[2], c_)))
            k = (frozenset(fds), frozenset(rest))
            if setup_ is None: setup_ = k
            ctx.ob('mechanism', 'epoll_selector_init', k == setup_ and len(fds) >= 1, 'the mechanism is the same on every path', p)
        S = ctx.run('epoll_selector_destroy'); s_ = ctx.args[0]; base = initial(s_, CTX)
        for p in S:
            ev = p.flat(); cl = []; rest = []
            for e in only(ev, 'close'): d = decode(e.args[0]); cl.append(d[1] if d and d[0] is base else None)
            for e in only(ev, 'pthread_mutex_destroy'): rest.append(('mutex', pdiff(e.args[0], base)))
            for e in only(ev, 'syscall'):
                d = decode(e.args[1]) if p.const(e.args[0]) == 207 else None; rest.append(('aio', d[1] if d and d[0] is base else None))
            ctx.ob('mechanism-closed', 'epoll_selector_destroy', sorted(map(str, cl)) == sorted(map(str, setup_[0])), 'every descriptor set up for a loop is closed once', p)
            ctx.ob('mechanism-freed', 'epoll_selector_destroy', sorted(map(str, rest)) == sorted(map(str, setup_[1])), 'the lock and the file context set up for a loop are taken down once', p)
            fr_ = only(ev, 'free'); ctx.ob('mechanism-freed', 'epoll_selector_destroy', len(fr_) == 1 and fr_[0].args[0] is base and index_of(ev, fr_[0]) == max(index_of(ev, e) for e in ev if e.kind in ('call', 'icall', 'ld', 'st')), 'the memory of the mechanism is given back last', p)
        # ---- a thread takes a loop, and leaves it
        TLSK = mk('g', 'kgl_selector_key'); its = [sym('al', 'item%d' % j) for j in range(3)]
        for fn, flag in (('kselector_init', 0), ('kselector_exit', 1)):
            for k in (0, 1, 3):
                def su(E, st, k=k): chain(INITS, k)(E, st, st.wmem())
                sel = sym('arg:selector')
                for p in ctx.e.run(fn, Cfg(cut=8, havoc='none'), setup=su, args=[sel]):
                    ev = p.flat(); cb_ = [e for e in ev if e.kind == 'icall']; F = p.final.facts
                    ok = p.kind != 'cut' and len(cb_) == k and {e.x for e in cb_} == {sym('cb%d' % j) for j in range(k)} and all(e.args[1] is sym('ca%s' % str(e.x.args[0])[2:]) and p.const(e.args[2]) == flag for e in cb_)
                    ctx.ob('thread-calls', fn, ok, 'each per-thread callback is called once, told that the thread %s' % ('begins', 'ends')[flag], p)
                    ctx.ob('thread-calls', fn, not [e for e in ev if e.kind == 'st' and (e.args[0] in its or e.args[0].op == 'g' and e.args[0].args[0] == INITS.args[0])] and not [e for e in only(ev, 'free') if ptr_root(e.args[0]) in its], 'the callbacks stay registered for the threads to come', p)
                    ts = [e for e in ev if is_call(e, 'pthread_setspecific') and decode(e.args[0]) == (TLSK, 0)]
                    ids = [e for e in ev if e.kind == 'st' and e.args[0] is sel and e.args[1] == TID]
                    if flag == 0:
                        ok = len(ts) == 1 and ts[0].args[1] is sel and len(ids) == 1 and any(is_call(e, 'pthread_self') and e.ret is ids[0].args[2] for e in ev) and all(index_of(ev, x) < index_of(ev, e) for x in ts + ids for e in cb_)
                        ctx.ob('thread-owns', fn, ok, 'the thread owns the loop before any callback runs', p)
                    else:
                        rest = [e for e in ev if e.kind in ('call', 'icall') and not is_call(e, 'klog')]
                        ok = len(ts) == 1 and isnull(F, ts[0].args[1]) and len(ids) == 1 and isnull(F, ids[0].args[2]) and all(index_of(ev, x) > index_of(ev, e) for x in ts for e in cb_) and all(index_of(ev, ids[0]) > index_of(ev, e) for e in rest)
                        ctx.ob('thread-leaves', fn, ok, 'the thread gives up the loop after every callback has run', p)
        # ---- the main task of a thread
        fn = 'kfiber_thread_init'; FKEY = None; cases = set()
        BS, = fld(ctx, 'kgl_base_selectable_s', 'selector')
        for ex, p in [(x, p) for x in (True, False) for p in ctx.run(fn, args=[ZERO, ZERO, C(int(x))])]:
            ev = p.flat(); F = p.final.facts; fr_ = only(ev, 'free')
            keys = [e for e in only(ev, 'pthread_getspecific') if decode(e.args[0]) != (TLSK, 0)]; sets = [e for e in only(ev, 'pthread_setspecific')]
            me = keys[0].ret if keys else None; there = me is not None and truth(F, t_eq(me, ZERO)) is False
            tls = [e.ret for e in only(ev, 'pthread_getspecific') if decode(e.args[0]) == (TLSK, 0)]
            if ex is True:
                cases.add(('exit', there))
                if there: ctx.ob('main-task-freed', fn, len(fr_) == 1 and fr_[0].args[0] is me and len(sets) == 1 and sets[0].args[0] is keys[0].args[0] and isnull(F, sets[0].args[1]), 'the main task of an ending thread is given back once and forgotten', p)
                else: ctx.ob('main-task-freed', fn, not fr_ and all(isnull(F, e.args[1]) for e in sets), 'a thread without main task gives nothing back', p)
            elif there:
                cases.add(('init', True)); ctx.ob('main-task', fn, not fr_ and any(final(ctx, p, me, BS) is t for t in tls), 'the main task follows the loop of its thread', p)
            else:
                n_ = [e.args[1] for e in sets if e.args[0] is keys[0].args[0]] if keys else []
                cases.add(('init', False))
                ok = len(n_) == 1 and isheap(n_[0]) and any(final(ctx, p, n_[0], BS) is t and final(ctx, p, t, CUR_) is n_[0] for t in tls) and not fr_
                ctx.ob('main-task', fn, ok, 'a beginning thread gets a main task of its own, which runs', p)
        ctx.ob('main-task-all', fn, cases == {('exit', True), ('exit', False), ('init', True), ('init', False)}, 'a thread with and without main task begins and ends: %s' % sorted(cases))
        # ---- a loop run by its own thread: forever one turn after the other, each told what the last one found
        for cfg in ('epoll', 'ndebug'):
            ctx.cfg = cfg; n_ = 0; fn = 'kselector_thread'
            OPQ = ('kselector_init', 'kselector_exit', 'kselector_check_timeout')
            for p in ctx.e.run(fn, Cfg(cut=4, havoc='none', opaque=OPQ)):
                ev = p.flat(); n_ += 1; sel = sym('arg:param')
                sl = [e for e in ev if e.kind == 'icall' and str(e.name).endswith('kgl_selector_module.select')]; ck = only(ev, 'kselector_check_timeout'); it = only(ev, 'kselector_init')
                ok = len(it) == 1 and len(sl) >= 3 and len(sl) <= len(ck) <= len(sl) + 1 and index_of(ev, it[0]) < index_of(ev, ck[0])
                for j, e in enumerate(sl):
                    if not ok: break
                    ok = j < len(ck) and same(p.final.facts, e.args[0], it[0].args[0]) and ck[j].args[0] is it[0].args[0] and e.args[1] is ck[j].ret and index_of(ev, ck[j]) < index_of(ev, e) and (j == 0 or ck[j].args[1] is sl[j - 1].ret)
                ctx.ob('turns', fn, ok, 'a loop takes one turn after the other and tells each what the one before found', p)
            if not n_: raise AnalysisError('kselector_thread has no path')
        ctx.cfg = 'epoll'
        # ---- one task on a loop of its own
        CLOSED, MAIN, UTM = (bit(f)[0] for f in ('closed', 'aysnc_main', 'utm'))
        for cfg in ('epoll', 'ndebug'):
            ctx.cfg = cfg; fn = 'kasync_main'; OPQ = ('kasync_init', 'kselector_check_timeout', 'kselector_new', 'kselector_init', 'kselector_exit', 'kselector_destroy', 'kfiber_create2'); ended = 0
            for p in ctx.e.run(fn, Cfg(cut=3, opaque=OPQ, pure=tuple(n for n in OPQ if n != 'kselector_check_timeout'), record_loads=True)):
                ev = p.flat(); F = p.final.facts; o_ = {n: only(ev, n) for n in OPQ}
                sl = [e for e in ev if e.kind == 'icall' and str(e.name).endswith('kgl_selector_module.select')]
                if not o_['kselector_new'] or not o_['kfiber_create2']: ctx.ob('main', fn, False, 'a loop and a task are made', p); continue
                sel = o_['kselector_new'][0].ret; cr = o_['kfiber_create2'][0]; seq = [o_['kasync_init'], o_['kselector_new'], o_['kselector_init'], o_['kfiber_create2']]
                ok = all(len(x) == 1 for x in seq) and all(index_of(ev, a[0]) < index_of(ev, b[0]) for a, b in zip(seq, seq[1:])) and o_['kselector_init'][0].args[0] is sel and cr.args[0] is sel and all(index_of(ev, cr) < index_of(ev, e) for e in sl)
                ctx.ob('main-begins', fn, ok, 'the library, the loop and the task are set up once, in this order, before the first turn', p)
                blk = cr.args[2]; main_, arg_, argc_ = (sym('arg:%s' % n) for n in ('main', 'arg', 'argc'))
                kept = {o: at(ctx, cr, blk, o) for o in range(0, absint.ALLOCSZ.get(blk) or 16, 8)}
                ctx.ob('main-given', fn, cr.args[3] is argc_ and sorted(map(str, kept.values())) == sorted(map(str, (main_, arg_))), 'the task is given the function, its argument and its number', p)
                task, moff, aoff = cr.args[1], [o for o, v in kept.items() if v is main_], [o for o, v in kept.items() if v is arg_]
                ck = o_['kselector_check_timeout']; ok = all(e.args[0] is sel for e in sl + ck)
                for j, e in enumerate(sl):
                    later = [c_ for c_ in ck if index_of(ev, c_) > index_of(ev, e)]
                    if later: ok = ok and later[0].args[1] is e.ret and (j + 1 >= len(sl) or sl[j + 1].args[1] is later[0].ret)
                ctx.ob('main-turns', fn, ok, 'the loop takes one turn after the other', p)
                if sl: ctx.ob('main-clock', fn, now(sl[0].snap, ctx, sel, 'kselector_s', 'utm') is True, 'the only loop of the program keeps the clock', p)
                if p.kind == 'cut': continue
                ended += 1; x, d = o_['kselector_exit'], o_['kselector_destroy']
                ok = len(x) == 1 and len(d) == 1 and x[0].args[0] is sel and d[0].args[0] is sel and all(index_of(ev, e) < index_of(ev, x[0]) for e in sl + ck) and index_of(ev, x[0]) < index_of(ev, d[0])
                ctx.ob('main-ends', fn, ok, 'the loop is left and given back once, after its last turn', p)
                lds = [e for e in ev if e.kind == 'ld' and e.args[0] is sel and e.args[1] == RETV and e.ret is p.ret]
                ctx.ob('main-result', fn, len(lds) >= 1 and all(not d or index_of(ev, e) < index_of(ev, d[0]) for e in lds) and (not ck or index_of(ev, lds[-1]) > index_of(ev, ck[-1])), 'the result is read after the last turn and before the loop is given back', p)
            if not ended: raise AnalysisError('kasync_main never ends')
            # a loop takes turns until it is closed, and no longer
            bo, _n = bit('closed'); lp = sym('al', 'loop')
            for k in range(4):
                def new_(E, st, fr, i, args, work):
                    fr.env[i['i']] = lp; assume(st.facts, t_eq(lp, ZERO), False)
                    for o in range(bo // 8 - bo // 8 % 4, bo // 8 - bo // 8 % 4 + 4): st.wmem()[(lp, o)] = (ZERO, 1, None)
                    E.emit(st, 'call', 'kselector_new', args, lp, i)
                def chk_(E, st, fr, i, args, work):
                    n = st.user.get('turns', 0) + 1; st.user['turns'] = n; r = sym('wait%d' % n); fr.env[i['i']] = r
                    st.wmem()[(lp, bo // 8)] = (C(3 | (n > k) << bo % 8), 1, None); E.emit(st, 'call', 'kselector_check_timeout', args, r, i)
                for p in ctx.e.run(fn, Cfg(cut=8, havoc='none', opaque=OPQ, pure=OPQ, models={'kselector_new': new_, 'kselector_check_timeout': chk_})):
                    ctx.npaths += 1; ev = p.flat(); sl = [e for e in ev if e.kind == 'icall' and str(e.name).endswith('kgl_selector_module.select')]; ck = only(ev, 'kselector_check_timeout')
                    ctx.ob('main-closed', fn, p.kind != 'cut' and len(sl) == len(ck) == k + 1 and len(only(ev, 'kselector_destroy')) == 1, 'a loop closed in turn %d takes no other, one not closed goes on' % (k + 1), p)
            ob_ = sym('arg:blk')
            S = ctx.e.run(task.args[0] if task.op == 'f' else 'kasync_fiber_main', Cfg(havoc='none', record_loads=True), args=[ob_, sym('arg:argc')])
            for p in S:
                ev = p.flat(); F = p.final.facts; ic = [e for e in ev if e.kind == 'icall']; tl = [e for e in only(ev, 'pthread_getspecific') if decode(e.args[0]) == (TLSK, 0)]
                ok = len(ic) == 1 and moff and aoff and decode(ic[0].x) == (ob_, moff[0]) and decode(ic[0].args[0]) == (ob_, aoff[0]) and ic[0].args[1] is sym('arg:argc')
                ctx.ob('main-runs', fn, bool(ok), 'the function is called once with its argument and number', p)
                sts = [e for e in ev if e.kind == 'st' and tl and e.args[0] is tl[-1].ret]
                rv = [e for e in sts if e.args[1] == RETV]; cl = [e for e in sts if e.args[1] == CLOSED // 8]
                ctx.ob('main-closes', fn, len(rv) == 1 and ic and rv[0].args[2] is ic[0].ret and len(cl) >= 1 and bitset(cl[-1].args[2], 'closed') and all(index_of(ev, ic[0]) < index_of(ev, e) for e in rv + cl), 'when the function has returned, its result is kept and the loop ends', p)
        ctx.cfg = 'epoll'
        # ---- the library is set up once
        fn = 'kasync_init'; NAME = mk('g', 'kgl_selector_module'); done = fresh = 0
        OPQ = ('ksocket_startup', 'kselector_update_time', 'selector_module_create', 'kthread_init', 'kfiber_init', 'kgl_addr_init', 'kssl_init2')
        for p in ctx.run(fn, opaque=OPQ):
            ev = p.flat(); F = p.final.facts; acts = [e for e in ev if e.kind in ('call', 'st', 'icall')]
            if truth(F, t_eq(initial(NAME, 0), ZERO)) is False: done += 1; ctx.ob('init-once', fn, not acts, 'setting the library up again changes nothing', p)
            else:
                fresh += 1
                ctx.ob('init', fn, any(is_call(e, 'signal') and p.const(e.args[0]) == 13 and p.const(e.args[1]) == 1 for e in ev), 'writing to a closed connection does not end the program', p)
                ctx.ob('init', fn, all(len(only(ev, n)) == 1 or n == 'kselector_update_time' and only(ev, n) for n in OPQ) and any(is_call(e, 'pthread_key_create') and e.args[0] is TLSK for e in ev), 'every part of the library is set up once', p)
        ctx.ob('init-all', fn, done > 0 and fresh > 0, 'the library is set up, once')
        for p in ctx.run('kfiber_init', opaque=('selector_manager_thread_init',)):
            t = only(p.flat(), 'selector_manager_thread_init')
            ctx.ob('init-tasks', 'kfiber_init', len(t) == 1 and t[0].args[0] is mk('f', 'kfiber_thread_init'), 'every thread of a loop sets up its main task', p)
        # ---- a loop run turn by turn by the caller
        for n in (1, 4):
            for k in range(n):
                for fn, want in (('kselector_step_init', 'kselector_init'), ('kselector_step_exit', 'kselector_exit')):
                    for p in run(fn, n, args=[C(k)], opaque=(want, 'kgl_get_tls_selector'), models={}):
                        e = only(p.flat(), want); ctx.ob('step', fn, len(e) == 1 and e[0].args[0] is L[k], 'the loop with this number is meant', p)
                for p in run('kselector_step', n, args=[C(k)], opaque=('kselector_check_timeout', 'kgl_get_tls_selector'), models={}):
                    ck = only(p.flat(), 'kselector_check_timeout'); sl = [e for e in p.flat() if e.kind == 'icall']
                    ctx.ob('step', 'kselector_step', len(ck) == 1 and len(sl) == 1 and ck[0].args[0] is L[k] and sl[0].args[0] is L[k] and sl[0].args[1] is ck[0].ret and p.ret is sl[0].ret and str(sl[0].name).endswith('.select'), 'one turn of the loop with this number, after its due timers', p)
    return locals()
