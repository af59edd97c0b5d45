"""Thread-level primitives: kcond, spin read/write locks, atomics, thread pool, bounded worker queue."""
from fw import *
from sync import locked_discipline, fld, calls, SUSPEND

CWAIT = ('pthread_cond_wait', 'pthread_cond_timedwait'); SIG = 'pthread_cond_signal'; BC = 'pthread_cond_broadcast'

# ------------------------------------------------------------------ thread event
def kcond(ctx):
    T = 'kcond'
    EVO, AR, MX, CO = fld(ctx, T, 'ev', 'auto_reset', 'mutex', 'cond')
    kw = dict(record_loads=True)
    def disc(S, fn, m): locked_discipline(ctx, 'event-locked', S, fn, m, MX, {EVO})
    # set
    S = ctx.run('kcond_notice', **kw); m = ctx.args[0]; L = ptradd(m, MX); fn = 'kcond_notice'
    disc(S, fn, m)
    seen = set()
    for s in S:
        us = [e for e in s.flat() if is_call(e, UNLOCK) and e.args[0] is L]
        if not ctx.ob('event-set-atomic', fn, len(us) == 1, 'one critical section sets the event and wakes', s): continue
        u = us[0]
        ctx.ob('event-set', fn, nonnull(u.snap.facts, at(ctx, u, m, EVO, 1)), 'the event must be set before the lock is released', s)
        sg = [e for e in s.flat() if is_call(e, SIG, BC) and e.args[0] is ptradd(m, CO)]
        inside = all(index_of(s.flat(), e) < index_of(s.flat(), u) for e in sg)
        for auto, F in both(u.snap.facts, at(ctx, u, m, AR, 1)):
            seen.add(auto)
            ctx.ob('event-wake', fn, bool(sg) and inside and (auto or any(e.name == BC for e in sg)), 'setting the event must wake %s, before the event can be destroyed by the woken thread' % ('a waiter' if auto else 'every waiter'), s)
    ctx.ob('event-cases', fn, seen == {True, False}, 'both reset modes must be handled')
    # wait
    for fn in ('kcond_wait', 'kcond_try_wait'):
        S = ctx.run(fn, **kw); m = ctx.args[0]; L = ptradd(m, MX)
        disc(S, fn, m)
        seen = set()
        for s in S:
            ev = s.flat()
            us = [e for e in ev if is_call(e, UNLOCK) and e.args[0] is L]
            if not ctx.ob('event-wait-atomic', fn, len(us) == 1, 'the event is tested and consumed in one critical section', s): continue
            u = us[0]
            top = [e for e in s.events if e.kind != 'loop']
            lds = [i for i, e in enumerate(top) if e.kind == 'ld' and e.args[0] is m and e.args[1] == EVO]
            waits = [i for i, e in enumerate(top) if is_call(e, *CWAIT)]
            if fn == 'kcond_try_wait':
                r = truth(s.final.facts, s.ret)
                ctx.ob('event-try-nowait', fn, not any(is_call(e, *CWAIT) for e in ev), 'a try must not block', s)
                if r is None: ctx.ob('event-try-result', fn, False, 'the result does not say whether the event was set', s); continue
                if r is False:
                    seen.add('no')
                    ctx.ob('event-try-result', fn, isnull(s.final.facts, initial(m, EVO)) and same(u.snap.facts, at(ctx, u, m, EVO, 1), initial(m, EVO)), 'a failed try requires an unset event and changes nothing', s)
                    continue
            ok = bool(lds) and (not waits or max(waits) < max(lds)) and nonnull(s.final.facts, top[max(lds)].ret) if lds else False
            ctx.ob('event-observed', fn, ok, 'the call may only return after the event was seen set, re-checked after every wake-up', s)
            v = at(ctx, u, m, EVO, 1)
            for auto, F in both(u.snap.facts, at(ctx, u, m, AR, 1)):
                seen.add(auto)
                ctx.ob('event-reset', fn, isnull(F, v) if auto else nonnull(F, v), 'an auto-reset event is consumed by exactly one waiter, a manual-reset event stays set', s)
            for e in ev:
                if is_call(e, *CWAIT): ctx.ob('event-wait-on', fn, e.args[0] is ptradd(m, CO) and e.args[1] is L, 'must wait on the event\'s own condition and lock', s)
        ctx.ob('event-cases', fn, {True, False} <= seen, 'both reset modes must be handled')
    S = ctx.run('kcond_reset', **kw); m = ctx.args[0]; disc(S, 'kcond_reset', m)
    for s in S: ctx.ob('event-clear', 'kcond_reset', isnull(s.final.facts, final(ctx, s, m, EVO, 1)), 'reset must clear the event', s)
    S = ctx.run('kcond_init', **kw)
    a = ctx.args[0]
    for s in S:
        r = s.ret
        ar = final(ctx, s, r, AR, 1)
        ok = isnull(s.final.facts, final(ctx, s, r, EVO, 1)) and any(is_call(e, 'pthread_mutex_init') and e.args[0] is ptradd(r, MX) for e in s.flat()) and any(is_call(e, 'pthread_cond_init') and e.args[0] is ptradd(r, CO) for e in s.flat())
        for v, F in both(s.final.facts, a): ok = ok and truth(F, ar) is v
        ctx.ob('event-new', 'kcond_init', ok, 'a new event is unset, remembers its reset mode and has its lock and condition initialised', s)
    S = ctx.run('kcond_destroy', **kw); m = ctx.args[0]
    for s in S:
        fr = [e for e in s.flat() if is_call(e, *FREE)]
        once = lambda n, o: [e.args[0] for e in s.flat() if is_call(e, n)] == [ptradd(m, o)]
        ctx.ob('event-destroy', 'kcond_destroy', len(fr) == 1 and fr[0].args[0] is m and once('pthread_mutex_destroy', MX) and once('pthread_cond_destroy', CO) and not any(e.kind == 'uaf' for e in s.flat()), 'the event is freed exactly once and not touched afterwards', s)

# ------------------------------------------------------------------ spin locks, atomics
ATOM = {  # name: (kind, size, result)  result: 'new' | 'old' | 'flag' | None
 'katom_inc': ('add', 4, 1, 'new'), 'katom_dec': ('add', 4, -1, 'new'), 'katom_inc64': ('add', 8, 1, 'new'), 'katom_dec64': ('add', 8, -1, 'new'),
 'katom_inc16': ('add', 2, 1, 'new'), 'katom_dec16': ('add', 2, -1, 'new'), 'katom_add': ('add', 4, 'arg', 'old'), 'katom_add64': ('add', 8, 'arg', 'old'),
 'katom_sub': ('add', 4, '-arg', 'old'), 'katom_sub64': ('add', 8, '-arg', 'old'), 'katom_set': ('xchg', 4, 'arg', 'old'), 'katom_set64': ('xchg', 8, 'arg', 'old'), 'katom_set16': ('xchg', 2, 'arg', 'old'),
 'katom_get': ('read', 4, None, 'old'), 'katom_get64': ('read', 8, None, 'old'),
 'katom_cas': ('cas', 4, None, 'flag'), 'katom_cas16': ('cas', 2, None, 'flag'), 'katom_cas64': ('cas', 8, None, 'flag')}
def strip(t):
    while t.op in ('zext', 'sext', 'trunc') : t = t.args[0]
    return t
def eqv(a, b):
    if a is b or sub(a, b) is ZERO: return True
    return strip(a) is strip(b)

def spin(ctx):
    kw = dict(concurrent=True, record_loads=True)
    for fn, (kind, sz, d, res) in ATOM.items():
        S = ctx.run(fn, **kw); A = ctx.args; p = A[0]
        kinds = set()
        for s in S:
            at_ = [e for e in s.flat() if e.kind == 'atomic']
            plain = [e for e in s.flat() if e.kind in ('st',) and ptr_split(p)[0] is e.args[0]]
            ok = len(at_) == 1 and not plain and at_[0].args[0] is p and cv(at_[0].args[1]) == 0 and cv(at_[0].args[-1]) == sz
            if not ctx.ob('atomic-single', fn, ok, 'must be exactly one atomic access of %d bytes to the variable' % sz, s): continue
            e = at_[0]; old = e.ret
            if kind in ('add', 'read'):
                dv = e.args[2]
                if e.name == 'sub': dv = mulc(dv, -1)
                ok = e.name in ('add', 'sub')
                want = ZERO if kind == 'read' else C(d) if isinstance(d, int) else A[1] if d == 'arg' else mulc(A[1], -1)
                if kind == 'read' and e.kind == 'atomic' and e.name == 'cas': ok = e.args[2] is e.args[3]
                ok = ok and (eqv(dv, want) or strip(dv) is strip(want))
                rv = old if res == 'old' else add(old, dv)
                ok = ok and eqv(s.ret, rv)
                ctx.ob('atomic-op', fn, ok, 'wrong operand or result (%s value expected)' % res, s)
            elif kind == 'xchg':
                ctx.ob('atomic-op', fn, e.name == 'xchg' and eqv(e.args[2], A[1]) and eqv(s.ret, old), 'must exchange in the new value and return the old one', s)
            else:
                kinds.add(e.name)
                r = truth(s.final.facts, s.ret)
                ctx.ob('atomic-op', fn, e.name in ('cas', 'cas-fail') and eqv(e.args[2], A[1]) and eqv(e.args[3], A[2]) and r is (e.name == 'cas'), 'must swap exactly when the expected value is found, and say so', s)
        if kind == 'cas': ctx.ob('atomic-op', fn, kinds == {'cas', 'cas-fail'}, 'both outcomes must exist')
    # ---- spinning reader/writer lock
    def changes(s, base, off):
        """atomic or plain changes of the word on a path: list of (kind, event)"""
        out = []
        for e in s.flat():
            if e.kind == 'atomic' and e.args[0] is base and cv(e.args[1]) == off and e.name != 'cas-fail': out.append(e)
            if e.kind == 'st' and e.args[0] is base and e.args[1] == off: out.append(e)
        return out
    def in_loop(s, ev): return not any(e is ev for e in s.events)
    def rlock(rule, fn, S, m, off, pre=lambda s, e: True):
        for s in S:
            c = changes(s, m, off)
            ok = len(c) == 1 and c[0].kind == 'atomic' and c[0].name == 'cas' and not in_loop(s, c[0])
            if ok:
                e = c[0]
                ok = sub(e.args[3], e.args[2]) is ONE and lt(s.final.facts, e.args[2], ZERO) is False
            ctx.ob(rule, fn, ok, 'a reader enters only by one atomic step from a state without writer (n>=0) to n+1', s)
    def wlock(rule, fn, S, m, off):
        for s in S:
            c = changes(s, m, off)
            ok = len(c) == 1 and c[0].kind == 'atomic' and c[0].name == 'cas' and not in_loop(s, c[0]) and isc(c[0].args[2]) and cv(c[0].args[2]) == 0 and isc(c[0].args[3]) and cv(c[0].args[3]) == -1
            ctx.ob(rule, fn, ok, 'a writer enters only by one atomic step from the free state to the write-locked state', s)
    def addd(rule, fn, S, m, off, d):
        for s in S:
            c = changes(s, m, off)
            ok = len(c) == 1 and not in_loop(s, c[0]) and c[0].kind == 'atomic' and (
                (c[0].name in ('add', 'sub') and isc(c[0].args[2]) and cv(c[0].args[2]) * (1 if c[0].name == 'add' else -1) == d))
            if not ok and d == 1 and len(c) == 1: ok = c[0].kind == 'atomic' and c[0].name == 'xchg' and isc(c[0].args[2]) and cv(c[0].args[2]) == 0
            ctx.ob(rule, fn, ok, 'unlock must be one atomic step', s)
    S = ctx.run('krw_mutex_rlock', **kw); rlock('spin-read', 'krw_mutex_rlock', S, ctx.args[0], 0)
    S = ctx.run('krw_mutex_wlock', **kw); wlock('spin-write', 'krw_mutex_wlock', S, ctx.args[0], 0)
    S = ctx.run('krw_mutex_runlock', **kw); addd('spin-unlock', 'krw_mutex_runlock', S, ctx.args[0], 0, -1)
    S = ctx.run('krw_mutex_wunlock', **kw); addd('spin-unlock', 'krw_mutex_wunlock', S, ctx.args[0], 0, 1)
    RW, TW = fld(ctx, 'kwr_mutex', 'rw', 'try_write')
    S = ctx.run('kwr_mutex_rlock', **kw); m = ctx.args[0]; hp = ctx.args[1]
    rlock('spin-read', 'kwr_mutex_rlock', S, m, RW)
    for s in S:
        top = [e for e in s.events if e.kind != 'loop']
        for hi, F in both(s.final.facts, hp):
            tw = [e for e in top if e.kind == 'ld' and e.args[0] is m and e.args[1] == TW]
            if not hi:
                cas = [e for e in top if e.kind == 'atomic' and e.name == 'cas']
                ok = bool(tw) and lt(F, ZERO, tw[-1].ret) is False and bool(cas) and index_of(top, tw[-1]) < index_of(top, cas[0])
                ctx.ob('spin-writer-first', 'kwr_mutex_rlock', ok, 'an ordinary reader enters only after seeing no writer queued', s)
            else: ctx.ob('spin-writer-first', 'kwr_mutex_rlock', not tw, 'a high-priority reader does not wait for queued writers', s)
        ctx.ob('spin-writer-first', 'kwr_mutex_rlock', not changes(s, m, TW), 'a reader must not touch the writer queue flag', s)
    S = ctx.run('kwr_mutex_wlock', **kw); m = ctx.args[0]
    wlock('spin-write', 'kwr_mutex_wlock', S, m, RW)
    for s in S:
        c = changes(s, m, TW); r = changes(s, m, RW)
        ok = len(c) == 1 and c[0].kind == 'atomic' and c[0].name == 'cas' and not in_loop(s, c[0]) and isc(c[0].args[2]) and cv(c[0].args[2]) == 0 and isc(c[0].args[3]) and cv(c[0].args[3]) > 0 and bool(r) and index_of(s.flat(), c[0]) < index_of(s.flat(), r[0])
        ctx.ob('spin-writer-queue', 'kwr_mutex_wlock', ok, 'a writer must announce itself (0 -> 1) before it takes the lock', s)
    S = ctx.run('kwr_mutex_runlock', **kw); addd('spin-unlock', 'kwr_mutex_runlock', S, ctx.args[0], RW, -1)
    S = ctx.run('kwr_mutex_wunlock', **kw); m = ctx.args[0]; addd('spin-unlock', 'kwr_mutex_wunlock', S, m, RW, 1)
    for s in S:
        c = changes(s, m, TW); r = changes(s, m, RW)
        ok = len(c) == 1 and c[0].kind == 'atomic' and (c[0].name == 'xchg' and isc(c[0].args[2]) and cv(c[0].args[2]) == 0 or c[0].name == 'add' and isc(c[0].args[2]) and cv(c[0].args[2]) == -1) and bool(r) and index_of(s.flat(), r[0]) < index_of(s.flat(), c[0])
        ctx.ob('spin-writer-queue', 'kwr_mutex_wunlock', ok, 'the writer flag is withdrawn exactly once, after the lock is released', s)
    for fn, offs in (('krw_mutex_init', (0,)), ('kwr_mutex_init', (RW, TW))):
        S = ctx.run(fn, record_loads=True)
        for s in S: ctx.ob('spin-init', fn, all(isnull(s.final.facts, final(ctx, s, ctx.args[0], o, 4)) for o in offs), 'a new lock must be free', s)

# ------------------------------------------------------------------ thread pool
def poolvars(ctx):
    S = ctx.run('kthread_get_count', record_loads=True); W, F = ctx.args[:2]
    lk = wc = fc = None
    for s in S:
        for e in s.flat():
            if is_call(e, LOCK): lk = e.args[0]
            if e.kind == 'st' and e.args[0] is W: wc = e.args[2]
            if e.kind == 'st' and e.args[0] is F: fc = e.args[2]
    if lk is None or wc is None or fc is None or wc.args[0] != 'm' or fc.args[0] != 'm': raise AnalysisError('kthread_get_count does not expose the pool counters')
    S = ctx.run('kthread_init')
    fl = None
    for s in S:
        for e in s.flat():
            if e.kind == 'st' and e.args[0].op == 'g' and e.args[2] is e.args[0]: fl = e.args[0]
    if fl is None: raise AnalysisError('kthread_init initialises no idle list')
    ctx.ob('pool-count', 'at start', all(at_rest(ctx, t.args[1], t.args[2]) is not False for t in (wc, fc)), 'before any thread was started none is counted')
    return lk, (wc.args[1], wc.args[2]), (fc.args[1], fc.args[2]), fl

def pool(ctx):
    lk, wc, fc, fl = poolvars(ctx)
    TI = 'kthread_info_s'
    PA, CM, WK, PID, Q = fld(ctx, TI, 'param', 'cmd', 'work', 'pid', 'queue')
    kw = dict(record_loads=True)
    shared = {wc, fc, (fl, 0), (fl, 8)}
    def disc(S, fn):
        for s in S:
            bad = []
            def on(h, e):
                if e.kind in ('ld', 'st') and (e.args[0], e.args[1]) in shared and lk not in h: bad.append('%s at %s' % ('read' if e.kind == 'ld' else 'write', e.site))
                if e.kind == 'icall' and h: bad.append('user work runs under the pool lock at %s' % e.site)
            errs, end = lock_scan(s.events, on)
            for k, e, l in errs: bad.append('%s at %s' % (k, e.site))
            if any(end): bad.append('lock held at exit')
            ctx.ob('pool-locked', fn, not bad, 'pool counters and idle list are only touched under the pool lock: ' + '; '.join(sorted(set(bad))[:3]), s)
    def kill_ok(rule, fn, seg, k, s, start):
        """wake-up of an idle thread: command and work published and node removed in the same locked segment"""
        pid = k.args[0]
        if not (pid.op == 'sym' and pid.args[0] == 'm'):
            ctx.ob(rule, fn, False, 'the signal does not go to a pool thread', s); return None
        info = ptradd(pid.args[1], pid.args[2] - PID); ib, io = ptr_split(info)
        before = seg[:index_of(seg, k)]
        def st(o):
            v = [e.args[2] for e in before if e.kind == 'st' and e.args[0] is ib and e.args[1] == io + o]
            return v[-1] if v else None
        ok = any(n is ptradd(ib, io + Q) for n, _ in unlinked(seg))
        ctx.ob('pool-dequeue', fn, ok, 'the woken thread must be taken off the idle list', s)
        c = st(CM)
        ctx.ob(rule, fn, c is not None and isc(c), 'the command must be written before the thread is woken', s)
        if start: ctx.ob('pool-work', fn, st(WK) is start[0] and st(PA) is start[1], 'work and argument must be published before the thread is woken', s)
        return cv(c) if c is not None and isc(c) else None
    # ---- start
    fn = 'kthread_pool_start'
    S = ctx.run(fn, **kw); W, P = ctx.args[:2]
    disc(S, fn)
    entry = None; starts = set(); kinds = set()
    for s in S:
        ev = s.flat()
        r = truth(s.final.facts, s.ret)
        cr = [e for e in ev if is_call(e, 'pthread_create')]; kl = [e for e in ev if is_call(e, 'pthread_kill')]
        mal = [e.ret for e in ev if is_call(e, *HEAP)]; fr = [e.args[0] for e in ev if is_call(e, *FREE)]
        if not ctx.ob('pool-result', fn, r is not None, 'the result must be definite', s): continue
        for sgm in segments(s.events):
            dw, df = delta(sgm, *wc), delta(sgm, *fc)
            if sgm and any(e.kind == 'call' for e in sgm):
                ctx.ob('pool-counts', fn, dw == (1 if r else 0) and df == (-1 if kl else 0), 'busy/idle counts must change exactly with the outcome (busy %s, idle %s)' % (dw, df), s)
        if cr:
            e = cr[0]; info = e.args[3]
            okc = isnull(s.final.facts, e.ret)
            ctx.ob('pool-result', fn, r is okc and len(cr) == 1 and not kl, 'success must be reported exactly when the thread was created', s)
            ctx.ob('pool-work', fn, at(ctx, e, info, WK) is W and at(ctx, e, info, PA) is P, 'work and argument must be stored before the thread starts', s)
            ctx.ob('pool-memory', fn, info in mal and (fr == [] if okc else fr == [info]), 'the descriptor is freed exactly when no thread took it', s)
            entry = e.args[2]; kinds.add('new' if okc else 'fail')
        elif kl:
            kinds.add('reuse')
            ctx.ob('pool-result', fn, r is True and len(kl) == 1 and not mal, 'reusing an idle thread wakes exactly one', s)
            starts.add(kill_ok('pool-command', fn, [e for e in s.events if e.kind != 'loop'], kl[0], s, (W, P)))
        else: ctx.ob('pool-result', fn, r is False and not [m for m in mal if m not in fr and not isnull(s.final.facts, m)], 'without a thread the call must fail', s)
    ctx.ob('pool-cases', fn, {'new', 'fail', 'reuse'} <= kinds, 'missing case, found %s' % sorted(kinds))
    if entry is None or entry.op != 'f': raise AnalysisError('pool thread entry not found')
    # ---- before the first thread: detached threads, and a signal that waits instead of killing
    sig = {e.args[1] for f in ('kthread_pool_start', 'kthread_flush', 'kthread_close_all_free') for s in ctx.run(f, **kw) for e in s.flat() if is_call(e, 'pthread_kill')}
    ats = {e.args[1] for s in ctx.run('kthread_pool_start', **kw) for e in s.flat() if is_call(e, 'pthread_create')}; sets = {e.args[0] for s in ctx.run(entry.args[0], **kw) for e in s.flat() if is_call(e, 'sigwait')} | {e.args[1] for s in ctx.run(entry.args[0], **kw) for e in s.flat() if is_call(e, 'pthread_sigmask')}
    det = any(is_call(e, 'pthread_detach') for s in ctx.run(entry.args[0], **kw) for e in s.flat())
    for s in ctx.run('kthread_init', **kw):
        ev = s.flat(); pos = lambda *n: [e for e in ev if is_call(e, *n)]
        ok = det or len(ats) == 1 and any(e.args[0] in ats and s.const(e.args[1]) == 1 and any(i.args[0] is e.args[0] and index_of(ev, i) < index_of(ev, e) for i in pos('pthread_attr_init')) for e in pos('pthread_attr_setdetachstate'))
        ctx.ob('pool-detached', 'kthread_init', ok, 'nobody waits for a pool thread to end: it must be created detached', s)
        ok = len(sig) == 1 and (any(e.args[0] in sig and not (isc(e.args[1]) and cv(e.args[1]) == 0) for e in pos('signal')) or any(e.args[0] in sig and not isnull(s.final.facts, e.args[1]) for e in pos('sigaction')))
        ctx.ob('pool-signal', 'kthread_init', ok, 'the wake-up signal must not end the process: a handler is installed for it', s)
        thr = [e for t in ctx.run(entry.args[0], **kw)[:1] for e in t.flat()]
        for w in sets:
            own = thr if w.op == 'sym' and w.args[0] == 'alloca' else ev
            em = [e for e in own if is_call(e, 'sigemptyset') and e.args[0] is w]; ad = [e for e in own if is_call(e, 'sigaddset') and e.args[0] is w]
            ok = bool(em) and {e.args[1] for e in ad} == sig and index_of(own, em[0]) < index_of(own, ad[0]) and not any(is_call(e, 'sigfillset', 'sigdelset') and e.args[0] is w for e in own)
            ctx.ob('pool-signal', 'kthread_init', ok, 'idle threads block and wait for exactly the wake-up signal', s)
    ctx.ob('pool-signal', 'kthread_init', bool(sets), 'the signal idle threads wait for is not found')
    # ---- retire
    ends = set()
    for fn in ('kthread_flush', 'kthread_close_all_free'):
        S = ctx.run(fn, **kw)
        disc(S, fn)
        n = 0
        for s in S:
            for sgm in segments(s.events):
                ks = [e for e in sgm if is_call(e, 'pthread_kill')]
                if not ks: 
                    ctx.ob('pool-counts', fn, delta(sgm, *fc) == 0 and delta(sgm, *wc) == 0, 'counts change without a thread being retired', s); continue
                for k in ks:
                    n += 1
                    ends.add(kill_ok('pool-command', fn, sgm, k, s, None))
                    ctx.ob('pool-counts', fn, delta(sgm, *fc) == -len(ks) and delta(sgm, *wc) == 0, 'the idle count must drop by one per retired thread', s)
                    if fn == 'kthread_flush':
                        c = [e for e in sgm if e.kind == 'ld' and (e.args[0], e.args[1]) == fc]
                        ctx.ob('pool-min-idle', fn, bool(c) and lt(k.snap.facts, ctx.args[0], c[0].ret) is True, 'the requested number of idle threads must be kept', s)
            if fn != 'kthread_flush':
                ctx.ob('pool-drained', fn, any(same(s.final.facts, [e for e in s.events if e.kind == 'ld' and e.args[0] is fl and e.args[1] == o][-1:][0].ret if [e for e in s.events if e.kind == 'ld' and e.args[0] is fl and e.args[1] == o] else ZERO, fl) for o in (0, 8)), 'all idle threads must be retired', s)
        if not n: ctx.ob('pool-retire', fn, False, 'no idle thread is ever retired')
    ctx.ob('pool-command', 'start/retire', len(starts) == 1 and len(ends) == 1 and starts != ends and None not in starts | ends, 'start and retire must be distinct constant commands (%s / %s)' % (starts, ends))
    START = list(starts)[0] if len(starts) == 1 else None
    # ---- the pool thread
    fn = entry.args[0]
    S = ctx.run(fn, **kw); disc(S, 'pool thread')
    S = ctx.run(fn, cut=3, **kw); I = ctx.args[0]
    nrun = 0; seen = set()
    for s in S:
        ev = [e for e in s.flat() if e.kind != 'loop']; ws = [i for i, e in enumerate(ev) if is_call(e, 'sigwait')]; ends = [0] + [i + 1 for i in ws] + [len(ev)]
        for k in range(len(ends) - 1):            # from one wake-up to the next
            g = ev[ends[k]:ends[k + 1]]; last = k == len(ends) - 2; runs = [e for e in g if e.kind == 'icall']; fr = [e for e in g if is_call(e, *FREE)]
            if last and s.kind == 'cut' and not fr and not runs: continue
            lo = next((i for i, e in enumerate(g) if is_call(e, LOCK)), len(g))
            if k == 0:
                ctx.ob('pool-first-run', 'pool thread', len(runs) == 1 and runs[0].x is initial(I, WK) and runs[0].args[0] is initial(I, PA) and index_of(g, runs[0]) < lo, 'a new thread must run its work exactly once, with its argument, before going idle', s)
                ctx.ob('pool-pid', 'pool thread', any(e.kind == 'st' and e.args[0] is I and e.args[1] == PID and 'pthread_self' in str(e.args[2]) for e in g[:lo]), 'the thread must publish its id before it can be woken', s)
            elif fr or last and s.kind != 'cut':
                seen.add('exit')
                ctx.ob('pool-exit', 'pool thread', last and not runs and len(fr) == 1 and fr[0].args[0] is I and not any(e.kind == 'uaf' for e in g) and delta(g, *wc) == 0 and delta(g, *fc) == 0, 'a retired thread runs nothing more and frees its descriptor once', s)
                cmd = at(ctx, fr[0], I, CM, 4) if fr else None
                ctx.ob('pool-exit', 'pool thread', bool(fr) and START is not None and ev_cond(fr[0].snap.facts, t_eq(cmd, C(START))) is False, 'a thread that was given work must not exit instead', s)
                continue
            else:
                nrun += 1; ok = len(runs) == 1 and index_of(g, runs[0]) < lo
                if ok:
                    e = runs[0]; cmd = at(ctx, e, I, CM, 4)
                    ok = ev_cond(e.snap.facts, t_eq(cmd, C(START))) is True if START is not None else False
                    ok = ok and e.x is at(ctx, e, I, WK) and e.args[0] is at(ctx, e, I, PA) and not any(x is initial(I, PA) for x in e.args)
                ctx.ob('pool-run', 'pool thread', ok, 'after a start command the published work runs exactly once with the published argument', s)
            ctx.ob('pool-memory', 'pool thread', not fr and not any(e.kind == 'uaf' for e in g), 'a thread that goes on keeps its descriptor', s)
            if last:
                ctx.ob('pool-idle', 'pool thread', s.kind == 'cut', 'a thread ends only when it is told to', s); continue
            seen.add('idle'); w = len(g) - 1
            blk = [i for i, e in enumerate(g) if is_call(e, 'pthread_sigmask') and isc(e.args[0]) and cv(e.args[0]) == 0]
            lnk = [(i, n) for n, pr, su, e in linked(g) for i in [index_of(g, e)] if n is ptradd(I, Q)]
            ok = len(lnk) == 1 and bool(blk) and blk[0] < lnk[0][0] < w
            ctx.ob('pool-idle', 'pool thread', ok, 'the wake-up signal must be blocked before the thread is offered as idle, and it is offered before waiting', s)
            un = next((i for i in range(lnk[0][0], w) if is_call(g[i], UNLOCK) and g[i].args[0] is lk), w) if lnk else w
            late = [e for e in g[un:w] if e.kind == 'st' and e.args[0] is I and e.args[1] in (CM, WK, PA)]
            ctx.ob('pool-idle', 'pool thread', not late, 'command, work and argument belong to the starter once the thread was offered as idle: overwriting them loses the work', s)
            ctx.ob('pool-counts', 'pool thread', delta(g, *wc) == -1 and delta(g, *fc) == 1, 'going idle moves one thread from busy to idle', s)
    ctx.ob('pool-cases', 'pool thread', seen == {'exit', 'idle'}, 'found %s' % sorted(seen))
    ctx.ob('pool-run', 'pool thread', nrun > 0, 'an idle thread is never reused')

# ------------------------------------------------------------------ bounded worker queue
def worker(ctx):
    T = 'kasync_worker'; R = 'kasync_worker_param_s'
    LK, HD, LS, MW, MQ, WR, QU, RF = fld(ctx, T, 'lock', 'head', 'last', 'max_worker', 'max_queue', 'worker', 'queue', 'refs')
    RW, RD, RC, RN = fld(ctx, R, 'wait', 'data', 'cb', 'next')
    prot = {HD, LS, WR, QU}
    OPQ = ('kthread_pool_start', 'kcond_notice', 'kcond_wait', 'kcond_init', 'kcond_destroy')
    kw = dict(opaque=OPQ, record_loads=True)
    entry = None
    for fn in ('kasync_worker_try_start', 'kasync_worker_start'):
        S = ctx.run(fn, **kw); A = ctx.args; w = A[0]; data, cb = A[1], A[2]; high = A[3] if fn == 'kasync_worker_try_start' else ZERO
        L = ptradd(w, LK)
        # the caller owns a reference: dropping the thread's one cannot be the last
        S = [s for s in S if not any(is_call(e, *FREE) and e.args[0] is w for e in s.flat())]
        locked_discipline(ctx, 'queue-locked', S, fn, w, LK, prot)
        h0, l0, q0, k0, mw, mq = (initial(w, o) for o in (HD, LS, QU, WR, MW, MQ))
        kinds = set()
        for s in S:
            ev = s.flat(); F = s.final.facts
            us = [e for e in ev if is_call(e, UNLOCK) and e.args[0] is L]
            if not ctx.ob('queue-atomic', fn, len(us) == 1 and len([e for e in ev if is_call(e, LOCK) and e.args[0] is L]) == 1, 'one critical section decides and queues', s): continue
            u = us[0]; UF = u.snap.facts
            full = lt(UF, ZERO, mq) is True and lt(UF, mq, q0) is True
            notfull = lt(UF, ZERO, mq) is False or lt(UF, mq, q0) is False
            mal = [e.ret for e in ev if is_call(e, *HEAP)]
            starts = [e for e in ev if is_call(e, 'kthread_pool_start')]
            if fn == 'kasync_worker_try_start' and truth(F, s.ret) is False:
                kinds.add('refused')
                ctx.ob('queue-refuse', fn, full and not starts and not [e for e in stores(s.events, w)] and not [m for m in mal if not any(is_call(e, *FREE) and e.args[0] is m for e in ev)], 'a request is refused only when the queue is over its limit, and then nothing changes', s)
                continue
            if fn == 'kasync_worker_try_start': ctx.ob('queue-refuse', fn, truth(F, s.ret) is True and notfull, 'an over-full queue must refuse', s)
            q = [m for m in mal]
            if not ctx.ob('queue-insert', fn, len(q) == 1, 'one request is queued', s): continue
            rq = q[0]
            g = lambda b, o, z=8: at(ctx, u, b, o, z)
            ok = g(rq, RC) is cb and g(rq, RD) is data
            ctx.ob('queue-insert', fn, ok, 'the request must carry its callback and argument', s)
            if same(UF, l0, ZERO) or same(UF, h0, ZERO):
                kinds.add('first')
                ctx.ob('queue-order', fn, g(w, HD) is rq and g(w, LS) is rq and (isnull(UF, g(rq, RN)) or g(rq, RN) is h0), 'the first request is both head and tail', s)
            else:
                hi = truth(UF, high)
                front = g(w, HD) is rq
                if front:
                    kinds.add('front')
                    ctx.ob('queue-order', fn, hi is True and g(rq, RN) is h0 and g(w, LS) is l0, 'only a high-priority request goes to the front, before all queued ones', s)
                else:
                    kinds.add('back')
                    ctx.ob('queue-order', fn, hi is False and g(w, HD) is h0 and g(w, LS) is rq and g(l0, RN) is rq and isnull(UF, g(rq, RN)), 'an ordinary request goes behind all queued ones', s)
            top = [e for e in s.events if e.kind != 'loop']
            ctx.ob('queue-count', fn, delta(top, w, QU) == 1, 'the queue length grows by one', s)
            # threads
            below = lt(UF, k0, mw)
            ref = delta(top, w, RF); dk = delta(top, w, WR)
            if starts:
                e = starts[0]
                okk = truth(F, e.ret)
                entry = e.args[0]
                i = index_of(top, e)
                ctx.ob('queue-threads', fn, len(starts) == 1 and e.args[1] is w and below is True and delta(top[:i], w, RF) == 1, 'a thread is started only below the limit, holding a reference before it runs', s)
                ctx.ob('queue-threads', fn, okk is not None and dk == (1 if okk else 0) and ref == (1 if okk else 0), 'a thread that did not start must not stay counted (workers %s, references %s)' % (dk, ref), s)
                kinds.add('started' if okk else 'nothread')
            else: ctx.ob('queue-threads', fn, below is False and dk == 0 and ref == 0, 'below the thread limit a thread must be started', s)
            if fn == 'kasync_worker_start':
                cw = [e for e in ev if is_call(e, 'kcond_wait')]; ci = [e for e in ev if is_call(e, 'kcond_init')]; cd = [e for e in ev if is_call(e, 'kcond_destroy')]
                if full and ci and not isnull(F, ci[0].ret):
                    kinds.add('waits')
                    ctx.ob('queue-wait', fn, len(cw) == 1 and len(ci) == 1 and len(cd) == 1 and g(rq, RW) is ci[0].ret and cw[0].args[0] is ci[0].ret and cd[0].args[0] is ci[0].ret and index_of(ev, cw[0]) > index_of(ev, u) and index_of(ev, cd[0]) > index_of(ev, cw[0]), 'a producer that exceeds the limit waits, without the lock, until its request is taken, then destroys the event once', s)
                elif not full: ctx.ob('queue-wait', fn, notfull and not cw and isnull(UF, g(rq, RW)), 'below the limit the producer must not wait', s)
            else: ctx.ob('queue-wait', fn, isnull(UF, g(rq, RW)) , 'nobody waits for a tried request', s)
            ctx.ob('queue-memory', fn, not any(e.kind == 'uaf' for e in ev) and not any(is_call(e, *FREE) and e.args[0] is rq for e in ev), 'a queued request must stay allocated', s)
        need = {'first', 'back', 'started', 'nothread'} | ({'refused', 'front'} if fn == 'kasync_worker_try_start' else {'waits'})
        ctx.ob('queue-cases', fn, need <= kinds, 'missing case, found %s' % sorted(kinds))
    if entry is None or entry.op != 'f': raise AnalysisError('worker thread entry not found')
    # ---- the worker thread
    fn = entry.args[0]; inst = 'worker thread'
    S = ctx.run(fn, **kw); w = ctx.args[0]; L = ptradd(w, LK)
    locked_discipline(ctx, 'queue-locked', S, inst, w, LK, prot)
    nloop = 0
    for s in S:
        for gi, g in enumerate(segments(s.events)):
            us = [e for e in g if is_call(e, UNLOCK) and e.args[0] is L]
            if not us and not any(e.kind != 'ld' for e in g): continue
            if not ctx.ob('queue-atomic', inst, len(us) == 1, 'one critical section per round', s): continue
            u = us[0]
            cbs = [e for e in g if e.kind == 'icall']; fr = [e for e in g if is_call(e, *FREE)]; no = [e for e in g if is_call(e, 'kcond_notice')]
            hl = [e for e in g if e.kind == 'ld' and e.args[0] is w and e.args[1] == HD]
            if not ctx.ob('queue-take', inst, bool(hl), 'the queue must be examined', s): continue
            h = hl[0].ret; UF = u.snap.facts
            if gi == 0:    # leaving
                rest = g[index_of(g, u):]
                ok = isnull(UF, h) and not cbs and delta(g, w, WR) == -1 and delta(g[:index_of(g, u)], w, WR) == -1 and delta(g, w, QU) == 0
                ctx.ob('queue-exit', inst, ok, 'a worker leaves only when the queue is empty, and is uncounted in the same critical section', s)
                ctx.ob('queue-exit', inst, delta(rest, w, RF) == -1, 'a leaving worker drops its reference once', s)
                last = [e for e in g if e.kind == 'atomic' and e.args[0] is w and cv(e.args[1]) == RF]
                if fr:
                    ctx.ob('queue-release', inst, len(fr) == 1 and fr[0].args[0] is w and bool(last) and same(s.final.facts, last[-1].ret, ONE), 'the queue is freed only with its last reference', s)
                else: ctx.ob('queue-release', inst, bool(last) and same(s.final.facts, last[-1].ret, ONE) is False, 'the last reference must free the queue', s)
            else:
                nloop += 1
                nx = [e for e in g if e.kind == 'st' and e.args[0] is w and e.args[1] == HD]
                ok = nonnull(UF, h) and len(nx) == 1 and nx[0].args[2].op == 'sym' and nx[0].args[2].args[0] == 'm' and nx[0].args[2].args[1] is h and nx[0].args[2].args[2] == RN
                if not ok and len(nx) == 1: ok = nonnull(UF, h) and isc(nx[0].args[2]) and cv(nx[0].args[2]) == 0 and isnull(UF, at(ctx, u, h, RN))
                ctx.ob('queue-take', inst, ok, 'exactly the head request is taken', s)
                ls = [e for e in g if e.kind == 'st' and e.args[0] is w and e.args[1] == LS]
                nh = at(ctx, u, w, HD)
                emp = True if isnull(UF, nh) else False if nonnull(UF, nh) else None
                ctx.ob('queue-take', inst, (emp is True and len(ls) == 1 and isnull(UF, ls[0].args[2])) or (emp is False and not ls), 'the tail is cleared exactly when the last request is taken', s)
                ctx.ob('queue-count', inst, delta(g, w, QU) == -1 and delta(g, w, WR) == 0 and delta(g, w, RF) == 0, 'taking a request shrinks the queue by one', s)
                ok = len(cbs) == 1 and index_of(g, cbs[0]) > index_of(g, u) and _m(cbs[0].x, h, RC) and _m(cbs[0].args[0], h, RD)
                ctx.ob('queue-run', inst, ok, 'the request\'s callback runs exactly once with its argument, outside the lock', s)
                ctx.ob('queue-memory', inst, len(fr) == 1 and fr[0].args[0] is h and bool(cbs) and not any(e.kind == 'uaf' for e in g), 'the request is freed exactly once and not used afterwards', s)
                wv = [e.ret for e in g if e.kind == 'ld' and e.args[0] is h and e.args[1] == RW]
                if no: ctx.ob('queue-notice', inst, len(no) == 1 and all(index_of(g, no[0]) < index_of(g, e) for e in cbs) and _m(no[0].args[0], h, RW) and nonnull(no[0].snap.facts, no[0].args[0]), 'a waiting producer is released once', s)
                else: ctx.ob('queue-notice', inst, bool(wv) and any(isnull(e.snap.facts, wv[0]) for e in cbs + fr), 'a waiting producer must be released', s)
    ctx.ob('queue-run', inst, nloop > 0, 'requests are never run')
    # ---- new queue / release
    S = ctx.run('kasync_worker_init', **kw); A = ctx.args
    for s in S:
        r = s.ret; g = lambda o, z=8: final(ctx, s, r, o, z)
        ok = all(isnull(s.final.facts, g(o, z)) for o, z in ((HD, 8), (LS, 8), (WR, 4), (QU, 4))) and g(MW, 4) is A[0] and g(MQ, 4) is A[1] and isc(g(RF, 4)) and cv(g(RF, 4)) == 1 and any(is_call(e, 'pthread_mutex_init') and e.args[0] is ptradd(r, LK) for e in s.flat())
        ctx.ob('queue-new', 'kasync_worker_init', ok, 'a new queue is empty, has its limits, one reference and an initialised lock', s)
    S = ctx.run('kasync_worker_set', **kw); w, a, b = ctx.args
    for s in S: ctx.ob('queue-limits', 'kasync_worker_set', final(ctx, s, w, MW, 4) is a and final(ctx, s, w, MQ, 4) is b, 'new limits are taken over', s)
    S = ctx.run('kasync_worker_will_wait', **kw); w = ctx.args[0]
    for s in S:
        lk = [e.kind == 'ld' and 'ld' or e.name for e in s.flat() if is_call(e, LOCK) or is_call(e, UNLOCK) or e.kind == 'ld' and e.args[0] is w and e.args[1] in (WR, MW)]
        n, m = [[e.ret for e in s.flat() if e.kind == 'ld' and e.args[0] is w and e.args[1] == o] for o in (WR, MW)]
        ok = len(n) == 1 and len(m) == 1 and lk[0] == LOCK and lk[-1] == UNLOCK and lk.count(LOCK) == 1
        for v, F in both(s.final.facts, s.ret): ok = ok and lt(F, n[0], m[0]) is (not v)
        ctx.ob('queue-busy', 'kasync_worker_will_wait', ok, 'no further worker can be started exactly if the limit is reached', s)
    S = ctx.run('kasync_worker_release', **kw); w = ctx.args[0]
    for s in S:
        a = [e for e in s.flat() if e.kind == 'atomic']; fr = [e for e in s.flat() if is_call(e, *FREE)]
        ok = len(a) == 1 and delta(s.flat(), w, RF) == -1 and (same(s.final.facts, a[0].ret, ONE) if fr else same(s.final.facts, a[0].ret, ONE) is False and differs(s.final.facts, a[0].ret, ONE)) and len(fr) <= 1
        ctx.ob('queue-release', 'kasync_worker_release', ok, 'freed exactly with the last reference', s)
        md = [e for e in s.flat() if is_call(e, 'pthread_mutex_destroy')]
        ctx.ob('queue-release', 'kasync_worker_release', len(md) == len(fr) and all(e.args[0] is ptradd(w, LK) and index_of(s.flat(), e) < index_of(s.flat(), fr[0]) for e in md), 'its lock goes with it', s)
    S = ctx.run('kasync_worker_empty', **kw); w = ctx.args[0]
    locked_discipline(ctx, 'queue-locked', S, 'kasync_worker_empty', w, LK, prot)
    for s in S:
        ok = True
        for v, F in both(s.final.facts, initial(w, HD)): ok = ok and truth(F, s.ret) is (not v)
        ctx.ob('queue-empty', 'kasync_worker_empty', ok, 'empty means no request is queued', s)
    # ---- one-shot helper
    S = ctx.run('kasync_worker_thread_start', **kw); P, CB = ctx.args[:2]
    ent = None
    for s in S:
        ps = [e for e in s.flat() if is_call(e, 'kthread_pool_start')]
        fr = [e for e in s.flat() if is_call(e, *FREE)]; mal = [e.ret for e in s.flat() if is_call(e, *HEAP)]
        ok = len(ps) == 1 and len(mal) == 1 and ps[0].args[1] is mal[0]
        if ok:
            okk = truth(s.final.facts, ps[0].ret); ent = ps[0].args[0]
            cell = {v[0] for (b, o), v in ps[0].snap.mem.items() if b is mal[0]}
            ok = okk is not None and truth(s.final.facts, s.ret) is okk and ([e.args[0] for e in fr] == ([] if okk else [mal[0]])) and {P, CB} <= cell
        ctx.ob('oneshot-start', 'kasync_worker_thread_start', ok, 'argument and callback are handed over; on failure the hand-over block is freed and failure reported', s)
    if ent is None: raise AnalysisError('one-shot entry not found')
    offs = {}
    for s in S:
        for e in s.flat():
            if is_call(e, 'kthread_pool_start'):
                for (b, o), v in e.snap.mem.items():
                    if v[0] is P: offs['p'] = o
                    if v[0] is CB: offs['cb'] = o
    S2 = ctx.run(ent.args[0], **kw); p = ctx.args[0]
    for s in S2:
        ic = [e for e in s.flat() if e.kind == 'icall']; fr = [e for e in s.flat() if is_call(e, *FREE)]
        ok = len(ic) == 1 and ic[0].x is initial(p, offs.get('cb')) and ic[0].args[0] is initial(p, offs.get('p')) and len(fr) == 1 and fr[0].args[0] is p and not any(e.kind == 'uaf' for e in s.flat())
        ctx.ob('oneshot-run', 'one-shot thread', ok, 'the callback runs once with its argument and the hand-over block is freed once', s)
def _m(t, base, off): return t is not None and t.op == 'sym' and t.args[0] == 'm' and t.args[1] is base and t.args[2] == off
