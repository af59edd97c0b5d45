"""Fiber synchronisation: mutex, rwlock, condition, channel, wait/wakeup core."""
from fw import *

OPQ = ('_kfiber_wakeup_waiter', '__kfiber_wait', 'kfiber_wakeup_ts', 'kfiber_wakeup', 'kgl_get_tls_selector', 'kselector_get_fiber', '__kfiber_switch')
WAKE = '_kfiber_wakeup_waiter'; WAIT = '__kfiber_wait'
SUSPEND = {WAKE, WAIT, 'kfiber_wakeup_ts', 'kfiber_wakeup', '__kfiber_switch'}

def fld(ctx, t, *names): return [ctx.off(t, n) for n in names]

def is_next(e): return e.kind == 'icall' and str(e.name).endswith('kgl_selector_module.next')
def ev_idx(s, pred):
    return [i for i, e in enumerate(s.events) if pred(e)]
def calls(s, name): return [e for e in s.events if e.kind == 'call' and e.name == name]

def locked_discipline(ctx, rule, S, inst, obj, lockoff, fields, allow_suspend=False):
    """every access to the protected fields happens with the object's lock held, the lock is released on every path,
    and nothing that may switch fibers / run user code happens while it is held"""
    L = ptradd(obj, lockoff)
    for s in S:
        bad = []
        def on(h, e):
            if e.kind in ('ld', 'st') and e.args[0] is obj and e.args[1] in fields and L not in h:
                bad.append('%s of a protected field at %s without the lock' % ('read' if e.kind == 'ld' else 'write', e.site))
            if (e.kind == 'call' and e.name in SUSPEND or e.kind == 'icall') and h and not allow_suspend:
                bad.append('%s at %s runs with the lock held' % (e.name, e.site))
        errs, end = lock_scan(s.events, on)
        for k, e, l in errs: bad.append('%s at %s' % (k, e.site))
        if any(end): bad.append('lock still held at exit')
        ctx.ob(rule, inst, not bad, '; '.join(sorted(set(bad))[:3]), s)

def grants(s, m, k): return None

def destroyed(ctx, rule, fn, lock, kw):
    """the object's lock is destroyed once, then the object freed once"""
    S = ctx.run(fn, **kw); m = ctx.args[0]
    for s in S:
        ev = s.flat(); fr = [e for e in ev if is_call(e, *FREE)]; md = [e for e in ev if is_call(e, 'pthread_mutex_destroy')]
        ok = len(fr) == 1 and fr[0].args[0] is m and len(md) == 1 and md[0].args[0] is ptradd(m, lock) and not [e for e in ev if e.kind == 'uaf'] and ev.index(md[0]) < ev.index(fr[0])
        ctx.ob(rule, fn, ok, 'the lock inside is destroyed and the memory given back, each exactly once', s)

# ------------------------------------------------------------------ mutex
def mutex(ctx):
    T = '_kfiber_mutex'
    W, CN, LM, WT, LK = fld(ctx, T, 'worker', 'count', 'limit', 'waiter', 'lock')
    FB = ctx.off('_kfiber', 'base'); NX = ctx.off('kgl_base_selectable', 'next'); WO = ctx.off('kgl_base_selectable', 'wait_obj')
    prot = {W, CN, LM, WT}
    kw = dict(opaque=OPQ, record_loads=True)
    def at_unlock(s, m):
        ev = [e for e in s.flat() if e.kind == 'call' and e.name == UNLOCK and e.args[0] is ptradd(m, LK)]
        return ev[-1] if ev else None
    # --- acquire
    for fn, variant in (('kfiber_mutex_lock', 'lock'), ('kfiber_mutex_try_lock', 'try'), ('kfiber_mutex_lock2', 'cb')):
        S = ctx.run(fn, **kw)
        m = ctx.args[0]
        w0, c0, l0, h0 = initial(m, W), initial(m, CN), initial(m, LM), initial(m, WT)
        locked_discipline(ctx, 'mutex-fields-locked', S, fn, m, LK, prot)
        kinds = set()
        for s in S:
            u = at_unlock(s, m)
            if not ctx.ob('mutex-acquire-atomic', fn, u is not None and len([e for e in s.flat() if e.kind == 'call' and e.name == LOCK and e.args[0] is ptradd(m, LK)]) == 1,
                          'the test and the update of the mutex must happen in one critical section', s): continue
            g = lambda o, sz=4: at(ctx, u, m, o, sz)
            F = u.snap.facts
            dw, dc = sub(g(W), w0), sub(g(CN), c0)
            head = g(WT, 8)
            waits = calls(s, WAIT); nexts = [e for e in s.flat() if is_next(e)]
            wakes = calls(s, WAKE)
            room = lt(s.final.facts, w0, l0)
            if head is h0:
                if isc(dw) and cv(dw) == 1:
                    kinds.add('grant')
                    ctx.ob('mutex-limit', fn, room is True, 'a holder is admitted without worker < limit being established', s)
                    ctx.ob('mutex-count', fn, isc(dc) and cv(dc) == 1, 'an admitted holder must raise the holder+waiter count by one (unlock lowers it by one)', s)
                    if variant == 'cb':
                        ok = len(nexts) == 1 and nexts[0].args[1] is ctx.args[1] and nexts[0].args[2] is ctx.args[2] and nexts[0].args[3] is ctx.args[3] and isc(nexts[0].args[4]) and cv(nexts[0].args[4]) == 0
                        ctx.ob('mutex-grant-callback', fn, ok, 'an immediate grant must post the callback exactly once with (data,arg,0)', s)
                    else:
                        ctx.ob('mutex-grant-nowait', fn, not waits and not nexts, 'an admitted fiber must not wait', s)
                        ctx.ob('mutex-ret', fn, s.const(s.ret) == 0, 'admitted lock must return 0', s)
                else:
                    kinds.add('refuse')
                    ctx.ob('mutex-refuse', fn, variant == 'try' and isc(dw) and cv(dw) == 0 and isc(dc) and cv(dc) == 0 and not waits and not nexts and s.const(s.ret) == -1,
                           'leaving without the lock and without queueing is only allowed for a refused try-lock, which changes nothing and returns -1', s)
                    if variant == 'try':
                        mx = ctx.args[1]
                        ctx.ob('mutex-refuse-cond', fn, lt(s.final.facts, ZERO, mx) is True and lt(s.final.facts, c0, mx) is False, 'refusal requires max>0 and count>=max', s)
            else:
                kinds.add('queue')
                ctx.ob('mutex-queue-cond', fn, room is False, 'a caller is queued although worker < limit', s)
                ctx.ob('mutex-queue-worker', fn, isc(dw) and cv(dw) == 0, 'queueing must not change the number of holders', s)
                ctx.ob('mutex-count', fn, isc(dc) and cv(dc) == 1, 'a queued waiter must raise the holder+waiter count by one', s)
                nx = at(ctx, u, head, NX, 8)
                ctx.ob('mutex-queue-link', fn, nx is h0, 'the new waiter must link to the previous waiters (none may be lost)', s)
                if variant == 'cb':
                    EW = '_kfiber_event_waiter'
                    chk = [(ctx.off(EW, 'result'), 2), (ctx.off(EW, 'arg'), 3), (WO, 1)]
                    ok = all(at(ctx, u, head, o, 8) is ctx.args[a] for o, a in chk) and not nexts
                    sel = at(ctx, u, head, ctx.off('kgl_base_selectable', 'selector'), 8)
                    fl = at(ctx, u, head, ctx.off('kgl_base_selectable', 'st_flags'), 4)
                    ctx.ob('mutex-queue-callback', fn, ok and isc(fl) and cv(fl) == 0 and sel.op == 'sym' and 'kgl_get_tls_selector' in str(sel.args[1]), 'a queued callback must record data, callback, argument and the caller\'s event loop', s)
                else:
                    wo = at(ctx, u, head, WO, 8)
                    ok = len(waits) == 1 and same(F, waits[0].args[0], head) and same(F, waits[0].args[1], wo)
                    ctx.ob('mutex-queue-wait', fn, ok, 'a queued fiber must wait exactly once, on the object its waker will name', s)
                    ctx.ob('mutex-ret', fn, s.const(s.ret) == 0, 'lock must return 0 once granted', s)
            ctx.ob('mutex-no-wake-on-lock', fn, not wakes, 'acquiring must not wake anybody', s)
        ctx.ob('mutex-cases', fn, kinds >= {'grant', 'queue'} and (variant != 'try' or 'refuse' in kinds), 'missing case, found %s' % sorted(kinds))
        if variant == 'try':
            # max<=0 never refuses
            ctx.ob('mutex-refuse-reason', fn, all(True for s in S), '')
    # --- release
    fn = 'kfiber_mutex_unlock'
    S = ctx.run(fn, **kw); m = ctx.args[0]
    w0, c0, h0 = initial(m, W), initial(m, CN), initial(m, WT)
    locked_discipline(ctx, 'mutex-fields-locked', S, fn, m, LK, prot)
    kinds = set()
    for s in S:
        u = at_unlock(s, m)
        if not ctx.ob('mutex-release-atomic', fn, u is not None and len(calls(s, LOCK)) == 1, 'release must test and update in one critical section', s): continue
        g = lambda o, sz=4: at(ctx, u, m, o, sz)
        dw, dc = sub(g(W), w0), sub(g(CN), c0)
        wakes = calls(s, WAKE)
        lw = [e for e in s.events if e.kind == 'loop']
        ctx.ob('mutex-count', fn, isc(dc) and cv(dc) == -1, 'release must lower the holder+waiter count by one', s)
        if not any(e.name == WAKE for e in s.flat() if e.kind == 'call'):
            kinds.add('free')
            ctx.ob('mutex-release-worker', fn, isc(dw) and cv(dw) == -1 and same(s.final.facts, g(WT, 8), h0), 'without a waiter the holder count must drop by one', s)
            ctx.ob('mutex-no-lost-wakeup', fn, isnull(s.final.facts, h0), 'release returns without waking although a waiter may be queued', s)
        else:
            kinds.add('handoff')
            ok = len(wakes) == 1 and not lw and same(u.snap.facts, wakes[0].args[0], h0) and isc(wakes[0].args[2]) and cv(wakes[0].args[2]) == 0
            ctx.ob('mutex-handoff', fn, ok, 'ownership must pass to exactly one queued waiter', s)
            ctx.ob('mutex-handoff-worker', fn, isc(dw) and cv(dw) == 0, 'a hand-off keeps the holder count unchanged', s)
            ctx.ob('mutex-handoff-dequeue', fn, g(WT, 8) is initial(h0, NX), 'the woken waiter (and only it) must leave the queue before it is woken', s)
            if wakes:
                wo = wakes[0].args[1]
                ctx.ob('mutex-handoff-obj', fn, wo is initial(h0, WO), 'the waker must name the object the waiter waits for', s)
    ctx.ob('mutex-cases', fn, kinds == {'free', 'handoff'}, 'missing case, found %s' % sorted(kinds))
    # --- construction / limits
    for fn, lim in (('kfiber_mutex_init2', 'arg'), ('kfiber_mutex_init', 1)):
        S = ctx.run(fn, **kw)
        for s in S:
            r = s.ret
            g = lambda o, sz=4: final(ctx, s, r, o, sz)
            want = ctx.args[0] if lim == 'arg' else C(1)
            ok = g(LM) is want and all(isc(g(o, z)) and cv(g(o, z)) == 0 for o, z in ((W, 4), (CN, 4), (WT, 8)))
            ctx.ob('mutex-init', fn, ok and any(e.name == 'pthread_mutex_init' and e.args[0] is ptradd(r, LK) for e in s.flat() if e.kind == 'call'), 'a new mutex must be free, have the requested limit and an initialised lock', s)
    destroyed(ctx, 'mutex-destroy', 'kfiber_mutex_destroy', LK, kw)
    fn = 'kfiber_mutex_set_limit'
    S = ctx.run(fn, **kw); m = ctx.args[0]
    locked_discipline(ctx, 'mutex-fields-locked', S, fn, m, LK, prot)
    for s in S:
        v = final(ctx, s, m, LM, 4)
        lo, hi = interval(s.final.facts, v)
        ok = lo >= 1 and (v is ctx.args[1] or isc(v) and cv(v) == 1 and lt(s.final.facts, ctx.args[1], ONE) is True)
        ctx.ob('mutex-set-limit', fn, ok, 'the limit must become max(1,requested)', s)
    for fn in ('kfiber_mutex_get_limit', 'kfiber_mutex_get_worker', 'kfiber_mutex_get_count'):
        S = ctx.run(fn, **kw); m = ctx.args[0]
        locked_discipline(ctx, 'mutex-fields-locked', S, fn, m, LK, prot)
        o = {'kfiber_mutex_get_limit': LM, 'kfiber_mutex_get_worker': W, 'kfiber_mutex_get_count': CN}[fn]
        ctx.each('mutex-getter', fn, S, lambda s: s.ret is initial(m, o), 'getter must return the field')

# ------------------------------------------------------------------ rwlock
def lastunlock(s, L):
    ev = [e for e in s.flat() if e.kind == 'call' and e.name == UNLOCK and e.args[0] is L]
    return ev[-1] if ev else None
def queued(ctx, s, u, m, headoff, h0, NX, WO, rule, fn):
    """the calling fiber was linked in front of the old waiters and waits once on its own wait object"""
    head = at(ctx, u, m, headoff, 8) if u else final(ctx, s, m, headoff, 8)
    sn = u.snap if u else None
    waits = [e for e in s.flat() if e.kind == 'call' and e.name == WAIT]
    if len(waits) != 1: ctx.ob(rule, fn, False, 'a queued fiber must wait exactly once', s); return False
    sn = sn or waits[0].snap
    ld = lambda b, o: ctx.e.load_snap(sn, ptradd(b, o), 8, None)
    head = ld(m, headoff)
    return ctx.ob(rule, fn, head is not h0 and ld(head, NX) is h0 and same(sn.facts, waits[0].args[0], head) and same(sn.facts, waits[0].args[1], ld(head, WO)),
                  'a queued fiber must be linked in front of all earlier waiters and wait on the object its waker names', s)
def wakes_all(ctx, s, start, NX, WO, got, rule, fn, anyobj=False):
    """every waiter reachable from `start` is woken exactly once; nobody else is woken"""
    tr = [t for t in traversals(s.events, NX) if t[1] is start]
    wk = [t for t in tr if any(e.kind == 'call' and e.name == WAKE for g in t[0].inst.seglist for e in flat(g))]
    direct = [e for e in s.events if e.kind == 'call' and e.name == WAKE]
    loops = [e for e in s.events if e.kind == 'loop' and any(x.kind == 'call' and x.name == WAKE for g in e.inst.seglist for x in flat(g))]
    if not loops and not direct:
        return ctx.ob(rule, fn, isnull(s.final.facts, start) or False, 'queued waiters are left asleep', s)
    ok = len(wk) == 1 and len(loops) == 1 and not direct
    if ok:
        e, st, w = wk[0]
        for g in e.inst.seglist:
            ws = [x for x in flat(g) if x.kind == 'call' and x.name == WAKE]
            ok = ok and len(ws) == 1
            for x in ws:
                ok = ok and x.args[0] in (st, w) and (same(x.snap.facts, x.args[2], got))
                if not anyobj:
                    o = x.args[1]
                    ok = ok and o.op == 'sym' and o.args[0] == 'm' and o.args[1] is x.args[0] and o.args[2] == WO
        ok = ok and isnull(s.final.facts, w)
    return ctx.ob(rule, fn, ok, 'every queued waiter must be woken exactly once, with the right result and wait object', s)

def rwlock(ctx):
    T = '_kfiber_rwlock'
    R, W, LK, CN = fld(ctx, T, 'reader', 'writer', 'lock', 'cnt')
    NX = ctx.off('kgl_base_selectable', 'next'); WO = ctx.off('kgl_base_selectable', 'wait_obj')
    prot = {R, W, CN}
    kw = dict(opaque=OPQ + ('kfiber_is_main',), record_loads=True)
    for fn in ('kfiber_rwlock_rlock', 'kfiber_rwlock_wlock'):
        rd = fn.endswith('rlock')
        S = ctx.run(fn, **kw); m = ctx.args[0]; L = ptradd(m, LK)
        c0, r0, w0 = initial(m, CN), initial(m, R), initial(m, W)
        locked_discipline(ctx, 'rw-fields-locked', S, fn, m, LK, prot)
        kinds = set()
        for s in S:
            u = lastunlock(s, L)
            if not ctx.ob('rw-acquire-atomic', fn, u is not None and len(calls(s, LOCK)) == 1, 'test and update must share one critical section', s): continue
            F = s.final.facts
            c1 = at(ctx, u, m, CN, 4); ho = R if rd else W
            h0 = r0 if rd else w0
            head = at(ctx, u, m, ho, 8); other = at(ctx, u, m, W if rd else R, 8)
            ctx.ob('rw-no-wake-on-lock', fn, not calls(s, WAKE) and same(F, other, w0 if rd else r0), 'acquiring must not touch the other queue or wake anybody', s)
            if same(F, head, h0):
                kinds.add('grant')
                if rd: ok = isc(sub(c1, c0)) and cv(sub(c1, c0)) == 1 and lt(F, c0, ZERO) is False and isnull(F, w0)
                else: ok = isc(c1) and cv(c1) == -1 and isnull(F, c0)
                ctx.ob('rw-exclusion', fn, ok, 'reader admitted only when no writer holds or waits (state+1); writer only when the lock is free (state=-1)', s)
                ctx.ob('rw-grant-nowait', fn, not calls(s, WAIT) and s.const(s.ret) == 0, 'an admitted fiber must not wait and gets 0', s)
            else:
                kinds.add('queue')
                ctx.ob('rw-queue-state', fn, c1 is c0, 'queueing must not change the lock state', s)
                if rd: ok = lt(F, c0, ZERO) is True or nonnull(F, w0)
                else: ok = nonnull(F, c0)
                ctx.ob('rw-queue-cond', fn, ok, 'a fiber is queued although it could be admitted (nobody would wake it)', s)
                queued(ctx, s, u, m, ho, h0, NX, WO, 'rw-queue-link', fn)
        ctx.ob('rw-cases', fn, kinds == {'grant', 'queue'}, 'missing case, found %s' % sorted(kinds))
    # release
    fn = 'kfiber_rwlock_runlock'
    S = ctx.run(fn, **kw); m = ctx.args[0]; L = ptradd(m, LK)
    c0, r0, w0 = initial(m, CN), initial(m, R), initial(m, W)
    locked_discipline(ctx, 'rw-fields-locked', S, fn, m, LK, prot)
    kinds = set()
    for s in S:
        u = lastunlock(s, L)
        if not ctx.ob('rw-release-atomic', fn, u is not None and len(calls(s, LOCK)) == 1, 'test and update must share one critical section', s): continue
        F = s.final.facts; c1 = at(ctx, u, m, CN, 4)
        wk = [e for e in s.flat() if e.kind == 'call' and e.name == WAKE]
        ctx.ob('rw-release-readers', fn, same(F, at(ctx, u, m, R, 8), r0), 'a read unlock must not drop queued readers', s)
        if wk:
            kinds.add('handoff')
            ctx.ob('rw-handoff', fn, len(wk) == 1 and same(u.snap.facts, wk[0].args[0], w0) and isc(c1) and cv(c1) == -1 and at(ctx, u, m, W, 8) is initial(w0, NX) and same(F, c0, ONE) and wk[0].args[1] is initial(w0, WO) and isc(wk[0].args[2]) and cv(wk[0].args[2]) == 0,
                   'the last reader must hand the lock to exactly one queued writer (state -1, writer dequeued)', s)
        else:
            d = sub(c1, c0)
            left = ev_cond(F, t_eq(c0, ONE))
            ok = same(F, c1, add(c0, C(-1))) and same(F, at(ctx, u, m, W, 8), w0) and (left is False or isnull(F, w0))
            kinds.add('free' if left is not False else 'still')
            ctx.ob('rw-no-lost-wakeup', fn, ok, 'a read unlock lowers the reader count by one and may only skip the wake-up when readers remain or no writer is queued', s)
    ctx.ob('rw-cases', fn, {'handoff', 'free', 'still'} <= kinds, 'missing case, found %s' % sorted(kinds))
    fn = 'kfiber_rwlock_wunlock'
    S = ctx.run(fn, **kw); m = ctx.args[0]; L = ptradd(m, LK)
    c0, r0, w0 = initial(m, CN), initial(m, R), initial(m, W)
    locked_discipline(ctx, 'rw-fields-locked', S, fn, m, LK, prot)
    for s in S:
        ctx.ob('rw-release-atomic', fn, lastunlock(s, L) is not None and len(calls(s, LOCK)) == 1, 'test and update must share one critical section', s)
    # the lock released by its writer, with queues of every small length in front of it
    def woke(E, st, fr, i, args, work):
        E.emit(st, 'call', WAKE, args, None, i)          # once woken, the fiber's own links are not ours any more
        for o in (NX, WO): st.wmem()[(args[0], o)] = (sym('gone', str(args[0]), o), 8, None)
    for nr in range(5):
        for nw in range(3):
            rs = [sym('al', 'reader%d' % i) for i in range(nr)]; ws = [sym('al', 'writer%d' % i) for i in range(nw)]
            def setup(E, st, rs=rs, ws=ws):
                mem = st.wmem()
                for q, o in ((rs, R), (ws, W)):
                    for x in q: assume(st.facts, t_eq(x, ZERO), False)
                    mem[(m, o)] = (q[0] if q else ZERO, 8, None)
                    for i, x in enumerate(q): mem[(x, NX)] = (q[i + 1] if i + 1 < len(q) else ZERO, 8, None)
                mem[(m, CN)] = (C(-1), 4, None)
            S = [s for s in ctx.e.run(fn, Cfg(opaque=OPQ, cut=8, models={WAKE: woke}), setup=setup, args=[m]) if s.kind != 'cut']
            ctx.npaths += len(S)
            inst = '%s:%d readers,%d writers' % (fn, nr, nw)
            ctx.ob('rw-release-total', inst, len(S) > 0, 'a write unlock must come to an end')
            for s in S:
                u = lastunlock(s, L)
                if u is None: continue
                F = u.snap.facts; cn = at(ctx, u, m, CN, 4); c1 = s.const(cn)
                wk = [e for e in s.flat() if e.kind == 'call' and e.name == WAKE]
                rh, wh = at(ctx, u, m, R, 8), at(ctx, u, m, W, 8)
                woken = [e.args[0] for e in wk]
                fine = all(isc(e.args[2]) and cv(e.args[2]) == 0 and e.args[1] is initial(e.args[0], WO) for e in wk)
                if nr:
                    ctx.ob('rw-wake-readers', inst, fine and len(woken) == nr and set(woken) == set(rs), 'every queued reader must be woken exactly once with status 0', s)
                    ctx.ob('rw-readers-dequeued', inst, isnull(F, rh) and wh is (ws[0] if ws else ZERO), 'the reader queue must be emptied (and only it)', s)
                    ctx.ob('rw-readers-counted', inst, c1 == nr, 'the lock state must count exactly the readers that are woken', s)
                elif nw:
                    ctx.ob('rw-handoff', inst, fine and woken == [ws[0]] and c1 == -1 and wh is (ws[1] if nw > 1 else ZERO) and isnull(F, rh), 'hand-off to exactly one queued writer', s)
                else:
                    ctx.ob('rw-no-lost-wakeup', inst, not wk and c1 == 0 and isnull(F, rh) and isnull(F, wh), 'a write unlock frees the lock when nobody is queued', s)
                first = next((i for i, e in enumerate(s.events) if e.kind == 'call' and e.name == WAKE), None)
                ctx.ob('rw-wake-outside', inst, first is None or index_of(s.events, u) < first, 'woken fibers must find the lock released', s)
    fn = 'kfiber_rwlock_init'
    S = ctx.run(fn, **kw)
    for s in S:
        ok = all(isc(final(ctx, s, s.ret, o, z)) and cv(final(ctx, s, s.ret, o, z)) == 0 for o, z in ((CN, 4), (R, 8), (W, 8))) and any(e.kind == 'call' and e.name == 'pthread_mutex_init' for e in s.flat())
        ctx.ob('rw-init', fn, ok, 'a new lock must be free', s)
    destroyed(ctx, 'rw-destroy', 'kfiber_rwlock_destroy', LK, kw)

# ------------------------------------------------------------------ condition
def vtable(ctx, initfn, auto):
    """the operation table a constructor installs: {slot: function name}"""
    S = ctx.run(initfn, opaque=OPQ, args=[C(1 if auto else 0)])
    want = list({final(ctx, s, s.ret, ctx.off('_kfiber_cond', 'f'), 8) for s in S})
    if len(want) != 1 or want[0].op != 'g': raise AnalysisError('%s(%s) installs no unique constant operation table: %s' % (initfn, auto, [str(x) for x in want]))
    g = want[0]
    out = {}
    for n in ('notice', 'wait', 'try_wait', 'wait_callback', 'release'):
        v = ctx.e.ginit(g.args[0], ctx.off('_kfiber_cond_function', n))
        out[n] = v.args[0] if v is not None and v.op == 'f' else None
    return out

def cond(ctx):
    T = '_kfiber_cond'
    WT, EVO = fld(ctx, T, 'waiter', 'ev')
    NX = ctx.off('kgl_base_selectable', 'next'); WO = ctx.off('kgl_base_selectable', 'wait_obj')
    LK = ctx.off('_kfiber_cond_ts', 'lock')
    RV = ctx.off('_kfiber', 'retval')
    kw = dict(opaque=OPQ, record_loads=True)
    prot = {WT, EVO}
    for initfn, ts in (('kfiber_cond_init', False), ('kfiber_cond_init_ts', True)):
        S = ctx.run(initfn, **kw)
        for s in S:
            g = lambda o, z: final(ctx, s, s.ret, o, z)
            ok = all(isc(g(o, z)) and cv(g(o, z)) == 0 for o, z in ((WT, 8), (EVO, 4)))
            if ts: ok = ok and any(e.kind == 'call' and e.name == 'pthread_mutex_init' and e.args[0] is ptradd(s.ret, LK) for e in s.flat())
            ctx.ob('cond-init', initfn, ok, 'a new condition must be unsignalled, have no waiter and an initialised lock', s)
        for auto in (True, False):
            tab = vtable(ctx, initfn, auto)
            tag = '%s,%s' % ('shared' if ts else 'local', 'auto' if auto else 'manual')
            for n, f in tab.items():
                ctx.ob('cond-table', '%s:%s' % (tag, n), f is not None, 'the condition has no %s operation' % n)
            # ---- waiting operations
            for op in ('wait', 'try_wait', 'wait_callback'):
                f = tab[op]
                if not f: continue
                inst = '%s:%s' % (tag, op)
                S = ctx.run(f, **kw); m = ctx.args[0]; A = ctx.args; L = ptradd(m, LK)
                e0, h0 = initial(m, EVO), initial(m, WT)
                if ts: locked_discipline(ctx, 'cond-fields-locked', S, inst, m, LK, prot)
                kinds = set()
                for s in S:
                    F = s.final.facts
                    u = lastunlock(s, L) if ts else None
                    sus = [e for e in s.flat() if e.kind == 'call' and e.name in SUSPEND]
                    nexts = [e for e in s.flat() if is_next(e)]
                    ref = u or (sus[0] if sus else None) or (nexts[0] if nexts else None)
                    if ts: ctx.ob('cond-atomic', inst, u is not None and len([e for e in s.flat() if e.kind == 'call' and e.name == LOCK]) == 1, 'test and update must share one critical section', s)
                    g = (lambda o, z: at(ctx, ref, m, o, z)) if ref else (lambda o, z: final(ctx, s, m, o, z))
                    head, ev = g(WT, 8), g(EVO, 4)
                    sig = lt(F, ZERO, e0)
                    if sig is None: sig = {True: False, False: True}.get(isnull(F, e0)) if isnull(F, e0) or nonnull(F, e0) else None
                    if sig is True:
                        kinds.add('signalled')
                        want = add(e0, C(-1)) if auto else e0
                        ok = same(F, ev, want) and same(F, head, h0)
                        if op == 'wait_callback':
                            ok = ok and len(nexts) == 1 and nexts[0].args[1] is A[1] and nexts[0].args[2] is A[2] and nexts[0].args[3] is A[3]
                        else: ok = ok and s.const(s.ret) == 0 and not sus and not nexts
                        ctx.ob('cond-signalled', inst, ok, 'a signalled condition must let exactly this caller through without waiting%s' % (', consuming one signal' if auto else ', and stay signalled'), s)
                    elif sig is False:
                        if op == 'try_wait':
                            kinds.add('unsignalled')
                            c = s.const(s.ret)
                            ctx.ob('cond-try-refuse', inst, same(F, ev, e0) and same(F, head, h0) and not sus and not nexts and c is not None and c != 0, 'an unsuccessful try-wait must change nothing and report failure', s)
                            continue
                        kinds.add('unsignalled')
                        ctx.ob('cond-queue-state', inst, same(F, ev, e0) and not nexts, 'queueing must not change the signal', s)
                        if op == 'wait':
                            queued(ctx, s, ref, m, WT, h0, NX, WO, 'cond-queue', inst)
                            ctx.ob('cond-ret', inst, s.const(s.ret) == 0, 'wait must report success once woken', s)
                            got = A[1]
                            fb = sus[0].args[0] if sus else None
                            if fb is not None and not isnull(F, got):
                                st = [e for e in s.flat() if e.kind == 'st' and e.args[0] is ptr_split(got)[0]]
                                ok = len(st) == 1 and result_of(ctx, sus[0], fb, RV, st[0].args[2])
                                ok = ok or (len(st) == 1 and st[0].args[2] is sus[0].ret)
                                ctx.ob('cond-result', inst, ok, 'a woken waiter must receive the notifier\'s result', s)
                        else:
                            EW = '_kfiber_event_waiter'
                            chk = [(ctx.off(EW, 'result'), 2), (ctx.off(EW, 'arg'), 3), (WO, 1)]
                            L2 = lambda o, z=8: (at(ctx, ref, head, o, z) if ref else final(ctx, s, head, o, z))
                            sel = L2(ctx.off('kgl_base_selectable', 'selector')); fl = L2(ctx.off('kgl_base_selectable', 'st_flags'), 4)
                            ok = L2(NX) is h0 and all(L2(o) is A[a] for o, a in chk) and isc(fl) and cv(fl) == 0 and sel.op == 'sym' and 'kgl_get_tls_selector' in str(sel.args[1])
                            ctx.ob('cond-queue', inst, ok, 'a queued callback must be linked in front of the earlier waiters with data, callback, argument and the caller\'s event loop', s)
                    else: ctx.ob('cond-signalled', inst, False, 'the signal state is not examined', s)
                ctx.ob('cond-cases', inst, kinds == {'signalled', 'unsignalled'}, 'missing case, found %s' % sorted(kinds))
                if op in ('wait', 'try_wait') and len(A) > 1:
                    # a caller that does not want the result passes none
                    S2 = ctx.e.run(f, Cfg(**kw), args=[m, ZERO]); ctx.npaths += len(S2)
                    ctx.ob('cond-plain', inst, not ctx.e.nullderefs and {s.const(s.ret) for s in S2} == {s.const(s.ret) for s in S}, 'waiting without asking for the result must work alike')
            # ---- notice
            f = tab['notice']
            if f:
                inst = tag + ':notice'
                S = ctx.run(f, **kw); m = ctx.args[0]; got = ctx.args[1]; L = ptradd(m, LK)
                e0, h0 = initial(m, EVO), initial(m, WT)
                if ts: locked_discipline(ctx, 'cond-fields-locked', S, inst, m, LK, prot)
                kinds = set()
                for s in S:
                    F = s.final.facts
                    u = lastunlock(s, L) if ts else None
                    wk = [e for e in s.flat() if e.kind == 'call' and e.name == WAKE]
                    if ts: ctx.ob('cond-atomic', inst, u is not None and len([e for e in s.flat() if e.kind == 'call' and e.name == LOCK]) == 1, 'test and update must share one critical section', s)
                    ref = u or (wk[0] if wk else None)
                    g = (lambda o, z: at(ctx, ref, m, o, z)) if ref else (lambda o, z: final(ctx, s, m, o, z))
                    ctx.ob('cond-notice-ret', inst, s.const(s.ret) == 0, 'notice must report success', s)
                    if auto:
                        if wk:
                            kinds.add('wake')
                            ok = len(wk) == 1 and not any(e.kind == 'loop' for e in s.events) and same(wk[0].snap.facts, wk[0].args[0], h0) and g(WT, 8) is initial(h0, NX) and same(F, g(EVO, 4), e0) and wk[0].args[2] is got and wk[0].args[1] is initial(h0, WO)
                            ctx.ob('cond-notice-one', inst, ok, 'one notice must release exactly one waiter (dequeued first) with the given result and leave no signal behind', s)
                        else:
                            kinds.add('save')
                            ctx.ob('cond-notice-save', inst, isnull(F, h0) and same(F, g(EVO, 4), add(e0, ONE)) and same(F, g(WT, 8), h0), 'a notice nobody waits for must be remembered exactly once, and only then', s)
                    else:
                        ctx.ob('cond-notice-set', inst, lt(F, ZERO, g(EVO, 4)) is True and isnull(F, g(WT, 8)), 'a manual-reset notice must leave the condition signalled and the queue empty before anyone is woken', s)
                        kinds.add('wake' if wk else 'save')
                        wakes_all(ctx, s, h0, NX, WO, got, 'cond-notice-all', inst)
                ctx.ob('cond-cases', inst, kinds == {'wake', 'save'}, 'missing case, found %s' % sorted(kinds))
            f = tab['release']
            if f:
                inst = tag + ':release'
                S = ctx.run(f, **kw); m = ctx.args[0]
                for s in S:
                    fr = [e for e in s.flat() if e.kind == 'call' and e.name in FREE]
                    ok = len(fr) == 1 and fr[0].args[0] is m and not any(e.kind == 'uaf' for e in s.flat())
                    if ts: ok = ok and any(e.kind == 'call' and e.name == 'pthread_mutex_destroy' and e.args[0] is ptradd(m, LK) for e in s.flat())
                    ctx.ob('cond-release', inst, ok, 'releasing a condition must free it exactly once and destroy its lock', s)
    # ---- condition awaited by plain threads
    for auto in (True, False):
        tab = vtable(ctx, 'kfiber_cond_init_sync', auto)
        KC = 'kcond_wait kcond_notice kcond_try_wait kcond_destroy kcond_init'.split()
        k2 = dict(opaque=OPQ + tuple(KC), record_loads=True)
        SC, GT = fld(ctx, '_kfiber_cond_sync', 'sync_cond', 'got')
        for op, prim in (('notice', 'kcond_notice'), ('wait', 'kcond_wait'), ('try_wait', 'kcond_try_wait'), ('release', 'kcond_destroy')):
            f = tab[op]; inst = 'thread,%s:%s' % ('auto' if auto else 'manual', op)
            if not ctx.ob('cond-table', inst, f is not None, 'the condition has no %s operation' % op): continue
            S = ctx.run(f, **k2); m = ctx.args[0]
            for s in S:
                F = s.final.facts
                pc = [e for e in s.flat() if e.kind == 'call' and e.name == prim]
                ok = len(pc) == 1 and pc[0].args[0] is initial(m, SC)
                if op == 'notice': ok = ok and at(ctx, pc[0], m, GT, 4) is ctx.args[1] and s.const(s.ret) == 0
                elif op in ('wait', 'try_wait') and ok:
                    succ = True
                    if op == 'try_wait':
                        succ = nonnull(F, pc[0].ret)
                        if not succ: ok = isnull(F, pc[0].ret) and s.const(s.ret) not in (None, 0)
                    if succ:
                        st = [e for e in s.flat() if e.kind == 'st' and e.args[0] is ptr_split(ctx.args[1])[0]]
                        ok = s.const(s.ret) == 0 and (isnull(F, ctx.args[1]) or len(st) == 1 and _is_m(st[0].args[2], m, GT))
                        # read only after the event
                        idx = [i for i, e in enumerate(s.events) if e is pc[0]]; rd = [i for i, e in enumerate(s.events) if e.kind == 'ld' and e.args[0] is m and e.args[1] == GT]
                        ok = ok and all(r > idx[0] for r in rd)
                elif op == 'release': ok = ok and len([e for e in s.flat() if e.kind == 'call' and e.name in FREE and e.args[0] is m]) == 1
                if op in ('wait', 'try_wait') and s is S[-1]:
                    S2 = ctx.e.run(f, Cfg(**k2), args=[m, ZERO]); ctx.npaths += len(S2)
                    ctx.ob('cond-plain', inst, not ctx.e.nullderefs and {s.const(s2.ret) for s2 in S2} == {s.const(s2.ret) for s2 in S}, 'waiting without asking for the result must work alike')
                ctx.ob('cond-thread', inst, ok, 'the thread-side condition must publish the result before the event and read it only after', s)
    for auto in (1, 0):
        S = ctx.run('kfiber_cond_init_sync', args=[C(auto)], **k2)
        for s in S:
            ki = [e for e in s.flat() if e.kind == 'call' and e.name == 'kcond_init']
            ctx.ob('cond-init', 'kfiber_cond_init_sync', len(ki) == 1 and final(ctx, s, s.ret, SC, 8) is ki[0].ret and isc(ki[0].args[0]) and cv(ki[0].args[0]) == auto, 'the event must be created with the requested reset mode', s)
def result_of(ctx, w, fiber, RV, v):
    """v is the fiber's result field read after the wait event w (the local holding the fiber may itself have escaped as a token)"""
    if v.op != 'sym' or v.args[0] != 'm' or v.args[2] != RV or v.args[3] is None: return False
    b = v.args[1]
    if b is ptr_split(fiber)[0]: return True
    return b.op == 'sym' and b.args[0] == 'm' and b.args[1].op == 'sym' and b.args[1].args[0] == 'alloca' and at(ctx, w, b.args[1], b.args[2], 8) is fiber
def _is_m(t, base, off): return t.op == 'sym' and t.args[0] == 'm' and t.args[1] is base and t.args[2] == off
def _strip(t):
    while t.op in ('zext', 'sext', 'trunc') or (t.op == 'and' and len(t.args) > 1 and isc(t.args[1])): t = t.args[0]
    return t

# ------------------------------------------------------------------ channel
def chan(ctx):
    T = '_kfiber_chan'
    WT, RF, FL, CL = fld(ctx, T, 'waiter', 'ref', 'wait_flag', 'closed')
    NX = ctx.off('kgl_base_selectable', 'next'); WO = ctx.off('kgl_base_selectable', 'wait_obj')
    kw = dict(opaque=OPQ, record_loads=True)
    S = ctx.run('kfiber_chan_create', **kw)
    none = None
    for s in S:
        g = lambda o, z: final(ctx, s, s.ret, o, z)
        none = s.const(g(FL, 1))
        ctx.ob('chan-new', 'kfiber_chan_create', isc(g(RF, 4)) and cv(g(RF, 4)) == 1 and isnull(s.final.facts, g(WT, 8)) and isnull(s.final.facts, g(CL, 1)) and none is not None,
               'a new channel is open, has one reference and nobody waiting', s)
    def ref(s):
        """first point where another fiber may run"""
        for e in s.events:
            if e.kind == 'call' and e.name in SUSPEND: return e
        return None
    # which flag value means what: established by queueing on an empty channel
    flag = {}
    def opening(fn, who):
        S = ctx.run(fn, **kw); ch = ctx.args[0]; vals = set()
        for s in S:
            w = [e for e in s.flat() if is_call(e, WAIT)]
            if w and ev_cond(s.final.facts, t_eq(initial(ch, FL), C(none))) is not False: vals.add(s.const(at(ctx, w[0], ch, FL, 1)))
        ctx.ob('chan-side', fn, len(vals) == 1 and none not in vals and None not in vals, 'the first fiber to wait must record which side waits')
        flag[who] = vals.pop() if len(vals) == 1 else None
    opening('kfiber_chan_send', 'send'); opening('kfiber_chan_recv', 'recv')
    ctx.ob('chan-side', 'send/recv', flag['send'] != flag['recv'], 'waiting senders and receivers must be distinguishable')
    for fn, me, other in (('kfiber_chan_send', 'send', 'recv'), ('kfiber_chan_recv', 'recv', 'send')):
        S = ctx.run(fn, **kw); ch = ctx.args[0]; dt = ctx.args[1]
        h0, f0, c0 = initial(ch, WT), initial(ch, FL), initial(ch, CL)
        kinds = set()
        for s in S:
            F = s.final.facts; r = ref(s)
            g = (lambda b, o, z=8: at(ctx, r, b, o, z)) if r else (lambda b, o, z=8: final(ctx, s, b, o, z))
            waits = [e for e in s.flat() if is_call(e, WAIT)]; wk = [e for e in s.flat() if is_call(e, WAKE)]
            fv = s.const(f0); head = g(ch, WT); fl = s.const(g(ch, FL, 1)) if not same(F, g(ch, FL, 1), f0) else fv
            may = lambda v: v is None or ev_cond(F, t_eq(f0, C(v))) is not False
            ctx.ob('chan-open', fn, same(F, g(ch, CL, 1), c0), 'a transfer must not open or close the channel', s)
            sts = [e for e in s.flat() if e.kind == 'st' and e.args[0] is dt and e.args[1] == 0]
            snd = [e for e in s.flat() if e.kind == 'st' and len(ctx.args) > 2 and e.args[0] is ctx.args[2]]
            if not waits and not wk and same(F, head, h0):
                kinds.add('closed')
                ctx.ob('chan-closed', fn, nonnull(F, c0) and s.const(s.ret) == -1 and same(F, g(ch, FL, 1), f0) and not (me == 'recv' and may(flag['send'])), 'only a closed channel (with nothing left to receive) refuses, with -1 and no effect', s)
                continue
            if waits:
                if may(none): kinds.add('queue-first')
                if may(flag[me]): kinds.add('queue-more')
                ctx.ob('chan-wait-cond', fn, isnull(F, c0) and not may(flag[other]), 'a fiber waits only on an open channel without a counterpart', s)
                ctx.ob('chan-side', fn, fl == flag[me], 'a waiting fiber must record its side', s)
                w = waits[0]
                L = lambda b, o: at(ctx, w, b, o, 8)
                q = L(ch, WT)
                ok = len(waits) == 1 and not wk and q is not h0 and (L(q, NX) is h0 or isnull(F, L(q, NX)) and isnull(F, h0)) and same(F, w.args[0], q) and w.args[1] is ch
                if me == 'send': ok = ok and L(q, WO) is dt
                else: ok = ok and isnull(F, L(q, WO))
                ctx.ob('chan-queue', fn, ok, 'the fiber must join the waiters (none lost) with its value and wait on this channel', s)
                ctx.ob('chan-wait-result', fn, s.ret is w.ret, 'a fiber released from a channel must return its waker\'s result', s)
                if me == 'recv':
                    fb = w.args[0]
                    v = sts[-1].args[2] if sts else None
                    ok = len(sts) == 1 and index_of(s.events, sts[0]) > index_of(s.events, w) and result_of(ctx, w, fb, WO, v)
                    ctx.ob('chan-value', fn, ok, 'a released receiver must hand out the value its waker left for it', s)
                    ctx.ob('chan-sender', fn, isnull(F, ctx.args[2]) or len(snd) == 1 and isnull(F, snd[0].args[2]), 'no sender is left to acknowledge after a wait', s)
            else:
                kinds.add('meet')
                ctx.ob('chan-meet-cond', fn, fv == flag[other], 'a direct transfer requires a waiting counterpart', s)
                if me == 'send': ctx.ob('chan-meet-open', fn, isnull(F, c0), 'nothing may be sent on a closed channel', s)
                ctx.ob('chan-dequeue', fn, head is initial(h0, NX) or isnull(F, head) and isnull(F, initial(h0, NX)), 'exactly the counterpart leaves the waiters', s)
                e = isnull(F, initial(h0, NX))
                ctx.ob('chan-side', fn, (fl == none) if e else (nonnull(F, initial(h0, NX)) and fl == fv), 'the waiting side is forgotten exactly when the last waiter leaves', s)
                ok = s.const(s.ret) == 0 and all(same(F, x.args[0], h0) and x.args[1] is ch and isc(x.args[2]) and cv(x.args[2]) == 0 for x in wk)
                if me == 'send':
                    ok = ok and len(wk) == 1 and at(ctx, wk[0], h0, WO, 8) is dt
                    ctx.ob('chan-meet', fn, ok, 'the waiting receiver must get the value before it is woken, once, with status 0', s)
                else:
                    a2 = ctx.args[2]
                    direct = isnull(F, a2)
                    ok = ok and len(sts) == 1 and sts[0].args[2] is initial(h0, WO)
                    if direct: ok = ok and len(wk) == 1
                    else: ok = ok and nonnull(F, a2) and not wk and len(snd) == 1 and same(F, snd[0].args[2], h0)
                    kinds.add('meet-ack' if not direct else 'meet-wake')
                    ctx.ob('chan-meet', fn, ok, 'the receiver must get the waiting sender\'s value and either wake that sender once or hand it to the caller', s)
        need = {'closed', 'meet', 'queue-first', 'queue-more'} | ({'meet-ack', 'meet-wake'} if me == 'recv' else set())
        ctx.ob('chan-cases', fn, kinds == need, 'missing case, found %s' % sorted(kinds))
    S2 = ctx.e.run('kfiber_chan_recv', Cfg(**kw), args=[ch, dt, ZERO]); ctx.npaths += len(S2)
    ctx.ob('chan-sender', 'kfiber_chan_recv, nobody to acknowledge', len(S2) >= 3 and not ctx.e.nullderefs, 'a receiver that does not acknowledge works alike')
    fn = 'kfiber_chan_close'
    S = ctx.run(fn, **kw); ch = ctx.args[0]; h0, c0 = initial(ch, WT), initial(ch, CL); kinds = set()
    for s in S:
        F = s.final.facts
        if nonnull(F, c0):
            kinds.add('again'); ctx.ob('chan-close', fn, s.const(s.ret) == 0 and not [e for e in s.flat() if is_call(e, WAKE)], 'closing again wakes nobody', s); continue
        kinds.add('close'); ctx.ob('chan-close', fn, s.const(s.ret) == 0, 'closing reports success', s)
        r = None
        for e in s.events:
            if e.kind == 'loop' and any(is_call(x, WAKE) for g in e.inst.seglist for x in flat(g)):
                xs = [x for g in e.inst.seglist for x in flat(g) if is_call(x, WAKE)]; r = xs
        pts = r or [None]
        for x in pts:
            g = (lambda o, z: at(ctx, x, ch, o, z)) if x is not None and x.args[0] is h0 else (lambda o, z: final(ctx, s, ch, o, z))
            if x is None or x.args[0] is h0:
                ctx.ob('chan-close-first', fn, nonnull(F, g(CL, 1)) and isnull(F, g(WT, 8)) and s.const(g(FL, 1)) == none, 'the channel is closed and its waiters detached before the first one is woken', s)
            if x is not None: ctx.ob('chan-close-value', fn, isnull(x.snap.facts, at(ctx, x, x.args[0], WO, 8)) and x.args[1] is ch, 'a waiter released by close must not see a value', s)
        wakes_all(ctx, s, h0, NX, WO, C(-1), 'chan-close-all', fn, anyobj=True)
    ctx.ob('chan-cases', fn, kinds == {'again', 'close'}, 'missing case, found %s' % sorted(kinds))
    # references
    for fn, d in (('kfiber_chan_add_ref', 1), ('kfiber_chan_release', -1)):
        S = ctx.run(fn, concurrent=True, record_loads=True); ch = ctx.args[0]; seen = set()
        for s in S: refstep(ctx, s, ch, RF, d, 'chan-ref', fn, seen)
        if d < 0: ctx.ob('chan-ref', fn, seen == {'last', 'more'}, 'a channel is freed with its last reference only')
    S = ctx.run('kfiber_chan_wakeup', **kw); A = ctx.args
    for s in S:
        wk = [e for e in s.flat() if is_call(e, WAKE)]
        ctx.ob('chan-ack', 'kfiber_chan_wakeup', len(wk) == 1 and wk[0].args[0] is A[1] and wk[0].args[1] is A[0] and wk[0].args[2] is A[2], 'acknowledging must wake exactly the given waiter with the given result', s)
def refstep(ctx, s, obj, RF, d, rule, fn, seen=None, freed=None):
    """one atomic reference count step; the object is freed exactly on the step to zero"""
    at_ = [e for e in s.flat() if e.kind == 'atomic' and e.args[0] is obj and cv(e.args[1]) == RF]
    ok = len(at_) == 1 and delta(s.events, obj, RF) == d and not [e for e in s.flat() if e.kind == 'st' and e.args[0] is obj and e.args[1] == RF]
    ctx.ob(rule, fn, ok, 'the reference count must change by %d in one atomic step' % d, s)
    fr = [e for e in s.flat() if is_call(e, *FREE) and e.args[0] is obj]
    if d < 0 and ok:
        new = add(at_[0].ret, C(d)) if at_[0].name in ('add', 'sub') else None
        z = ev_cond(s.final.facts, t_eq(new, ZERO)) if new is not None else None
        if seen is not None: seen.add('last' if fr else 'more')
        ctx.ob(rule, fn, z is not None and bool(fr) == z and len(fr) <= 1 and not any(e.kind == 'uaf' for e in s.flat()), 'freed exactly once, on the step that drops the last reference', s)
    else: ctx.ob(rule, fn, not fr, 'taking a reference must not free', s)
