"""Fiber core: context switch, wait / wake-up, life cycle, blocking wrappers."""
from fw import *
from sync import fld, calls, is_next, result_of, refstep

CUR = 'kselector_get_fiber'; TLS = 'kgl_get_tls_selector'; SW = '__kfiber_switch'
def nexts(s): return [e for e in s.flat() if is_next(e)]
def one(l): return l[0] if len(l) == 1 else None
def is_tls(t): return t.op == 'sym' and t.args[0] == 'ret' and str(t.args[1]).startswith(TLS + '@')
def is_cur(t): return t.op == 'sym' and t.args[0] == 'ret' and str(t.args[1]).startswith(CUR + '@')

# ------------------------------------------------------------------ switch / wait / wake-up
def core(ctx):
    SEL = ctx.off('kgl_base_selectable', 'selector'); FLG = ctx.off('kgl_base_selectable', 'st_flags'); NX = ctx.off('kgl_base_selectable', 'next'); WO = ctx.off('kgl_base_selectable', 'wait_obj')
    CURO = ctx.off('kselector_s', 'current')
    STF = ir.macro_values(['STF_FIBER'], ['"kselectable.h"'])['STF_FIBER']
    for cfg in ('epoll', 'ndebug'):
        ctx.cfg = cfg
        CTXO, SFO, RVO = fld(ctx, '_kfiber', 'ctx', 'switch_from', 'retval')
        dbg = cfg == 'epoll'
        WK = 'kfiber_wakeup' if dbg else 'kfiber_wakeup_release'; WT = '__kfiber_wait' if dbg else '__kfiber_wait_release'
        WR = 'kfiber_wait_result' if dbg else 'kfiber_wait_result_release'; KW = 'kfiber_wait' if dbg else 'kfiber_wait_release'
        tag = '' if dbg else '@release'
        # --- context switch
        S = ctx.run(SW, opaque=(TLS, CUR)); fr, to = ctx.args
        for s in S:
            ev = s.flat()
            j = one([e for e in ev if is_call(e, 'jump_fcontext')])
            if not ctx.ob('switch-once', SW + tag, j is not None, 'exactly one context switch', s): continue
            ctx.ob('switch-target', SW + tag, j.args[0] is initial(to, CTXO) and j.args[1] is fr, 'must enter the target\'s saved context and name the fiber that leaves', s)
            st = [e for e in ev if e.kind == 'st' and e.args[1] == CURO and e.args[2] is to]
            ok = len(st) == 1 and index_of(ev, st[0]) < index_of(ev, j) and (is_tls(st[0].args[0]) or st[0].args[0] is initial(to, SEL))
            ctx.ob('switch-current', SW + tag, ok, 'the loop must record the target as its running fiber before switching', s)
            after = [e for e in ev if e.kind == 'st' and index_of(ev, e) > index_of(ev, j)]
            ok = len([e for e in after if e.args[1] == CTXO and e.args[0].op == 'ev' and e.args[0].args[0] is j.ret and e.args[2].op == 'ev' and e.args[2].args[0] is j.ret and e.args[2] is not e.args[0]]) == 1 and len([e for e in after if e.args[1] == CTXO]) == 1
            ctx.ob('switch-save', SW + tag, ok, 'the context left behind must be saved in the fiber that left it', s)
        # --- first entry of a fiber saves the creator's context as well
        # --- wake-up on the own loop
        S = ctx.run(WK, opaque=(TLS, CUR, SW)); f = ctx.args[0]; ret = ctx.args[-1]; kinds = set()
        for s in S:
            sw = [e for e in s.flat() if is_call(e, SW)]
            if sw:
                kinds.add('switch'); e = sw[0]
                ok = len(sw) == 1 and e.args[1] is f and at(ctx, e, f, RVO, 4) is ret and at(ctx, e, f, SFO, 8) is e.args[0] and is_cur(e.args[0])
                ctx.ob('wake-switch', WK + tag, ok, 'the woken fiber must find its result and its way back before it runs, once', s)
            else:
                kinds.add('self')
                cur = [e for e in s.flat() if is_call(e, CUR)]
                ctx.ob('wake-self', WK + tag, final(ctx, s, f, RVO, 4) is ret and any(same(s.final.facts, e.ret, f) for e in cur), 'only a fiber completing its own operation is not switched to, and it still gets the result', s)
        ctx.ob('wake-cases', WK + tag, kinds == {'switch', 'self'}, 'found %s' % sorted(kinds))
        # --- who is running: the loop itself, or a fiber it resumed
        loop, me, up = sym('al', 'loop'), sym('al', 'self'), sym('al', 'up')
        for where, here, sf in (('no loop', ZERO, ZERO), ('the loop', loop, ZERO), ('a fiber', loop, up)):
            def su(E, st):
                for x in (loop, me, up): assume(st.facts, t_eq(x, ZERO), False)
                m = st.wmem(); m[(loop, CURO)] = (me, 8, None); m[(me, SFO)] = (sf, 8, None); m[(me, SEL)] = (loop, 8, None)
            def tls(E, st, fr, i, args, work): fr.env[i['i']] = here
            S = ctx.e.run('kfiber_is_main', Cfg(opaque=(TLS,), models={TLS: tls}), setup=su); ctx.entries.add('kfiber_is_main'); ctx.npaths += len(S)
            ctx.ob('main-fiber', 'kfiber_is_main, %s' % where + tag, S and all(truth(s.final.facts, s.ret) is (where != 'a fiber') for s in S), 'code running in a fiber, and only that, is told so')
        # --- wait
        S = ctx.run(WT, opaque=(TLS, CUR, SW)); f = ctx.args[0]
        for s in S:
            e = one([e for e in s.flat() if is_call(e, SW)])
            if not ctx.ob('wait-switch', WT + tag, e is not None and e.args[0] is f and e.args[1] is initial(f, SFO), 'a waiting fiber must switch back to the fiber that resumed it, once', s): continue
            ctx.ob('wait-result', WT + tag, s.ret.op == 'sym' and s.ret.args[0] == 'm' and s.ret.args[1] is f and s.ret.args[2] == RVO and s.ret.args[3] is not None, 'the wait must return the result its waker left', s)
        fiber_ok = ctx.p.enum('kev_fiber_ok')
        S = ctx.run(WR, opaque=(TLS, CUR, SW)); f, r = ctx.args[:2]; kinds = set()
        for s in S:
            w = [e for e in s.flat() if is_call(e, SW)]
            done = ev_cond(s.final.facts, t_eq(r, C(fiber_ok)))
            kinds.add(done)
            if done is True: ok = not w and s.ret is initial(f, RVO)
            else: ok = done is False and len(w) == 1 and s.ret.op == 'sym' and s.ret.args[0] == 'm' and s.ret.args[1] is f and s.ret.args[2] == RVO and s.ret.args[3] is not None
            ctx.ob('wait-if-pending', WR + tag, ok, 'a fiber waits exactly when its operation has not completed yet, and returns that operation\'s result', s)
        ctx.ob('wake-cases', WR + tag, kinds == {True, False}, 'found %s' % kinds)
        S = ctx.run(KW, opaque=(TLS, CUR, SW, WT)); b = ctx.args[0]
        for s in S:
            w = one([e for e in s.flat() if is_call(e, WT)])
            ctx.ob('wait-self', KW + tag, w is not None and is_cur(w.args[0]) and s.ret is w.ret, 'must wait as the running fiber', s)
        # --- wake-up from any thread
        for fn, sa in (('kfiber_wakeup_ts', None), ('kfiber_wakeup2', 0)):
            S = ctx.run(fn, opaque=(TLS, CUR, SW, WK)); A = ctx.args; f = A[0] if sa is None else A[1]; obj, rv = A[-2:]; kinds = set()
            for s in S:
                nx = nexts(s); wk = [e for e in s.flat() if is_call(e, WK)]; tl = [e for e in s.flat() if is_call(e, TLS)]
                sel = initial(f, SEL) if sa is None else A[sa]
                own = None
                cand = [sel] if sa is not None else [sel, at(ctx, (wk or nx)[0], f, SEL, 8)] if (wk or nx) else [sel]
                for e in tl:
                    for c in cand: own = (True if e.ret is c else ev_cond(s.final.facts, t_eq(e.ret, c))) if own is None else own
                kinds.add(own)
                if own: ok = not nx and len(wk) == 1 and wk[0].args[0] is f and wk[0].args[-1] is rv and (not dbg or wk[0].args[1] is obj)
                else:
                    ok = own is False and len(nx) == 1 and not wk and nx[0].args[0] is sel and nx[0].args[1] is obj and nx[0].args[3] is f and nx[0].args[4] is rv
                    cb = nx[0].args[2] if nx else None
                    ok = ok and cb is not None and cb.op == 'f'
                    if ok: forwards(ctx, cb.args[0], WK, dbg, tag)
                ctx.ob('wake-thread', fn + tag, ok, 'on its own loop the fiber is resumed directly, from any other thread one notice carrying its object and result is posted to its loop', s)
            ctx.ob('wake-cases', fn + tag, kinds == {True, False}, 'found %s' % kinds)
        # --- waiters: fibers and callbacks
        S = ctx.run('_kfiber_wakeup_waiter', opaque=(TLS, CUR, SW, WK, 'kfiber_wakeup_ts')); w, obj, got = ctx.args; kinds = set()
        EW = '_kfiber_event_waiter'
        for s in S:
            nx = nexts(s); wk = [e for e in s.flat() if is_call(e, 'kfiber_wakeup_ts')]; fr = [e for e in s.flat() if is_call(e, *FREE)]
            isf = ev_cond(s.final.facts, t_eq(initial(w, FLG), C(STF)))
            kinds.add(isf)
            if isf: ok = len(wk) == 1 and wk[0].args[0] is w and wk[0].args[1] is obj and wk[0].args[2] is got and not nx and not fr
            else:
                ok = isf is False and not wk and len(nx) == 1 and len(fr) == 1 and fr[0].args[0] is w and nx[0].args[0] is initial(w, SEL) and nx[0].args[1] is obj and nx[0].args[2] is initial(w, ctx.off(EW, 'result')) and nx[0].args[3] is initial(w, ctx.off(EW, 'arg')) and nx[0].args[4] is got
            ctx.ob('wake-waiter', '_kfiber_wakeup_waiter' + tag, ok and not any(e.kind == 'uaf' for e in s.flat()), 'a waiting fiber is resumed once; a waiting callback is posted once to its own loop with its own data and freed', s)
        ctx.ob('wake-cases', '_kfiber_wakeup_waiter' + tag, kinds == {True, False}, 'found %s' % kinds)
        for fn in ('kfiber_wakeup_waiter',):
            S = ctx.run(fn, opaque=('_kfiber_wakeup_waiter',)); w, got = ctx.args
            for s in S:
                e = one(calls(s, '_kfiber_wakeup_waiter'))
                ctx.ob('wake-waiter', fn + tag, e is not None and e.args[0] is w and e.args[1] is initial(w, WO) and e.args[2] is got, 'the waiter must be woken on the object it waits for', s)
        # --- queueing
        S = ctx.run('kfiber_add_waiter'); h, f, d = ctx.args
        for s in S:
            ok = final(ctx, s, h, 0) is f and final(ctx, s, f, NX) is initial(h, 0) and final(ctx, s, f, WO) is d
            ctx.ob('queue-waiter', 'kfiber_add_waiter' + tag, ok, 'the fiber must be linked in front of the earlier waiters with its wait object', s)
    ctx.cfg = 'epoll'
def forwards(ctx, fn, WK, dbg, tag):
    S = ctx.run(fn, opaque=(TLS, CUR, SW, WK)); data, arg, got = ctx.args
    for s in S:
        e = one([e for e in s.flat() if is_call(e, WK)])
        ok = e is not None and e.args[0] is arg and e.args[-1] is got and (not dbg or e.args[1] is data) and s.const(s.ret) == ctx.p.enum('kev_fiber_ok')
        ctx.ob('wake-callback', fn + tag, ok, 'completing a fiber\'s operation must resume that fiber once with the operation\'s result and report it as handled', s)

# ------------------------------------------------------------------ life cycle
def ptrdiff(p, base):
    """p - base as an integer term (None if unrelated)"""
    k = ZERO
    while p is not base:
        if p.op == 'gep':
            k = add(k, C(p.args[1]))
            for v, n in (p.args[2] or ()): k = add(k, mulc(v, n))
            p = p.args[0]
        else: return None
    return k
def lifecycle(ctx):
    T = '_kfiber'
    CTXO, SFO, RVO, CC, STA, ARG, CB = fld(ctx, T, 'ctx', 'switch_from', 'retval', 'close_cond', 'start', 'arg', 'cb')
    SEL = ctx.off('kgl_base_selectable', 'selector'); FLG = ctx.off('kgl_base_selectable', 'st_flags'); REF = ctx.off('kgl_base_selectable', 'ref'); QN = 8
    STF = ir.macro_values(['STF_FIBER'], ['"kselectable.h"'])['STF_FIBER']
    KINDS = {'kfiber_cond_init': 'loop', 'kfiber_cond_init_ts': 'threads', 'kfiber_cond_init_sync': 'plain thread'}
    # count variable: what kfiber_get_count reads
    S = ctx.run('kfiber_get_count'); cnt = None
    for s in S:
        a = [e for e in s.flat() if e.kind == 'atomic']
        ctx.ob('fiber-count', 'kfiber_get_count', len(a) == 1 and a[0].args[0].op == 'g' and s.ret is a[0].ret, 'the fiber count is read atomically', s)
        if a: cnt = a[0].args[0]
    ctx.ob('fiber-count', 'at start', at_rest(ctx, cnt) is not False, 'before any fiber was created none is counted')
    def count(s): return delta(s.flat(), cnt, 0)
    entry = None
    for cfg in ('epoll', 'ndebug'):
        ctx.cfg = cfg; tag = '' if cfg == 'epoll' else '@release'
        SZ = ctx.p.sizeof(T)
        S = ctx.run('kfiber_new', opaque=(TLS, CUR)); start, arg, stk = ctx.args
        for s in S:
            r = s.ret
            if s.const(r) == 0: ctx.ob('fiber-new-fail', 'kfiber_new' + tag, count(s) == 0, 'a failed creation must not be counted', s); continue
            g = lambda o, z=8: final(ctx, s, r, o, z)
            m = [e for e in s.flat() if e.kind == 'call' and e.name in HEAP and e.ret is r]; mk_ = [e for e in s.flat() if is_call(e, 'make_fcontext')]
            if not ctx.ob('fiber-new', 'kfiber_new' + tag, len(m) == 1 and len(mk_) == 1, 'one block and one context per fiber', s): continue
            top, size, en = mk_[0].args
            d = ptrdiff(top, r); n = m[0].args[-1]
            lo = sub(sub(d, size), C(SZ)) if d is not None else None; hi = sub(n, d) if d is not None else None
            ctx.ob('fiber-stack', 'kfiber_new' + tag, lo is not None and isc(lo) and cv(lo) >= 0 and isc(hi) and cv(hi) >= 0, 'the stack must lie inside the fiber\'s own block, above its descriptor', s)
            ctx.ob('fiber-stack-size', 'kfiber_new' + tag, (isc(size) and cv(size) >= 4096) or (not isc(size) and nonnull(s.final.facts, sub(size, C(65536 if cfg == 'epoll' else 0)))), 'a fiber without a requested stack size gets a default one', s)
            ok = isc(g(REF, 4)) and cv(g(REF, 4)) == 1 and isc(g(FLG, 4)) and cv(g(FLG, 4)) == STF and g(STA) is start and g(ARG) is arg and isnull(s.final.facts, g(CC)) and isnull(s.final.facts, g(QN)) and isnull(s.final.facts, g(SFO)) and g(CTXO) is mk_[0].ret
            ctx.ob('fiber-new', 'kfiber_new' + tag, ok, 'a new fiber has one reference, its start function and argument, its context and no close condition', s)
            ctx.ob('fiber-count', 'kfiber_new' + tag, count(s) == 1, 'a created fiber is counted once', s)
            if en.op == 'f': entry = en.args[0]
        for want in (0, 1, 4095, 4096, 10000, 65536, 1 << 20, 1 << 27, 1 << 28, 1 << 30):
            S2 = ctx.e.run('kfiber_new', Cfg(opaque=(TLS, CUR)), args=[start, arg, C(want)]); got = set(); ctx.npaths += len(S2)
            for s in S2:
                mk_ = [e for e in s.flat() if is_call(e, 'make_fcontext')]; m = [e for e in s.flat() if e.kind == 'call' and e.name in HEAP and e.ret is s.ret]
                if s.const(s.ret) == 0 or len(mk_) != 1 or len(m) != 1: continue
                top, size, en = mk_[0].args; d = ptrdiff(top, s.ret); n = m[0].args[-1]
                ok = d is not None and isc(d) and isc(size) and isc(n) and cv(d) - cv(size) >= SZ and cv(d) <= cv(n) and cv(size) >= max(4096, want // 4096 * 4096); got.add(ok)
            ctx.ob('fiber-stack-size', 'kfiber_new, %d asked' % want + tag, got == {True}, 'the stack has the size asked for, in whole pages, and lies in the fiber\'s block')
        # --- the entry runs the start function once and then leaves for good
        if entry is None: raise AnalysisError('no fiber entry function found')
        WT = '__kfiber_wait' if cfg == 'epoll' else '__kfiber_wait_release'
        S = ctx.run(entry, opaque=(TLS, CUR, SW, WT)); A = ctx.args; exitcb = None
        for s in S:
            ev = s.flat()
            ic = [e for e in ev if e.kind == 'icall']
            cur = [e for e in ev if is_call(e, CUR)]
            ok = len(ic) == 1 and cur and ic[0].x.op == 'sym' and ic[0].x.args[:1] == ('m',)
            f = ic[0].x.args[1] if ok else None
            ok = ok and f is cur[0].ret and ic[0].x.args[2] == STA and ic[0].args[0] is initial(f, ARG) and ic[0].args[1] is initial(f, RVO)
            if not ctx.ob('fiber-run', entry + tag, bool(ok), 'the fiber entry must run the start function exactly once with its argument', s): continue
            sv = [e for e in ev if e.kind == 'st' and e.args[0] is A[1] and e.args[1] == CTXO and e.args[2] is A[0]]
            ctx.ob('switch-save', entry + tag, len(sv) == 1 and index_of(ev, sv[0]) < index_of(ev, ic[0]), 'the first entry must save the context of the fiber that started it', s)
            w = [e for e in ev if is_call(e, WT, SW)]
            sel = [e.args[2] for e in ev if e.kind == 'st']
            if not ctx.ob('fiber-leave', entry + tag, len(w) == 1 and same(w[0].snap.facts, w[0].args[0], f) and index_of(ev, w[0]) > index_of(ev, ic[0]), 'a finished fiber must leave its context once', s): continue
            g = lambda o, z=8: at(ctx, w[0], f, o, z)
            ln = [x for x in linked(s.events) if x[0] is f]
            nx = nexts(s)
            ok = g(RVO, 4) is ic[0].ret and g(ARG) is f and g(CB).op == 'f' and len(ln) == 1 and not nx or (len(nx) == 1 and nx[0].args[3] is f and nx[0].args[4] is ic[0].ret)
            ctx.ob('fiber-exit-post', entry + tag, ok, 'a finished fiber must hand its result to the loop exactly once for clean-up outside its own stack', s)
            exitcb = g(CB).args[0] if g(CB).op == 'f' else exitcb
        # --- clean-up
        if exitcb is None: raise AnalysisError('no fiber exit callback found')
        def destroy_ob(s, f, last, rule, fn):
            """freed once iff last reference, close condition released iff present, counted"""
            fr = [e for e in s.flat() if is_call(e, *FREE) and e.args[0] is f]
            rel = [e for e in s.flat() if e.kind == 'icall' and str(e.name).endswith('.release')]
            ok = len(fr) == (1 if last else 0) and count(s) == (-1 if last else 0) and not any(e.kind == 'uaf' for e in s.flat())
            if last:
                ok = ok and len(rel) <= 1
            else: ok = ok and not rel
            return ctx.ob(rule, fn + tag, ok, 'the fiber is freed and uncounted exactly with its last reference, together with its close condition', s)
        def releases(s, f, fn):
            a = [e for e in s.flat() if e.kind == 'atomic' and e.args[0] is f and cv(e.args[1]) == REF]
            ok = len(a) == 1 and delta([a[0]], f, REF) is None or len(a) == 1
            d = cv(a[0].args[2]) * (1 if a[0].name == 'add' else -1) if len(a) == 1 and a[0].name in ('add', 'sub') and isc(a[0].args[2]) else None
            if not ctx.ob('fiber-ref', fn + tag, d == -1, 'exactly one reference must be given back', s): return
            z = ev_cond(s.final.facts, t_eq(add(a[0].ret, C(-1)), ZERO))
            if not ctx.ob('fiber-ref', fn + tag, z is not None, 'the last reference must be recognised', s): return
            destroy_ob(s, f, z, 'fiber-free', fn)
            if z:
                # close condition present => released
                i = index_of(s.flat(), a[0])
                cc = [e for e in s.flat()[i:] if e.kind == 'icall' and str(e.name).endswith('.release')]
                v = at(ctx, a[0], f, CC)
                ctx.ob('fiber-free-cond', fn + tag, bool(cc) and cc[0].args[0] is v and nonnull(cc[0].snap.facts, v) or not cc and isnull(s.final.facts, v), 'the close condition must be released with the fiber', s)
            return z
        S = ctx.run(exitcb, opaque=(TLS, CUR, 'kfiber_main')); f, got = ctx.args[1], ctx.args[2]; last = set(); seen = set()
        for s in S:
            no = [e for e in s.flat() if e.kind == 'icall' and str(e.name).endswith('.notice')]
            c0 = initial(f, CC)
            if no:
                seen.add('notify')
                ok = len(no) == 1 and no[0].args[0] is c0 and no[0].args[1] is got and same(s.final.facts, at(ctx, no[0], f, RVO, 4), got)
                ctx.ob('fiber-exit-notify', exitcb + tag, ok, 'joiners must be told once, after the result was stored', s)
            else:
                seen.add('silent'); ctx.ob('fiber-exit-notify', exitcb + tag, isnull(s.final.facts, c0), 'a fiber with joiners must notify them', s)
            last.add(releases(s, f, exitcb))
        ctx.ob('fiber-cases', exitcb + tag, last >= {True, False} and seen == {'notify', 'silent'}, 'found %s %s' % (last, seen))
    ctx.cfg = 'epoll'; tag = ''
    # --- creation
    WAKES = ('kfiber_wakeup', 'kfiber_wakeup2', 'kfiber_wakeup_ts')
    OPQ = (TLS, CUR, SW) + WAKES + tuple(KINDS)
    def publish(fn, retarg, kinds, selarg):
        S = ctx.run(fn, opaque=OPQ); A = ctx.args; seen = set()
        for s in S:
            wk = [e for e in s.flat() if is_call(e, *WAKES)]
            if s.const(s.ret) != 0:
                ctx.ob('fiber-create-fail', fn, s.const(s.ret) == -1 and not wk, 'failure must be reported and start nothing', s); continue
            if not ctx.ob('fiber-create', fn, len(wk) == 1, 'a created fiber must be started exactly once', s): continue
            e = wk[0]; f = e.args[1] if e.name == 'kfiber_wakeup2' else e.args[0]
            g = lambda o, z=8: at(ctx, e, f, o, z)
            sel = g(SEL)
            if e.name == 'kfiber_wakeup2': ctx.ob('fiber-create-loop', fn, sel is e.args[0] and e.args[2] is ZERO, 'the fiber must be started on the loop it belongs to', s)
            elif e.name == 'kfiber_wakeup': ctx.ob('fiber-create-loop', fn, is_tls(sel), 'a fiber started directly must belong to the running loop', s)
            ctx.ob('fiber-create-arg', fn, e.args[-1] is A[[i for i, n in enumerate(ctx.p.fn(fn).args) if n == 'len'][0]], 'the start argument must be passed on', s)
            if selarg is not None: ctx.ob('fiber-create-loop', fn, sel is A[selarg] or is_tls(sel) and isnull(s.final.facts, A[selarg]), 'the fiber must run on the requested loop, or the caller\'s by default', s)
            want = None
            if retarg is None: want = True
            else: want = {True: False, False: True}.get(isnull(s.final.facts, A[retarg])) if isnull(s.final.facts, A[retarg]) is not False or nonnull(s.final.facts, A[retarg]) else None
            if retarg is not None and nonnull(s.final.facts, A[retarg]): want = True
            ci = [x for x in s.flat() if is_call(x, *KINDS) and index_of(s.flat(), x) < index_of(s.flat(), e)]
            seen.add(want)
            if want:
                ref = g(REF, 4); base = initial(f, REF) if retarg is None else ONE
                ok = sub(ref, base) is ONE or isc(sub(ref, base)) and cv(sub(ref, base)) == 1
                ok = ok and len(ci) == 1 and isc(ci[0].args[0]) and cv(ci[0].args[0]) == 0 and g(CC) is ci[0].ret
                if retarg is not None: ok = ok and same(e.snap.facts, at(ctx, e, A[retarg], 0, 8), f)
                ctx.ob('fiber-handle', fn, ok, 'a returned handle needs its own reference, a manual-reset close condition and to be stored before the fiber can run', s)
                if ci:
                    k = KINDS[ci[0].name]
                    own = is_tls(sel)
                    ctx.ob('fiber-handle-kind', fn, k in kinds and (k == 'loop') == own, 'the close condition must suit the threads that use it (%s on %s loop)' % (k, 'own' if own else 'another'), s)
            else:
                ok = isc(g(REF, 4)) and cv(g(REF, 4)) == 1 and not ci and isnull(e.snap.facts, g(CC))
                ctx.ob('fiber-nohandle', fn, ok, 'without a handle the fiber owns itself and needs no close condition', s)
        ctx.ob('fiber-cases', fn, seen == ({True} if retarg is None else {True, False}), 'found %s' % seen)
    publish('kfiber_create2', 5, {'loop', 'threads'}, 0)
    publish('kfiber_create', 4, {'loop'}, None)
    publish('kfiber_create_sync', 4, {'plain thread'}, None)
    publish('kfiber_start', None, {'loop'}, None)
    # --- joins
    for fn in ('kfiber_join', 'kfiber_try_join'):
        S = ctx.run(fn, opaque=(TLS, CUR)); f, rv = ctx.args; op = '.wait' if fn == 'kfiber_join' else '.try_wait'; seen = set()
        for s in S:
            w = [e for e in s.flat() if e.kind == 'icall' and str(e.name).endswith(op)]
            c0 = initial(f, CC)
            if not w:
                ctx.ob('fiber-join', fn, isnull(s.final.facts, c0), 'a join must wait for the fiber to end', s); continue
            ctx.ob('fiber-join', fn, len(w) == 1 and w[0].args[0] is c0, 'a join waits once on the fiber\'s own condition', s)
            okc = truth(s.final.facts, w[0].ret) is False
            if fn == 'kfiber_try_join' and not okc:
                seen.add('busy')
                ctx.ob('fiber-try-join', fn, nonnull(s.final.facts, w[0].ret) and s.const(s.ret) == -1 and not [e for e in s.flat() if e.kind == 'atomic'], 'an unfinished fiber must be reported and the handle kept', s)
                continue
            seen.add('done')
            ctx.ob('fiber-join-ret', fn, s.const(s.ret) == 0, 'a completed join reports success', s)
            if not isnull(s.final.facts, rv):
                st = [e for e in s.flat() if e.kind == 'st' and e.args[0] is rv]
                ok = bool(st) and st[-1].args[2].op == 'sym' and st[-1].args[2].args[:2] == ('m', f) and st[-1].args[2].args[2] == RVO and st[-1].args[2].args[3] is not None
                if okc: ctx.ob('fiber-join-result', fn, ok, 'the joiner must get the fiber\'s own result, read after it ended', s)
            last = releases(s, f, fn); seen.add(last)
        ctx.ob('fiber-cases', fn, seen >= ({'done', True, False} | ({'busy'} if 'try' in fn else set())), 'found %s' % seen)
    for fn in ('kfiber_join', 'kfiber_try_join'):
        S = ctx.e.run(fn, Cfg(opaque=(TLS, CUR)), args=[sym('arg:f'), ZERO]); ctx.npaths += len(S)
        ctx.ob('fiber-join-plain', fn + ', result not asked for', len(S) >= 2 and not ctx.e.nullderefs, 'joining without asking for the result works alike')
    fn = 'kfiber_join2'
    S = ctx.run(fn, opaque=(TLS, CUR, 'kfiber_is_main')); f, data, cb, arg = ctx.args; seen = set()
    for s in S:
        w = [e for e in s.flat() if e.kind == 'icall' and str(e.name).endswith('.wait_callback')]
        d = [e for e in s.flat() if e.kind == 'icall' and e.x is cb]
        c0 = initial(f, CC)
        if w:
            seen.add('wait'); ok = len(w) == 1 and not d and w[0].args[0] is c0 and w[0].args[1:4] == (data, cb, arg) and s.ret is w[0].ret
        else:
            seen.add('none'); ok = len(d) == 1 and isnull(s.final.facts, c0) and d[0].args[0] is data and d[0].args[1] is arg
        ctx.ob('fiber-join-cb', fn, ok, 'the callback must be registered (or run) exactly once with its own data and argument', s)
        releases(s, f, fn)
    ctx.ob('fiber-cases', fn, seen == {'wait', 'none'}, 'found %s' % seen)
    fn = 'kfiber_ref_self'
    S = ctx.run(fn, opaque=OPQ); seen = set()
    for s in S:
        f = s.ret
        ok = is_cur(f) and delta(s.flat(), f, REF) == 1 and len([e for e in s.flat() if e.kind == 'atomic' and e.args[0] is f]) == 1
        ci = [x for x in s.flat() if is_call(x, *KINDS)]
        v = final(ctx, s, f, CC)
        ok = ok and (nonnull(s.final.facts, initial(f, CC)) and not ci or len(ci) == 1 and isnull(s.final.facts, initial(f, CC)) and v is ci[0].ret and same(s.final.facts, ci[0].args[0], ZERO) and truth(s.final.facts, ctx.args[0]) is (ci[0].name == 'kfiber_cond_init_ts'))
        ctx.ob('fiber-self-ref', fn, ok, 'a fiber referencing itself takes one atomic reference and gets a close condition suited to the joining thread', s)
    fn = 'kfiber_exit_callback'
    S = ctx.run(fn, opaque=OPQ); data, cb, arg = ctx.args
    for s in S:
        ic = [e for e in s.flat() if e.kind == 'icall']; ci = [x for x in s.flat() if is_call(x, *KINDS)]
        w = ic[0] if len(ic) == 1 and str(ic[0].name).endswith('.wait_callback') else None
        f = decode(w.args[0])[0] if w is not None and decode(w.args[0]) else None
        cur = [e.ret for e in s.flat() if is_call(e, CUR)]; f = cur[0] if cur else f
        ok = w is not None and w.args[1:4] == (data, cb, arg) and s.ret is w.ret and f is not None
        if ok and not ci: ok = w.args[0] is initial(f, CC) and nonnull(s.final.facts, initial(f, CC))
        elif ok: ok = len(ci) == 1 and same(s.final.facts, ci[0].args[0], ZERO) and w.args[0] is ci[0].ret and at(ctx, w, f, CC, 8) is ci[0].ret and isnull(s.final.facts, initial(f, CC))
        ctx.ob('fiber-exit-cb', fn, bool(ok), 'an exit callback is registered once, with its own data and argument, on a condition that releases everybody', s)
