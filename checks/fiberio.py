"""Blocking calls of fibers: socket and TLS calls, full transfers, files, sleep, thread calls."""
from fw import *
from sync import fld, calls, is_next
from fiber import CUR, TLS, is_tls, is_cur, one
from sockio import uniq, segs_of, L, bitknown, anyset, clr
from fw import _slots

WAITS = ('__kfiber_wait', '__kfiber_wait_release'); WAKE = ('kfiber_wakeup', 'kfiber_wakeup_release')
CFGS = ('epoll', 'ndebug')
def waits(s): return [e for e in s.flat() if is_call(e, *WAITS)]
def nextval(ctx, e, b, t):
    """the value of term t (over the values at the start of an iteration) in the next iteration"""
    m = {}
    for slot, (v0, v1) in slotvals(ctx, e, b).items():
        w = e.inst.wsym[slot]
        m[w] = v1
    return subst(t, m)
def widened(ctx, e, b):
    """every loop-carried value of this iteration is arbitrary (not the first one)"""
    return all(v0 is e.inst.wsym[slot] or v1 is v0 for slot, (v0, v1) in slotvals(ctx, e, b).items())
def cell_same(a, b):
    """same value, or two readings of the same memory cell"""
    return a is b or decode(a) is not None and decode(a) == decode(b)
def wakes(ctx, cb, fiber, got, rule='wake-callback'):
    """callback `cb` wakes exactly its fiber once with the result it was given; fiber/got: function(args) -> term"""
    S = ctx.run(cb, opaque=WAKE + (CUR, TLS)); a = ctx.args
    for s in S:
        w = [e for e in s.flat() if is_call(e, *WAKE)]
        ok = len(w) == 1 and w[0].args[0] is fiber(a) and same(s.final.facts, w[0].args[-1], got(a)) and s.const(s.ret) == ctx.p.enum('kev_fiber_ok')
        ctx.ob(rule, cb, ok, 'a completed operation must wake its own fiber exactly once with its own result', s)
    return S
def suspended(ctx, fn, s, st, fiber, obj=None, kev=True, tag=''):
    """after a start `st`: completed at once -> the result left by the waker, otherwise exactly one wait whose result is returned; returns the result term"""
    w = waits(s); RV = ctx.off('_kfiber', 'retval'); F = s.final.facts
    now = same(F, st.ret, C(ctx.p.enum('kev_fiber_ok'))) if kev else False
    ctx.ob('suspend-once', fn + tag, len(w) == (0 if now else 1) and all(x.args[0] is fiber and index_of(s.flat(), x) > index_of(s.flat(), st) for x in w), 'the fiber must wait exactly once for an operation that has not completed, and not at all for one that has', s)
    if now: return final(ctx, s, fiber, RV, 4)
    if not w: return None
    if len(w[0].args) > 1 and obj is not None: ctx.ob('suspend-object', fn + tag, obj(w[0]), 'the fiber must wait for the object it is woken with', s)
    return w[0].ret
def result(ctx, fn, s, r, tag=''):
    F = s.final.facts
    ok = r is not None and (s.ret is r or decode(r) is not None and decode(s.ret) == decode(r) or same(F, s.ret, r))
    ctx.ob('suspend-result', fn + tag, ok, 'the call must return the result of its own operation', s)

# ------------------------------------------------------------------ sockets
def net(ctx):
    l = L(ctx)
    for cfg in CFGS:
        ctx.cfg = cfg; tag = '' if cfg == 'epoll' else '@release'
        RV = ctx.off('_kfiber', 'retval'); ARG = ctx.off('_kfiber', 'arg')
        cbs = set()
        for fn, start in (('kfiber_net_writev', 'selectable_write'), ('kfiber_net_readv', 'selectable_read')):
            S = ctx.run(fn, opaque=(start, CUR, TLS) + WAITS); cn, buf, bc = ctx.args; seen = set()
            for s in S:
                st = calls(s, start); F = s.final.facts
                fl = initial(cn, l.flg)
                if not st:
                    seen.add('pending')
                    ok = start == 'selectable_read' and nonnull(F, t_bit('and', fl, C(l.STF_READ), 32)) and len(waits(s)) == 1 and s.ret is waits(s)[0].ret
                    w = waits(s)
                    v = at(ctx, w[0], cn, l.buf[l.OP_READ], 8) if w else None
                    ok = ok and v is not None and at(ctx, w[0], v, 0, 8) is buf and same(w[0].snap.facts, at(ctx, w[0], v, 8, 8), bc)
                    ctx.ob('io-start', fn + tag, ok, 'only a read that is still pending may be waited for without starting one, and it goes on with the caller\'s buffers', s); continue
                if not ctx.ob('io-start', fn + tag, len(st) == 1, 'one operation per call', s): continue
                seen.add('start'); e = st[0]; v = e.args[2]
                ok = e.args[0] is cn and e.args[1].op == 'f' and at(ctx, e, v, 0, 8) is buf and same(F, at(ctx, e, v, 8, 8), bc) and is_cur(e.args[3])
                if start == 'selectable_read': ok = ok and isnull(F, t_bit('and', fl, C(l.STF_READ), 32))
                ctx.ob('io-start', fn + tag, ok, 'the operation must be started on this socket with the caller\'s buffers, for the calling fiber', s)
                if e.args[1].op == 'f': cbs.add(e.args[1].args[0])
                r = suspended(ctx, fn, s, e, e.args[3], lambda w: decode(w.args[1]) == (cn, l.data), True, tag)
                result(ctx, fn, s, r, tag)
            ctx.ob('io-cases', fn + tag, 'start' in seen and (fn.endswith('writev') or 'pending' in seen), 'found %s' % seen)
        for fn, inner in (('kfiber_net_write', 'kfiber_net_writev'), ('kfiber_net_read', 'kfiber_net_readv')):
            S = ctx.run(fn, opaque=(inner, CUR, TLS) + WAITS); cn, buf, ln = ctx.args
            for s in S:
                c = one(calls(s, inner))
                ok = c is not None and c.args[0] is cn and s.const(c.args[2]) == 1 and at(ctx, c, c.args[1], 0, 8) is buf and same(s.final.facts, at(ctx, c, c.args[1], 8, 8), ln) and s.ret is c.ret
                ctx.ob('io-start', fn + tag, ok, 'the call transfers exactly the caller\'s buffer', s)
        # connect
        fn = 'kfiber_net_connect'; S = ctx.run(fn, opaque=('kconnection_half_connect', 'kconnection_connect', 'selectable_bind', CUR, TLS) + WAITS); c, ba, tp = ctx.args; seen = set()
        for s in S:
            F = s.final.facts; hc = one(calls(s, 'kconnection_half_connect')); kc = calls(s, 'kconnection_connect'); bd = calls(s, 'selectable_bind')
            if not ctx.ob('io-start', fn + tag, hc is not None and hc.args == (c, ba, tp), 'the socket is created once, for the caller\'s addresses', s): continue
            okc = truth(F, hc.ret); seen.add(okc)
            if okc is False:
                ctx.ob('io-start-fail', fn + tag, not kc and not waits(s) and s.const(s.ret) == -1, 'a connect that cannot start must fail without waiting', s); continue
            ok = len(kc) == 1 and kc[0].args[0] is c and kc[0].args[1].op == 'f' and is_cur(kc[0].args[2]) and len(bd) == 1 and is_tls(bd[0].args[1]) and index_of(s.flat(), bd[0]) < index_of(s.flat(), kc[0])
            if not ctx.ob('io-start', fn + tag, ok, 'the connect runs on the fiber\'s loop and wakes the fiber', s): continue
            cbs.add(kc[0].args[1].args[0])
            r = suspended(ctx, fn, s, kc[0], kc[0].args[2], lambda w: decode(w.args[1]) == (c, l.data), True, tag)
            result(ctx, fn, s, r, tag)
        ctx.ob('io-cases', fn + tag, seen == {True, False}, 'found %s' % seen)
        # accept
        fn = 'kfiber_net_accept'; ACC = 'kserver_selectable_accept'; NEW = 'accept_result_new_connection'
        S = ctx.run(fn, opaque=(ACC, NEW, 'selectable_bind', CUR, TLS) + WAITS); ss, out = ctx.args; seen = set()
        for s in S:
            F = s.final.facts; a = one(calls(s, ACC))
            if not ctx.ob('io-start', fn + tag, a is not None and a.args[0] is ss and is_cur(a.args[1]), 'one accept, for the calling fiber', s): continue
            okc = truth(F, a.ret)
            if okc is False:
                seen.add(False); ctx.ob('io-start-fail', fn + tag, not waits(s) and s.const(s.ret) == -1 and not calls(s, NEW), 'an accept that cannot start must fail without waiting', s); continue
            seen.add(True)
            r = suspended(ctx, fn, s, a, a.args[1], lambda w: w.args[1] is ss or decode(w.args[1]) == (ss, l.data), False, tag)
            n = one(calls(s, NEW)); w = waits(s)
            ok = n is not None and w and n.args[0] is ss and (n.args[1] is w[0].ret or decode(n.args[1]) == (a.args[1], RV)) and index_of(s.flat(), n) > index_of(s.flat(), w[0]) and [x.args[2] for x in stores(s.events, out, 0)][-1:] == [n.ret]
            ctx.ob('accept-new', fn + tag, bool(ok), 'the accepted socket becomes the caller\'s connection', s)
            if n is not None:
                bd = calls(s, 'selectable_bind'); nn = truth(F, n.ret); seen.add('new' if nn else 'none')
                ctx.ob('accept-result', fn + tag, nn is not None and s.const(s.ret) == (0 if nn else -1), 'an accept succeeds exactly if it gives a connection', s)
                ctx.ob('accept-bind', fn + tag, len(bd) == (1 if nn else 0) and all(x.args[0] is n.ret and (decode(x.args[1]) == (ss, l.sel) or is_tls(x.args[1])) for x in bd), 'an accepted connection belongs to the fiber\'s loop', s)
        ctx.ob('io-cases', fn + tag, seen == {True, False, 'new', 'none'}, 'found %s' % seen)
        # TLS handshake / shutdown
        SSL = ctx.off('kselectable_s', 'ssl')
        def may_skip(s, c):
            F = s.final.facts; ss = initial(c, SSL)
            return isnull(F, ss) or bitknown(ctx, F, None, ss, 'handshake') is False or bitknown(ctx, F, None, ss, 'shutdown') is True or isnull(F, initial(c, l.sel)) or anyset(F, initial(c, l.flg), l.STF_ERR)
        for fn, start in (('kfiber_ssl_handshake', 'kselectable_ssl_handshake'), ('kfiber_ssl_shutdown', 'kselectable_ssl_shutdown')):
            S = ctx.run(fn, opaque=(start, CUR, TLS) + WAITS); c = ctx.args[0]; n = 0
            for s in S:
                st = calls(s, start)
                if not st:
                    ctx.ob('tls-start', fn + tag, fn.endswith('shutdown') and not waits(s), 'nothing is waited for without an operation', s)
                    if fn.endswith('shutdown'):
                        ctx.ob('tls-close', fn + tag, may_skip(s, c), 'an established TLS session of a sound connection on a loop is always closed properly', s)
                    continue
                n += 1; e = st[0]
                ok = len(st) == 1 and e.args[0] is c and e.args[1].op == 'f' and is_cur(e.args[2]) and at(ctx, e, e.args[2], ARG) is c
                if not ctx.ob('tls-start', fn + tag, ok, 'one TLS operation, on this connection, for the calling fiber', s): continue
                if fn.endswith('shutdown'):
                    F = e.snap.facts; ss = initial(c, SSL)
                    ok = nonnull(F, ss) and bitknown(ctx, F, None, ss, 'handshake') is True and bitknown(ctx, F, None, ss, 'shutdown') is False and clr(F, initial(c, l.flg), l.STF_ERR)
                    ctx.ob('tls-close', fn + tag, ok, 'only an established, not yet closed TLS session of a sound connection is closed', s)
                    ctx.ob('tls-close', fn + tag, any(x.kind == 'st' and decode(x.args[0]) == (c, SSL) and x.args[1] == ctx.p.bitfield('kssl_session', 'shutdown')[0] // 8 and nonnull(s.final.facts, t_bit('and', x.args[2], C(1 << ctx.p.bitfield('kssl_session', 'shutdown')[0] % 8), 8)) for x in s.flat()), 'a closed TLS session is marked closed', s)
                r = suspended(ctx, fn, s, e, e.args[2], None, True, tag)
                if fn.endswith('handshake'): result(ctx, fn, s, r, tag)
                cb = e.args[1].args[0]
                S2 = ctx.run(cb, opaque=WAKE + (start, CUR, TLS)); a2 = ctx.args; got = set()
                for s2 in S2:
                    w = [x for x in s2.flat() if is_call(x, *WAKE)]; m = calls(s2, start); g = a2[2]; F2 = s2.final.facts
                    if not ctx.ob('tls-step', cb + tag, len(w) + len(m) == 1, 'every step either wakes the fiber or continues', s2): continue
                    if w:
                        v = s2.const(w[0].args[-1]); ok = w[0].args[0] is a2[1] and (v == -1 and same(F2, g, C(-1)) or v == 0 and same(F2, g, C(1))) and s2.const(s2.ret) == ctx.p.enum('kev_fiber_ok'); got.add(v)
                        ctx.ob('tls-result', cb + tag, ok, 'failure (-1) and success (0) are reported truthfully to the waiting fiber', s2)
                    else:
                        got.add('more'); ok = differs(F2, g, C(-1)) and differs(F2, g, C(1)) and decode(m[0].args[0]) == (a2[1], ARG) and m[0].args[1].op == 'f' and m[0].args[1].args[0] == cb and m[0].args[2] is a2[1] and s2.ret is m[0].ret
                        ctx.ob('tls-step', cb + tag, ok, 'an unfinished operation continues on the same connection for the same fiber', s2)
                ctx.ob('io-cases', cb + tag, got == {-1, 0, 'more'}, 'found %s' % got)
            ctx.ob('io-cases', fn + tag, n > 0, 'never started')
        # closing: the connection is freed once, after the TLS shutdown
        fn = 'kfiber_net_close'; S = ctx.run(fn, opaque=('kselectable_ssl_shutdown', 'kconnection_real_destroy', CUR, TLS) + WAITS); c = ctx.args[0]
        for s in S:
            d = calls(s, 'kconnection_real_destroy'); after = s.flat()[index_of(s.flat(), d[0]) + 1:] if d else []
            ctx.ob('tls-close', fn + tag, bool(calls(s, 'kselectable_ssl_shutdown')) or may_skip(s, c), 'an established TLS session of a sound connection on a loop is always closed properly', s)
            ctx.ob('close-once', fn + tag, len(d) == 1 and d[0].args[0] is c and not [x for x in after if x.kind in ('st', 'icall', 'call')], 'a closed connection is freed exactly once, at the end', s)
        fn = 'kfiber_net_shutdown'; SH = ('shutdown', 'ksocket_shutdown'); S = ctx.run(fn, opaque=('kselectable_ssl_shutdown', CUR, TLS) + WAITS); c = ctx.args[0]
        for s in S:
            ev = s.flat(); d = [e for e in ev if is_call(e, 'shutdown')]; t = calls(s, 'kselectable_ssl_shutdown')
            ok = len(d) == 1 and decode(d[0].args[0]) == (c, l.fd) and s.const(d[0].args[1]) == 2 and same(s.final.facts, s.ret, d[0].ret) and all(index_of(ev, x) < index_of(ev, d[0]) for x in t + waits(s))
            ctx.ob('tls-close', fn + tag, bool(t) or may_skip(s, c), 'an established TLS session of a sound connection on a loop is always closed properly', s)
            ctx.ob('shutdown-last', fn + tag, ok, 'the socket is shut down both ways exactly once, after the TLS session, and that result is returned', s)
        ctx.ob('io-cases', fn + tag, {bool(calls(s, 'kselectable_ssl_shutdown')) for s in S} == {True, False}, 'with and without TLS')
        for cb in cbs: wakes(ctx, cb, lambda a: a[1], lambda a: a[2])
        full(ctx, tag)
    ctx.cfg = 'epoll'
def full(ctx, tag):
    """full transfers: every byte in order, the rest is what remains"""
    for fn, inner, b in (('kfiber_net_write_full', 'kfiber_net_write', 1), ('kfiber_net_read_full', 'kfiber_net_read', 1), ('kfiber_file_write_full', 'kfiber_file_write', 1), ('kfiber_file_read_full', 'kfiber_file_read', 1), ('kfiber_sendfile_full', 'kfiber_sendfile', 1)):
        onesided(ctx, fn, inner, tag)
    vectored(ctx, tag)
def onesided(ctx, fn, inner, tag):
    S = ctx.run(fn, opaque=(inner,), backedge=True); obj, buf, ln = ctx.args; hasbuf = 'sendfile' not in fn
    nstep = 0; outs = set(); firsts = 0
    for s in S:
        for e, flat_, g, b in segs_of(s.events):
            c = [x for x in flat_ if is_call(x, inner)]
            if b is None: continue
            if not ctx.ob('full-once', fn + tag, len(c) == 1, 'one transfer per round', s): continue
            c = c[0]; got = c.ret; F = b.snap.facts; la = c.args[2]
            ctx.ob('full-target', fn + tag, c.args[0] is obj and (hasbuf or c.args[1] is buf), 'always the caller\'s object', s)
            ctx.ob('full-progress', fn + tag, lt(F, ZERO, got) is True, 'only a transfer that made progress is continued', s)
            if not widened(ctx, e, b): continue
            nstep += 1
            if hasbuf: ctx.ob('full-advance', fn + tag, pdiff(nextval(ctx, e, b, c.args[1]), c.args[1]) is got, 'the next transfer starts right behind the last one', s)
            n1 = nextval(ctx, e, b, la)
            if n1 is la: n1 = ctx.e.load_snap(b.snap, ptradd(*decode(la)), 4, None) if decode(la) else la
            ctx.ob('full-remaining', fn + tag, cell_same(add(n1, got), la), 'the next transfer asks for exactly what remains', s)
        tops = [x for x in s.events if is_call(x, inner)]
        r = truth(s.final.facts, s.ret); outs.add(r)
        rest = final(ctx, s, ln, 0, 4)
        ctx.ob('full-verdict', fn + tag, r is not None and (lt(s.final.facts, ZERO, rest) is False if r else bool(tops) and lt(s.final.facts, ZERO, tops[-1].ret) is False), 'success means nothing remains, failure that a transfer failed', s)
        if r is False and tops:
            ctx.ob('full-left', fn + tag, cell_same(rest, tops[-1].args[2]), 'the caller learns how much was not transferred', s)
        lo = [x for x in s.events if x.kind == 'loop'] + tops
        if tops and not [x for x in s.events if x.kind == 'loop']:
            firsts += 1
            ctx.ob('full-first', fn + tag, (not hasbuf or tops[0].args[1] is buf) and tops[0].args[2] is initial(ln, 0), 'the first transfer starts at the caller\'s buffer with the whole length', s)
        for x in s.events:
            if x.kind != 'loop': continue
            for g in x.inst.seglist:
                c = [y for y in g if is_call(y, inner)]
                if c and not any(t in x.inst.wsym.values() for a in c[0].args for t in [a] + list(a.syms)):
                    firsts += 1; ctx.ob('full-first', fn + tag, (not hasbuf or c[0].args[1] is buf) and c[0].args[2] is initial(ln, 0), 'the first transfer starts at the caller\'s buffer with the whole length', s)
    ctx.ob('full-cases', fn + tag, nstep > 0 and outs == {True, False} and firsts > 0, 'found %d steps, %s' % (nstep, outs))
def seekloop(ctx, fn, e, s, tag):
    """a loop that advances an array of buffers by `off` bytes: returns (advance count, off slot start term)"""
    full_ = part = 0; offs = set()
    for _, flat_, g, b in segs_of([e]):
        if b is None: continue
        F = b.snap.facts; sv = slotvals(ctx, e, b)
        full_ += 1
        # the buffer that was passed: the pointer slot that moves by one element
        mv = [(v0, v1) for v0, v1 in sv.values() if pdiff(v1, v0) is C(16)]
        if not ctx.ob('seek-step', fn + tag, len(mv) == 1 and not [x for x in flat_ if x.kind == 'st' and ptr_root(x.args[0]) is ptr_root(mv[0][0])], 'a used up buffer is skipped unchanged', s): continue
        p = mv[0][0]
        lens = [t for t in set(x for v0, v1 in sv.values() for x in v1.syms) if decode(t) and ptr_split(ptradd(*decode(t))) == ptr_split(ptradd(p, 8))]
        od = [(v0, v1) for v0, v1 in sv.values() if lens and any(sub(v0, v1) is t for t in lens)]
        if not ctx.ob('seek-step', fn + tag, len(od) == 1, 'a used up buffer takes its whole length off the rest', s): continue
        off = od[0][0]; L_ = sub(off, od[0][1])
        ctx.ob('seek-step', fn + tag, lt(F, off, L_) is False, 'only a buffer that was used up completely is skipped', s)
        cnt = [x for x in flat_ if x.kind == 'st' and sub(x.args[2], C(-1)) is not None and offset_of(add(x.args[2], ONE), x.args[0], x.args[1]) and offset_of(add(x.args[2], ONE), x.args[0], x.args[1])[1] == 0] + [1 for v0, v1 in sv.values() if sub(v1, v0) is C(-1)]
        ctx.ob('seek-count', fn + tag, len(cnt) >= 1, 'one buffer less remains', s)
        offs.add(off)
    return full_, offs
def partial(ctx, fn, s, evs, F, tag):
    """the buffer used partly: shortened from the front by the same amount; returns the amount"""
    ls = [x for x in evs if x.kind == 'st' and (d := decode_len(x)) is not None]
    out = []
    for x in ls:
        off = decode_len(x); base, o = x.args[0], x.args[1] - 8
        ps = [y for y in evs if y.kind == 'st' and y.args[0] is base and y.args[1] == o]
        ok = len(ps) == 1
        if ok:
            r, k = ptrlin(ps[0].args[2]); ok = decode(r) == (base, o) and k is off
        # strictly less than the whole buffer
        lenv = add(x.args[2], off)
        ok = ok and lt(F, off, lenv) is True
        ctx.ob('seek-partial', fn + tag, ok, 'a partly used buffer is shortened from the front by exactly what was used', s)
        out.append(off)
    return out
def decode_len(x):
    """off when the store is cell := old cell - off"""
    b, o, v = x.args
    if v.op != 'lin': return None
    for t, c in v.args[1]:
        if c == 1 and decode(t) == (b, o):
            off = sub(t, v)
            if not isc(off): return off
    return None
def vectored(ctx, tag):
    for fn in ('kgl_iovec_seek', 'kfiber_net_writev_full'):
        inner = 'kfiber_net_writev'
        S = ctx.run(fn, opaque=(inner,), backedge=True); npart = nfull = 0; A = ctx.args; nouter = 0
        for s in S:
            loops = []
            def visit(evs):
                for e in evs:
                    if e.kind == 'loop':
                        loops.append(e)
                        for g in e.inst.seglist: visit(g)
            visit(s.events)
            for e in loops:
                segs = list(segs_of([e])); own = [x for x in segs if x[0] is e]
                if any(is_call(y, inner) for x in own for y in x[1]):      # the outer loop of full transfers
                    for le, flat_, g, b in own:
                        if b is None or not widened(ctx, le, b): continue
                        nouter += 1; c = one([y for y in flat_ if is_call(y, inner)])
                        if not ctx.ob('full-once', fn + tag, c is not None, 'one transfer per round', s): continue
                        ctx.ob('full-target', fn + tag, c.args[0] is A[0], 'always the caller\'s connection', s)
                        ctx.ob('full-progress', fn + tag, lt(b.snap.facts, ZERO, c.ret) is True, 'only a transfer that made progress is continued', s)
                        tot = [1 for v0, v1 in slotvals(ctx, le, b).values() if sub(v1, v0) is c.ret]
                        ctx.ob('full-total', fn + tag, len(tot) == 1, 'the total grows by exactly what was transferred', s)
                        cb = decode(c.args[2]); ctx.ob('full-target', fn + tag, cb == (A[2], 0) and (c.args[1] is A[1] or c.args[1] in le.inst.wsym.values()), 'the remaining buffers are transferred', s)
                        for x in flat_:
                            pass
                elif own:
                    n, offs = seekloop(ctx, fn, e, s, tag); nfull += n
            # partial steps: in any straight segment
            def parts(evs, F):
                k = 0
                sts = [e for e in evs if e.kind != 'loop']
                k += len(partial(ctx, fn, s, sts, F, tag))
                for e in evs:
                    if e.kind == 'loop':
                        for g in e.inst.seglist: k += parts(g, [x for x in g if x.kind == 'back'][-1].snap.facts if any(x.kind == 'back' for x in g) else F)
                return k
            npart += parts(s.events, s.final.facts)
            if fn == 'kfiber_net_writev_full':
                tops = [x for x in s.events if is_call(x, inner)]
                rest = final(ctx, s, A[2], 0, 4)
                ok = bool(tops) and lt(s.final.facts, ZERO, tops[-1].ret) is False or lt(s.final.facts, ZERO, rest) is False
                ctx.ob('full-verdict', fn + tag, ok, 'the call ends only when nothing remains or a transfer failed', s)
                outer = [e for e in s.events if e.kind == 'loop']
                ok = s.const(s.ret) == 0 and not outer or any(s.ret in e.inst.wsym.values() and all(sub(v1, v0) is c.ret for le, fl, g, b in segs_of([e]) if b is not None and le is e and widened(ctx, le, b) for c in [one([y for y in fl if is_call(y, inner)])] if c is not None for v0, v1 in [slotvals(ctx, le, b)[next(k for k, w in e.inst.wsym.items() if w is s.ret)]]) for e in outer)
                ctx.ob('full-total', fn + tag, ok, 'the total is returned', s)
        ctx.ob('full-cases', fn + tag, npart > 0 and nfull > 0 and (nouter > 0 or fn == 'kgl_iovec_seek'), 'found %d %d %d' % (npart, nfull, nouter))
