"""Socket I/O: completion contract, epoll registration and dispatch, ready list, idle timeouts, timers."""
from fw import *
import absint, itertools
from sync import fld, calls, is_next
from terms import t_bit, t_zext

RE, WE = 'selectable_read_event', 'selectable_write_event'
TLS = 'kgl_get_tls_selector'
MOD = 'kgl_selector_module.'
def one(l): return l[0] if len(l) == 1 else None
def clr(F, v, m): return isnull(F, t_bit('and', v, C(m), 32))
def anyset(F, v, m): return nonnull(F, t_bit('and', v, C(m), 32))
def allset(F, v, m): return all(anyset(F, v, 1 << i) for i in range(31) if m >> i & 1)

class L:
    """layout of a selectable"""
    def __init__(s, ctx):
        k = 'kselectable_s'
        s.fd, s.data, e = fld(ctx, k, 'fd', 'data', 'e')
        n = ctx.p.sizeof('kgl_event')
        ea, er, eb = fld(ctx, 'kgl_event', 'arg', 'result', 'buffer')
        s.arg = [e + i * n + ea for i in (0, 1)]; s.res = [e + i * n + er for i in (0, 1)]; s.buf = [e + i * n + eb for i in (0, 1)]
        s.sel = ctx.off('kgl_base_selectable', 'selector'); s.flg = ctx.off('kgl_base_selectable', 'st_flags')
        s.ms = ctx.off(k, 'active_msec')
        names = ['STF_READ', 'STF_WRITE', 'STF_RDHUP', 'STF_SENDFILE', 'STF_REV', 'STF_WEV', 'STF_ET', 'STF_ERR', 'STF_RREADY', 'STF_WREADY', 'STF_RREADY2', 'STF_WREADY2', 'STF_RTIME_OUT', 'STF_UDP', 'STF_FIBER',
                 'KGL_LIST_CONNECT', 'KGL_LIST_RW', 'KGL_LIST_READY', 'KGL_LIST_COUNT', 'OP_READ', 'OP_WRITE']
        for n_, v in ir.macro_values(names, ['"kselectable.h"']).items(): setattr(s, n_, v)
        s.list = ctx.off('kselector_s', 'list'); s.lsz = ctx.p.sizeof('kgl_list_s'); s.count = ctx.off('kselector_s', 'count'); s.cur = ctx.off('kselector_s', 'current')
        s.tmo = ctx.off('kselector_s', 'timeout')
    def head(s, sel, i): return ptradd(sel, s.list + i * s.lsz)
    def flags(s, ctx, ev, st): return at(ctx, ev, st, s.flg, 4)

def is_sel(t, sel):
    if t is sel or sel is None: return True
    return t.op == 'sym' and t.args[0] == 'ret' and str(t.args[1]).startswith((TLS + '@', 'pthread_getspecific@'))
def inlist(l, events, node, sel, which=None):
    """times `node` is spliced at the tail of a list of loop `sel`"""
    n = 0
    for x, a, v, e in linked(events):
        if x is not node: continue
        b, o = ptr_split(v)
        for i in range(l.KGL_LIST_COUNT) if which is None else [which]:
            h = l.list + i * l.lsz
            if v is l.head(sel, i) or o == h and is_sel(b, sel): n += 1
    return n
def module(ctx, initfn='kepoll_module_init'):
    """{slot: function} of the event-loop back end an init function installs"""
    S = ctx.run(initfn)
    out = {}
    names = ('init', 'destroy', 'bind', 'listen', 'accept', 'connect', 'remove', 'read', 'write', 'readhup', 'remove_readhup', 'select', 'next', 'aio_open', 'aio_write', 'aio_read', 'sendfile')
    for s in S:
        g = mk('g', 'kgl_selector_module')
        for n in names:
            v = final(ctx, s, g, ctx.off('kselector_module', n))
            if v.op != 'f':      # copied from a constant table
                src = [e.args[1] for e in s.flat() if e.kind in ('memcpy', 'memmove') and e.args[0] is g]
                if src and src[-1].op == 'g': v = ctx.e.ginit(src[-1].args[0], ctx.off('kselector_module', n)) or v
            if v is not None and v.op == 'f': out[n] = v.args[0]
    return out

IO = {'readv', 'writev', 'read', 'write', 'recv', 'send', 'recvmsg', 'sendmsg', 'sendfile', 'SSL_sendfile', 'kgl_ssl_readv', 'kgl_ssl_writev', 'SSL_read', 'SSL_write', 'SSL_read_early_data', 'SSL_write_early_data', 'kgl_ssl_sendfile'}
SYS_IO = {'readv', 'writev', 'recvmsg', 'sendfile'}
ERRNO = mk('g', 'errno')

def plain(ctx, l, e, st):
    """no TLS session, or its handshake is not done: True / False / None (not known)"""
    F = e.snap.facts; ss = initial(st, ctx.off('kselectable_s', 'ssl'))
    if isnull(F, ss): return True
    if not nonnull(F, ss): return None
    b = bitknown(ctx, F, e.snap, ss, 'handshake')
    return None if b is None else not b
def bitknown(ctx, F, snap, ss, name):
    """a flag of a TLS session: set / clear / not known"""
    bo, _ = ctx.p.bitfield('kssl_session', name)
    v = ctx.e.load_snap(snap, ptradd(ss, bo // 8), 1, None) if snap is not None else initial(ss, bo // 8)
    if isc(v): return bool(cv(v) >> bo % 8 & 1)
    for b in (t_bit('and', v, C(1 << bo % 8), 8), t_bit('and', mk('lshr', v, C(bo % 8), 8) if bo % 8 else v, ONE, 8)):
        if isnull(F, b): return False
        if nonnull(F, b): return True
def completion(ctx):
    """every path of the read/write event handlers: one delivery or one re-arm, after the pending mark is gone"""
    ctx.cfg = 'epoll'
    l = L(ctx)
    EAGAIN, EINTR, WANTR, WANTW = [ir.macro_values(['EAGAIN', 'EINTR'], ['<errno.h>'])[k] for k in ('EAGAIN', 'EINTR')] + [2, 3]
    KEEP = ('kgl_ssl_readv', 'kgl_ssl_writev')
    for fn, op, pend, ready in ((RE, l.OP_READ, l.STF_READ, l.STF_RREADY), (WE, l.OP_WRITE, l.STF_WRITE | l.STF_SENDFILE, l.STF_WREADY)):
        S = ctx.run(fn, opaque=KEEP); st = ctx.args[0]
        R, B, A, D = initial(st, l.res[op]), initial(st, l.buf[op]), initial(st, l.arg[op]), initial(st, l.data)
        sel = initial(st, l.sel); seen = set()
        for s in S:
            ev = s.flat()
            dl = [e for e in ev if e.kind == 'icall' and e.x is R]
            ra = [e for e in ev if e.kind == 'icall' and str(e.name).startswith(MOD) and e.name[len(MOD):] in ('read', 'write', 'sendfile')]
            io = [e for e in ev if e.kind == 'call' and e.name in IO]
            if not ctx.ob('io-once', fn, len(dl) + len(ra) == 1, 'a ready operation must be completed or re-armed exactly once (completed %d, re-armed %d)' % (len(dl), len(ra)), s): continue
            e = (dl + ra)[0]; F = e.snap.facts
            ctx.ob('io-return', fn, s.ret is e.ret, 'the outcome of the completion must be returned', s)
            ctx.ob('io-after', fn, not [x for x in ev[index_of(ev, e) + 1:] if x.kind in ('st', 'uaf', 'icall') or x.kind == 'call' and x.name in IO], 'nothing of the socket may be touched after its callback ran', s)
            fl = l.flags(ctx, e, st)
            lt_mode = fn == RE and clr(F, initial(st, l.flg), l.STF_ET)
            ctx.ob('io-pending', fn, clr(F, fl, pend) or lt_mode, 'the operation must no longer be marked pending when its callback runs or it is re-armed', s)
            for x in io:
                fd = x.args[0]
                if x.name in KEEP or x.name in ('readv', 'writev'): ctx.ob('io-layer', fn, plain(ctx, l, x, st) is (x.name in SYS_IO), 'data of an established TLS connection passes through TLS, and only that', s)
                if x.name == 'sendfile': ctx.ob('io-layer', fn, plain(ctx, l, x, st) is True, 'a file is never sent unencrypted over a TLS connection', s)
                if x.name in SYS_IO:
                    ok = fd is initial(st, l.fd)
                    if x.name in ('readv', 'writev'): ok = ok and x.args[1] is initial(B, 0) and x.args[2] is initial(B, 8)
                    ctx.ob('io-args', fn, ok, 'the system call must use the socket and the caller\'s buffers', s)
                elif x.name in KEEP:
                    ctx.ob('io-args', fn, x.args[1] is initial(B, 0) and x.args[2] is initial(B, 8), 'the TLS transfer must use the caller\'s buffers', s)
            g = io[-1] if io else None
            sslerr = [x for x in ev if is_call(x, 'SSL_get_error')]
            if dl:
                seen.add('done')
                ctx.ob('io-deliver', fn, e.args[0] is D and e.args[1] is A, 'the callback must get the socket\'s and its own argument', s)
                got = e.args[2]
                if g is None:
                    ok = isc(got) and (cv(got) == 0 and isnull(F, B) or cv(got) < 0 and fn == WE and anyset(F, initial(st, l.flg), l.STF_ERR))
                    ctx.ob('io-got', fn, ok, 'without a transfer only an empty request (0) or a failed socket (error) may be reported', s)
                else:
                    neg = lt(F, g.ret, ZERO)
                    ok = got is g.ret if neg is not True else (got is g.ret or isc(got) and cv(got) < 0)
                    ctx.ob('io-got', fn, ok, 'the callback must get the byte count, or an error', s)
                    if neg is True:
                        seen.add('error')
                        if sslerr: again = not all(differs(F, x.ret, C(w)) for x in sslerr for w in ((WANTR if fn == RE else WANTW),))
                        else: again = not differs(F, at(ctx, e, ERRNO, 0, 4), C(EAGAIN))
                        ctx.ob('io-again', fn, not again, 'would-block must not be reported as an error', s)
            else:
                seen.add('again')
                want = MOD + ('read' if fn == RE else 'sendfile' if g is not None and 'sendfile' in g.name else 'write')
                a = e.args if e.name.endswith('sendfile') else e.args[1:]
                ok = e.name == want and a[0] is st and a[1] is R and a[2] is B and a[3] is A and (e.name.endswith('sendfile') or e.args[0] is sel)
                ctx.ob('io-rearm', fn, ok, 'the re-armed operation must keep its callback, buffer and argument', s)
                ctx.ob('io-ready', fn, clr(F, fl, ready), 'a socket that would block must not stay marked ready', s)
                ok = g is not None and lt(F, g.ret, ZERO) is True
                er = at(ctx, e, ERRNO, 0, 4)
                ok = ok and (same(F, er, C(EAGAIN)) or same(F, er, C(EINTR)) or any(same(F, x.ret, C(w)) for x in sslerr for w in (WANTR, WANTW)))
                ctx.ob('io-again', fn, ok, 'only would-block is waited for', s)
        ctx.ob('io-cases', fn, seen == {'done', 'error', 'again'}, 'found %s' % sorted(seen))
    # --- starting an operation
    for fn, op, nm in (('selectable_read', l.OP_READ, 'read'), ('selectable_write', l.OP_WRITE, 'write'), ('selectable_sendfile', l.OP_WRITE, 'sendfile')):
        S = ctx.run(fn, opaque=(RE, WE)); st, R, B, A = ctx.args; seen = set()
        for s in S:
            ev = s.flat()
            arm = [e for e in ev if e.kind == 'icall' and str(e.name).startswith(MOD)]
            now = [e for e in ev if is_call(e, RE, WE)]
            q = inlist(l, s.events, st, initial(st, l.sel), l.KGL_LIST_READY)
            dl = [e for e in ev if e.kind == 'icall' and e.x is R]
            if not ctx.ob('start-once', fn, len(arm) + len(now) + q + len(dl) == 1, 'an operation must be started exactly once', s): continue
            if arm:
                seen.add('arm'); e = arm[0]; a = e.args[1:] if nm != 'sendfile' else e.args
                ctx.ob('start-arm', fn, e.name == MOD + nm and a[0] is st and a[1] is R and a[2] is B and a[3] is A and (nm == 'sendfile' or e.args[0] is initial(st, l.sel)) and s.ret is e.ret, 'the operation must reach the event loop with its own callback, buffer and argument', s)
            elif not dl:
                seen.add('now')
                g = (lambda o, z=8: at(ctx, now[0], st, o, z)) if now else (lambda o, z=8: final(ctx, s, st, o, z))
                F = now[0].snap.facts if now else s.final.facts
                RD2 = l.STF_RREADY2 if op == l.OP_READ else l.STF_WREADY2; PD = l.STF_READ if op == l.OP_READ else l.STF_WRITE
                ctx.ob('start-now', fn, g(l.res[op]) is R and g(l.buf[op]) is B and g(l.arg[op]) is A and allset(F, g(l.flg, 4), RD2 | PD), 'data already decrypted must complete the operation with its own callback, buffer and argument', s)
                if now: ctx.ob('start-now', fn, s.ret is now[0].ret and now[0].name == (RE if op == l.OP_READ else WE) and now[0].args[0] is st, 'must be completed on this socket', s)
        ctx.ob('io-cases', fn, seen >= {'arm'}, 'found %s' % seen)
    # data pending in the TLS layer is never waited for
    S = ctx.run('selectable_read', opaque=(RE, WE)); st = ctx.args[0]
    for s in S:
        arm = [e for e in s.flat() if e.kind == 'icall' and str(e.name).startswith(MOD)]
        for e in s.flat():
            if is_call(e, 'SSL_pending') and arm: ctx.ob('start-pending', 'selectable_read', lt(s.final.facts, ZERO, e.ret) is False, 'data already decrypted must be delivered, not waited for', s)
    for fn, op, RD2, PD in (('selectable_next_read', l.OP_READ, l.STF_RREADY2, l.STF_READ), ('selectable_next_write', l.OP_WRITE, l.STF_WREADY2, l.STF_WRITE)):
        S = ctx.run(fn, opaque=(RE, WE)); st, R, A = ctx.args
        for s in S:
            g = lambda o, z=8: final(ctx, s, st, o, z)
            ok = g(l.res[op]) is R and g(l.arg[op]) is A and isnull(s.final.facts, g(l.buf[op])) and allset(s.final.facts, g(l.flg, 4), RD2 | PD) and inlist(l, s.events, st, initial(st, l.sel), l.KGL_LIST_READY) == 1
            ctx.ob('start-next', fn, ok, 'the callback must be queued to run once in the next turn of the loop', s)
    for ctx.cfg in ('epoll', 'ndebug', 'kbio'): gathered(ctx, l)
    for ctx.cfg in ('epoll', 'ndebug'): transfers(ctx, l)
    ctx.cfg = 'epoll'

def transfers(ctx, l):
    """the completion of a ready operation and the start of one, decided on every combination of kind of connection, marks, request and outcome of the transfer"""
    E_ = ir.macro_values(['EAGAIN', 'ECONNRESET'], ['<errno.h>']); AG, RST = E_['EAGAIN'], E_['ECONNRESET']
    WANT = {l.OP_READ: 2, l.OP_WRITE: 3}
    st, ses, ssl, iov, out, pc = (sym('al', n) for n in ('socket', 'session', 'ssl', 'buffer', 'request', 'pieces'))
    R, A, D, SEL = sym('cb', 'result'), sym('al', 'argument'), sym('al', 'data'), sym('al', 'loop')
    ctxoff, sslo = ctx.off('kssl_session', 'ssl'), ctx.off('kselectable_s', 'ssl')
    bits = {f: ctx.p.bitfield('kssl_session', f)[0] for f in ('handshake', 'in_early', 'shutdown')}
    B, LN = fld(ctx, 'iovec', 'iov_base', 'iov_len')
    def seed(op, flags, tls, empty, early=0, sendfile=False):
        def su(E, s):
            m = s.wmem()
            for x in (st, ses, ssl, iov, out, pc, R, A, D, SEL): assume(s.facts, t_eq(x, ZERO), False)
            m[(st, l.flg)] = (C(flags), 4, None); m[(st, l.sel)] = (SEL, 8, None); m[(st, l.data)] = (D, 8, None); m[(st, l.fd)] = (C(7), 4, None)
            m[(st, sslo)] = (ses if tls else ZERO, 8, None)
            m[(st, l.res[op])] = (R, 8, None); m[(st, l.arg[op])] = (A, 8, None); m[(st, l.buf[op])] = (ZERO if empty else out, 8, None)
            m[(out, B)] = (pc, 8, None); m[(out, LN)] = (C(9 if sendfile else 2), 8, None)
            if tls:
                w = {}
                for k in range(ctx.p.sizeof('kssl_session')): w[k] = 0
                for f, v in (('handshake', tls == 2), ('in_early', early)): w[bits[f] // 8] |= int(v) << (bits[f] % 8)
                for k, v in w.items():
                    if not ctxoff <= k < ctxoff + 8: m[(ses, k)] = (C(v), 1, None)
                m[(ses, ctxoff)] = (ssl, 8, None)
        return su
    # outcome of the transfer: (result, errno it leaves, SSL_get_error)
    for fn, op, pend in ((RE, l.OP_READ, l.STF_READ), (WE, l.OP_WRITE, l.STF_WRITE), (WE, l.OP_WRITE, l.STF_WRITE | l.STF_SENDFILE)):
        sf = bool(pend & l.STF_SENDFILE)
        for tls in (0, 1, 2):
            for extra in itertools.product((0, 1), repeat=3):
                et, rd2, err = extra
                if op == l.OP_WRITE and not et or op == l.OP_READ and err or sf and (rd2 or err): continue
                ready = l.STF_RREADY if op == l.OP_READ else l.STF_WREADY
                R2 = l.STF_RREADY2 if op == l.OP_READ else l.STF_WREADY2
                flags = pend | (l.STF_ET if et else 0) | (R2 if rd2 else 0) | (l.STF_ERR if err else 0) | ready | l.STF_RDHUP * (op == l.OP_WRITE)
                for empty in (0, 1) if not sf else (0,):
                    for got, eno, serr in ((5, 0, 0), (0, 0, 0), (-1, AG, None), (-1, RST, None), (-1, 0, WANT[op]), (-1, RST, 5), (-1, 0, 1)):
                        lay = 'TLS' if tls and (sf or tls == 2) else 'plain'
                        if got < 0 and (serr is None) != (lay == 'plain'): continue
                        if (empty or err) and got != 5: continue
                        def io(layer, name):
                            def f(E, s, fr, i, args, work):
                                s.wmem()[(ERRNO, 0)] = (C(eno), 4, None); r = C(got) if name not in ('sendfile', 'SSL_sendfile') else C(got)
                                fr.env[i['i']] = r; E.emit(s, 'call', 'move ' + layer, args, r, i, x=name); return None
                            return f
                        def geterr(E, s, fr, i, args, work):
                            fr.env[i['i']] = C(serr if serr is not None else 5); return None
                        mods = {n: io('plain', n) for n in ('readv', 'writev', 'read', 'write', 'recv', 'send', 'recvmsg', 'sendmsg', 'sendfile')}
                        mods.update({n: io('TLS', n) for n in ('kgl_ssl_readv', 'kgl_ssl_writev', 'SSL_read', 'SSL_write', 'SSL_sendfile')}); mods['SSL_get_error'] = geterr
                        P = ctx.e.run(fn, Cfg(havoc='none', cut=4, models=mods, opaque={'kgl_ssl_readv', 'kgl_ssl_writev', 'kgl_ssl_support_sendfile'}), setup=seed(op, flags, tls, empty, sendfile=sf), args=[st]); ctx.npaths += len(P)
                        nd = list(ctx.e.nullderefs)
                        w = '%s%s%s, %s%s' % ({0: 'no TLS', 1: 'TLS before its handshake', 2: 'TLS'}[tls], ', socket in error' if err else '', ', queued for this turn' if rd2 else '',
                                              'no buffer' if empty else 'send-file' if sf else 'buffers', '' if empty or err else ', transfer gives %d%s' % (got, '' if got >= 0 else ' (would block)' if AG == eno or serr == WANT[op] else ' (failed)'))
                        n = 0
                        for p in P:
                            if p.kind == 'cut': continue
                            n += 1; ev = p.flat(); F = p.final.facts
                            mv = [e for e in ev if e.kind == 'call' and str(e.name).startswith('move ')]
                            dl = [e for e in ev if e.kind == 'icall' and e.x is R]
                            ra = [e for e in ev if e.kind == 'icall' and str(e.name).startswith(MOD) and e.name[len(MOD):] in ('read', 'write', 'sendfile')]
                            if not ctx.ob('io-table', fn, len(dl) + len(ra) == 1, '%s: completed %d times, armed again %d times' % (w, len(dl), len(ra)), p): continue
                            e = (dl + ra)[0]
                            want = [] if empty or err else ['move ' + lay]
                            ctx.ob('io-table', fn, [x.name for x in mv] == want, '%s: %s' % (w, 'moved by %s' % [x.x for x in mv]), p)
                            if mv: ctx.ob('io-table', fn, ('sendfile' in mv[0].x) == sf and (mv[0].args[0] is (ses if lay == 'TLS' and not sf else ssl if lay == 'TLS' else C(7)) or isc(mv[0].args[0]) and lay == 'plain' and cv(mv[0].args[0]) == 7), '%s: data is moved by %s on another socket or of another kind' % (w, mv[0].x), p)
                            block = bool(mv) and got < 0 and (eno == AG or serr == WANT[op])
                            if ctx.ob('io-table', fn, bool(ra) == block, '%s: %s' % (w, 'armed again' if ra else 'completed'), p) and dl:
                                g = e.snap.subst_const(e.args[2]) if hasattr(e.snap, 'subst_const') else e.args[2]
                                g = cv(g) if isc(g) else None
                                if g is not None and g >= 1 << 31: g -= 1 << 32
                                ctx.ob('io-table', fn, g is not None and (g < 0 if err or mv and got < 0 else g == (0 if empty else got)), '%s: the callback is told %s' % (w, g), p)
                            fl = at(ctx, e, st, l.flg, 4); fl = cv(fl) if isc(fl) else None
                            if not ctx.ob('io-table', fn, fl is not None, '%s: the marks of the socket are lost' % w, p): continue
                            keep = op == l.OP_READ and not et
                            ctx.ob('io-table', fn, bool(fl & pend) == keep, '%s: the operation is %s pending when it completes' % (w, 'still' if not keep else 'not'), p)
                            if op == l.OP_READ or not (err or sf): ctx.ob('io-table', fn, not fl & R2 or err, '%s: the operation stays queued' % w, p)
                            if op == l.OP_WRITE: ctx.ob('io-table', fn, not fl & l.STF_RDHUP, '%s: a hang-up watch survives an operation' % w, p)
                            if ra: ctx.ob('io-table', fn, not fl & ready, '%s: the socket stays marked ready' % w, p)
                        ctx.ob('io-table', fn, n > 0 and not nd, '%s: %s' % (w, 'uses a pointer that is not there' if nd else 'does not end'))
    # --- starting
    for tls in (0, 1, 2):
        for early in (0, 1) if tls == 2 else (0,):
            for left in (0, 5) if tls == 2 else (0,):
                for marks in (0, l.STF_RDHUP | l.STF_ET | l.STF_REV):
                    def pending(E, s, fr, i, args, work):
                        fr.env[i['i']] = C(left) if args[0] is ssl else C(0); return None
                    P = ctx.e.run('selectable_read', Cfg(havoc='none', cut=4, models={'SSL_pending': pending}, opaque={RE, WE}), setup=seed(l.OP_WRITE, marks, tls, 0, early=early), args=[st, R, out, A]); ctx.npaths += len(P)
                    nd = list(ctx.e.nullderefs)
                    w = '%s%s%s' % ({0: 'no TLS', 1: 'TLS before its handshake', 2: 'TLS'}[tls], ', early data' if early else '', ', data already decrypted' if left else '')
                    n = 0
                    for p in P:
                        if p.kind == 'cut': continue
                        n += 1; ev = p.flat()
                        arm = [e for e in ev if e.kind == 'icall' and str(e.name).startswith(MOD)]
                        now = [e for e in ev if is_call(e, RE, WE)]
                        here = early or left
                        ctx.ob('start-table', 'selectable_read', bool(arm) == (not here), '%s: %s' % (w, 'waits for the socket' if arm else 'does not wait for the socket'), p)
                        if not arm:
                            g = (lambda o, z=8: at(ctx, now[0], st, o, z)) if now else (lambda o, z=8: final(ctx, p, st, o, z))
                            fl = g(l.flg, 4); fl = cv(fl) if isc(fl) else 0
                            ctx.ob('start-table', 'selectable_read', fl == (marks & ~l.STF_RDHUP | l.STF_READ | l.STF_RREADY2), '%s: marks %x become %x' % (w, marks, fl), p)
                    ctx.ob('start-table', 'selectable_read', n > 0 and not (nd and not tls), '%s: uses a pointer that is not there' % w)
    for fn, op, on in (('selectable_next_read', l.OP_READ, l.STF_READ | l.STF_RREADY2), ('selectable_next_write', l.OP_WRITE, l.STF_WRITE | l.STF_WREADY2)):
        for marks in (0, l.STF_RDHUP, l.STF_ET | l.STF_REV | l.STF_RREADY):
            P = ctx.e.run(fn, Cfg(havoc='none', cut=4, opaque={RE, WE}), setup=seed(op, marks, 0, 0), args=[st, R, A]); ctx.npaths += len(P); n = 0
            for p in P:
                if p.kind == 'cut': continue
                n += 1; fl = final(ctx, p, st, l.flg, 4); fl = cv(fl) if isc(fl) else 0
                ctx.ob('start-table', fn, fl == (marks & ~l.STF_RDHUP | on), 'marks %x become %x' % (marks, fl), p)
            ctx.ob('start-table', fn, n > 0, 'does not end')

def gathered(ctx, l):
    """the TLS transfer of a list of buffers: every call continues at the first byte not moved yet, nothing follows a short or failed call, and the result is what was moved"""
    sess, buf, ssl = sym('al', 'session'), sym('al', 'pieces'), sym('al', 'ssl')
    B, LN = fld(ctx, 'iovec', 'iov_base', 'iov_len'); n = ctx.p.sizeof('iovec')
    OK = ir.macro_values(['SSL_READ_EARLY_DATA_ERROR', 'SSL_READ_EARLY_DATA_SUCCESS', 'SSL_READ_EARLY_DATA_FINISH'], ['<openssl/ssl.h>'])
    bits = {f: ctx.p.bitfield('kssl_session', f) for f in ('in_early', 'early_preread', 'early_buf')}
    for fn, wr in (('kgl_ssl_writev', True), ('kgl_ssl_readv', False)):
        if fn not in ctx.p.funcs: continue
        for lens in ((7,), (5, 0, 9), (3, 4)):
            A = [sym('al', 'piece%d' % j) for j in range(len(lens))]; total = sum(lens)
            where = [(A[j], o) for j, ln in enumerate(lens) for o in range(ln)]
            for early in (0, 1):
                for pre in (0, 1) if early and not wr else (0,):
                    for script in itertools.product(('full', 'short', 'fail') + (('end',) if early and not wr else ()), repeat=3):
                        def su(E, st):
                            m = st.wmem()
                            for j, ln in enumerate(lens): m[(buf, n * j + B)] = (A[j], 8, None); m[(buf, n * j + LN)] = (C(ln), 8, None)
                            m[(sess, ctx.off('kssl_session', 'ssl'))] = (ssl, 8, None)
                            w = {}
                            for k in range(ctx.p.sizeof('kssl_session')): w[k] = 0
                            for f, v in (('in_early', early), ('early_preread', pre)):
                                bo, _ = bits[f]; w[bo // 8] |= v << (bo % 8)
                            w[bits['early_buf'][0] // 8] = 77
                            for k, v in w.items():
                                if not ctx.off('kssl_session', 'ssl') <= k < ctx.off('kssl_session', 'ssl') + 8: m[(sess, k)] = (C(v), 1, None)
                            st.user['s'] = (pre, 0, early, None)      # bytes moved, calls, early phase, what went wrong
                        def io(kind):
                            def f(E, st, fr, i, args, work):
                                pos, k, e, bad = st.user['s']; r = 'fail' if k >= len(script) else script[k]
                                p, ln = ptr_split(args[1]), args[2]
                                ln = cv(ln) if isc(ln) else -1
                                if bad is None:
                                    if args[0] is not ssl: bad = 'on another session'
                                    elif e == 2: bad = 'after a failed one'
                                    elif (kind == 'early') != (e == 1): bad = 'by the wrong call for the phase'
                                    elif not (0 < ln and pos + ln <= total and [(x, y) for x, y in where[pos:pos + ln]] == [(p[0], p[1] + y) for y in range(ln)]): bad = 'at another place than the first byte not moved yet'
                                if r == 'short' and ln < 2: r = 'full'
                                got = ln if r == 'full' else max(ln - 2, 1) if r == 'short' else 0
                                if r == 'end' and not (kind == 'early'): r, got = 'full', ln
                                if kind == 'early':
                                    q = ptr_split(args[3]); st.wmem()[q] = (C(got), 8, None)
                                    ret = C((OK['SSL_READ_EARLY_DATA_FINISH'] if r == 'end' else OK['SSL_READ_EARLY_DATA_SUCCESS'] if got else OK['SSL_READ_EARLY_DATA_ERROR']) if not wr else 1 if got else 0)
                                    if r == 'end': e = 0
                                else: ret = C(got) if got else C(-1)
                                if r == 'fail': e = 2
                                st.user['s'] = (pos + got, k + 1, e, bad); fr.env[i['i']] = ret
                                E.emit(st, 'call', 'TLS ' + kind, args, ret, i, x=st.user['s'])
                                return None
                            return f
                        mods = {'SSL_write': io('plain'), 'SSL_read': io('plain'), 'SSL_write_early_data': io('early'), 'SSL_read_early_data': io('early')}
                        P = ctx.e.run(fn, Cfg(cut=12, havoc='none', models=mods), setup=su, args=[sess, buf, C(len(lens))]); ctx.npaths += len(P)
                        for p in P:
                            last = [e for e in p.flat() if e.kind == 'call' and str(e.name).startswith('TLS ')]
                            pos, k, e, bad = last[-1].x if last else (pre, 0, early, None)
                            w = '%d pieces of %s, calls end %s%s%s' % (len(lens), lens, '/'.join(script), ', early data' if early else '', ', one byte already read' if pre else '')
                            ctx.ob('gather-order', fn, p.kind != 'cut' and bad is None, '%s: a transfer is made %s' % (w, bad), p)
                            r = p.const(p.ret)
                            r = r - (1 << 32) if r is not None and r >= 1 << 31 else r
                            ctx.ob('gather-count', fn, r is not None and (r == pos if pos else r < 0), '%s: %d bytes moved, the result says %s' % (w, pos, r), p)
                            ctx.ob('gather-order', fn, k > 0 or pos > 0, '%s: nothing is transferred' % w, p)
                            if pre:
                                v = final(ctx, p, A[0], 0, 1)
                                ctx.ob('gather-early', fn, p.const(v) == 77 and pos > 0, '%s: the byte already read comes first, once' % w, p)

def backend(ctx):
    """epoll: registration of operations"""
    ctx.cfg = 'epoll'
    l = L(ctx); m = module(ctx)
    need = ('read', 'write', 'sendfile', 'connect', 'readhup', 'remove_readhup', 'remove', 'accept', 'listen', 'select', 'next', 'init', 'destroy', 'bind', 'aio_open', 'aio_read', 'aio_write')
    for n in need: ctx.ob('module-complete', 'epoll.' + n, n in m, 'the event loop back end must provide every operation')
    EP = ir.macro_values(['EPOLLIN', 'EPOLLOUT', 'EPOLLRDHUP', 'EPOLLET', 'EPOLLHUP', 'EPOLLERR', 'EPOLLPRI', 'EPOLL_CTL_ADD', 'EPOLL_CTL_MOD', 'EPOLL_CTL_DEL'], ['<sys/epoll.h>'])
    U32 = lambda x: x & 0xffffffff
    EVE = 0
    def ctl(s): return [e for e in s.flat() if is_call(e, 'epoll_ctl')]
    def check_ctl(fn, s, e, st, wantbits, regm=None):
        """one successful registration: new registrations are ADD, changes MOD, with the wanted readiness, edge triggered, pointing at the socket"""
        F = e.snap.facts
        f0 = initial(st, l.flg)
        op = e.args[1]
        reg = True if anyset(F, f0, regm or (l.STF_REV | l.STF_WEV)) else False if clr(F, f0, regm or (l.STF_REV | l.STF_WEV)) else None
        ok = isc(op) and (cv(op) == EP['EPOLL_CTL_MOD']) == reg and (reg is not None)
        mask = at(ctx, e, e.args[3], 0, 4)
        ptr = at(ctx, e, e.args[3], 4, 8)
        ctx.ob('reg-op', fn, ok and e.args[2] is initial(st, l.fd), 'a socket is added once and changed afterwards, under its own descriptor', s)
        mv = U32(cv(mask)) if isc(mask) else None
        need = wantbits | EP['EPOLLET']
        # readiness requested before must stay requested
        if anyset(F, f0, l.STF_REV): need |= EP['EPOLLIN']
        if anyset(F, f0, l.STF_WEV): need |= EP['EPOLLOUT']
        need = U32(need)
        ctx.ob('reg-mask', fn, mv is not None and mv & need == need and ptr is st, 'the registration must ask for the wanted readiness, edge triggered, and name the socket', s)
    OPS = (('read', l.OP_READ, l.STF_READ, l.STF_REV, EP['EPOLLIN'], l.STF_RREADY, RE, l.STF_RDHUP),
           ('write', l.OP_WRITE, l.STF_WRITE, l.STF_WEV, EP['EPOLLOUT'], l.STF_WREADY, WE, l.STF_RDHUP),
           ('sendfile', l.OP_WRITE, l.STF_WRITE | l.STF_SENDFILE, l.STF_WEV, EP['EPOLLOUT'], l.STF_WREADY, WE, l.STF_RDHUP))
    for n, op, pend, evb, bit, ready, evf, clrb in OPS:
        if n not in m: continue
        fn = m[n]
        S = ctx.run(fn, opaque=(RE, WE, TLS)); a = ctx.args if n == 'sendfile' else ctx.args[1:]
        st, R, B, A = a
        sel = initial(st, l.sel) if n == 'sendfile' else ctx.args[0]
        SELS = [sel, initial(st, l.sel)]; seen = set()
        for s in S:
            ev = s.flat()
            now = [e for e in ev if is_call(e, RE, WE)]
            fail = [e for e in ev if e.kind == 'icall' and e.x is R]
            c = ctl(s)
            F = s.final.facts; f0 = initial(st, l.flg)
            ref = (now or fail or [None])[0]
            g = (lambda o, z=8: at(ctx, ref, st, o, z)) if ref is not None else (lambda o, z=8: final(ctx, s, st, o, z))
            if not fail: ctx.ob('arm-record', fn, g(l.res[op]) is R and g(l.buf[op]) is B and g(l.arg[op]) is A and allset((ref.snap.facts if ref else F), g(l.flg, 4), pend), 'a started operation must record its callback, buffer and argument and be marked pending', s)
            ctx.ob('arm-watch', fn, clr(ref.snap.facts if ref else F, g(l.flg, 4), l.STF_RDHUP), 'a started operation ends a hang-up watch', s)
            qr = max(inlist(l, s.events, st, x, l.KGL_LIST_READY) for x in SELS); qw = max(inlist(l, s.events, st, x, l.KGL_LIST_RW) for x in SELS)
            if fail:
                seen.add('fail'); e = fail[0]
                ok = len(fail) == 1 and not now and not qr and not qw and e.args[0] is initial(st, l.data) and e.args[1] is A and isc(e.args[2]) and cv(e.args[2]) < 0 and clr(e.snap.facts, l.flags(ctx, e, st), pend) and s.ret is e.ret
                ctx.ob('arm-fail', fn, ok and len(c) == 1 and nonnull(F, c[0].ret), 'a failed registration must be reported once as an error and leave nothing pending', s)
                continue
            if now or qr:
                seen.add('ready')
                ok = len(now) + qr == 1 and not c and not qw and anyset(F, f0, ready) and (not now or now[0].name == evf and now[0].args[0] is st and s.ret is now[0].ret)
                ctx.ob('arm-ready', fn, ok, 'a socket known to be ready must be served at once or in the ready list, exactly once', s)
                if qr: ctx.ob('arm-ready-main', fn, s.const(s.ret) == 0, 'a queued operation is not complete', s)
                continue
            seen.add('wait')
            ok = clr(F, f0, ready) and s.const(s.ret) == ctx.p.enum('kev_ok')
            ctx.ob('arm-wait', fn, ok, 'only a socket not known to be ready may be waited for', s)
            if c:
                ctx.ob('reg-once', fn, len(c) == 1 and isnull(F, c[0].ret), 'registered once', s)
                check_ctl(fn, s, c[0], st, bit)
            ctx.ob('arm-registered', fn, allset(F, final(ctx, s, st, l.flg, 4), evb) and (bool(c) or anyset(F, f0, evb)), 'a waiting operation must be registered for its readiness', s)
            inl = nonnull(F, initial(st, 8))
            ctx.ob('arm-list', fn, qw == 1 or (inl and not qw), 'a waiting socket must be in exactly one list of the loop, so that it can time out', s)
        ctx.ob('arm-cases', fn, seen == {'fail', 'ready', 'wait'}, 'found %s' % sorted(seen))
    # connect / hang-up watch
    if 'connect' in m:
        fn = m['connect']; S = ctx.run(fn, opaque=(RE, WE, TLS)); sel, st, R, A = ctx.args; seen = set()
        for s in S:
            c = ctl(s); F = s.final.facts; g = lambda o, z=8: final(ctx, s, st, o, z)
            okr = truth(F, s.ret)
            seen.add(okr)
            if okr:
                ctx.ob('arm-record', fn, g(l.res[1]) is R and g(l.arg[1]) is A and isnull(F, g(l.buf[1])) and allset(F, g(l.flg, 4), l.STF_WRITE), 'a started connect must record its callback and argument and be marked pending', s)
                ctx.ob('arm-registered', fn, allset(F, g(l.flg, 4), l.STF_WEV) and inlist(l, s.events, st, sel, l.KGL_LIST_CONNECT) == 1, 'a connecting socket must be registered for writability and watched by the connect timeout', s)
                if c: check_ctl(fn, s, c[0], st, EP['EPOLLOUT'])
                ctx.ob('arm-registered', fn, len(c) <= 1 and all(isnull(F, x.ret) for x in c), 'a connect the kernel refused to watch is not started', s)
            else: ctx.ob('arm-fail', fn, okr is False and any(nonnull(F, x.ret) for x in c) and clr(F, g(l.flg, 4), l.STF_WRITE) and not inlist(l, s.events, st, sel), 'a failed connect registration must leave nothing pending', s)
        ctx.ob('arm-cases', fn, seen == {True, False}, 'found %s' % seen)
    if 'readhup' in m:
        fn = m['readhup']; S = ctx.run(fn, opaque=(RE, WE, TLS)); sel, st, R, A = ctx.args; seen = set()
        for s in S:
            c = ctl(s); F = s.final.facts; g = lambda o, z=8: final(ctx, s, st, o, z); okr = truth(F, s.ret); seen.add(okr)
            if okr:
                ctx.ob('arm-record', fn, g(l.res[1]) is R and g(l.arg[1]) is A and isnull(F, g(l.buf[1])) and allset(F, g(l.flg, 4), l.STF_RDHUP) and clr(F, initial(st, l.flg), l.STF_READ | l.STF_WRITE), 'a hang-up watch must record its callback and never replace a pending operation', s)
                if c: check_ctl(fn, s, c[0], st, EP['EPOLLRDHUP']); ctx.ob('arm-registered', fn, len(c) == 1 and isnull(F, c[0].ret), 'a watch the kernel refused is not started', s)
                else: ctx.ob('arm-registered', fn, anyset(F, initial(st, l.flg), l.STF_REV | l.STF_WEV), 'must be registered', s)
            else: ctx.ob('arm-fail', fn, okr is False and (any(nonnull(F, x.ret) for x in c) or not c and anyset(F, initial(st, l.flg), l.STF_READ | l.STF_WRITE)) and (clr(F, g(l.flg, 4), l.STF_RDHUP) or same(F, g(l.flg, 4), initial(st, l.flg))), 'a refused hang-up watch must leave nothing behind', s)
        ctx.ob('arm-cases', fn, seen == {True, False}, 'found %s' % seen)
    for n in ('remove', 'remove_readhup'):
        if n not in m: continue
        fn = m[n]; S = ctx.run(fn, opaque=(RE, WE, TLS)); sel, st = ctx.args; seen = set()
        for s in S:
            c = ctl(s); F = s.final.facts; f0 = initial(st, l.flg); f1 = final(ctx, s, st, l.flg, 4)
            reg = anyset(F, f0, l.STF_REV | l.STF_WEV)
            skip = n == 'remove_readhup' and clr(F, f0, l.STF_RDHUP)
            if n == 'remove_readhup': ctx.ob('unreg-told', fn, truth(F, s.ret) is True, 'ending a hang-up watch reports success', s)
            if skip: ctx.ob('unreg', fn, not c and not list(stores(s.events)), 'without a hang-up watch nothing changes', s); continue
            seen.add(reg)
            if reg:
                ctx.ob('unreg', fn, len(c) == 1 and same(F, c[0].args[1], C(EP['EPOLL_CTL_DEL'])) and c[0].args[2] is initial(st, l.fd), 'a registered socket must be removed from the kernel once', s)
                ctx.ob('unreg-flags', fn, clr(F, f1, l.STF_REV | l.STF_WEV | l.STF_RREADY | l.STF_WREADY), 'a removed socket must not look registered or ready', s)
                was = nonnull(F, initial(st, 8))
                ok = (len(unlinked(s.events)) == 1 and isnull(F, final(ctx, s, st, 8)) and any(sub(final(ctx, s, x, l.count, 4), initial(x, l.count)) is C(-1) for x in (sel, initial(st, l.sel)))) if was else isnull(F, initial(st, 8))
                ctx.ob('unreg-list', fn, ok, 'a removed socket must leave the loop\'s lists', s)
            else: ctx.ob('unreg', fn, clr(F, f0, l.STF_REV | l.STF_WEV) and not c, 'an unregistered socket has nothing to remove', s)
        ctx.ob('arm-cases', fn, seen >= {True, False}, 'found %s' % seen)
    # listen / accept
    if 'accept' in m and 'listen' in m:
        fn = m['accept']; S = ctx.run(fn, opaque=(RE, WE, TLS)); ss, A = ctx.args; st = ss; seen = set()
        for s in S:
            c = ctl(s); F = s.final.facts; f0 = initial(st, l.flg); f1 = final(ctx, s, st, l.flg, 4); q = inlist(l, s.events, st, initial(st, l.sel), l.KGL_LIST_READY); okr = truth(F, s.ret)
            if okr:
                ctx.ob('arm-record', fn, final(ctx, s, st, l.arg[1]) is A and allset(F, f1, l.STF_READ), 'a waiting accept must record its argument and be marked pending', s)
                if q: seen.add('ready'); ctx.ob('arm-ready', fn, q == 1 and anyset(F, f0, l.STF_RREADY) and not c, 'a listener known to be ready is served in the next turn', s)
                else:
                    seen.add('wait'); ctx.ob('arm-registered', fn, clr(F, f0, l.STF_RREADY) and allset(F, f1, l.STF_REV) and (bool(c) or anyset(F, f0, l.STF_REV)), 'a waiting listener must be registered', s)
                    if c: check_ctl(fn, s, c[0], st, EP['EPOLLIN'], l.STF_REV)
                ctx.ob('arm-list', fn, inlist(l, s.events, st, initial(st, l.sel)) == q, 'a waiting listener is in no list that can time out', s)
            else: seen.add('fail'); ctx.ob('arm-fail', fn, okr is False and any(nonnull(F, x.ret) for x in c) and clr(F, f1, l.STF_READ | l.STF_REV), 'a failed registration leaves nothing pending', s)
        ctx.ob('arm-cases', fn, seen == {'ready', 'wait', 'fail'}, 'found %s' % seen)
        fn = m['listen']; S = ctx.run(fn); ss, R = ctx.args
        for s in S:
            ok = truth(s.final.facts, s.ret) is True and final(ctx, s, ss, l.res[1]) is R and final(ctx, s, ss, l.res[0]).op == 'f' and final(ctx, s, ss, l.arg[0]) is ss and allset(s.final.facts, final(ctx, s, ss, l.flg, 4), l.STF_RREADY)
            ctx.ob('arm-listen', fn, ok, 'a listener records its accept callback and tries the first accept at once', s)
    # --- dispatch of kernel events
    if 'select' in m:
        fn = m['select']; S = ctx.run(fn, opaque=('kselector_update_time',), backedge=True); sel, tmo = ctx.args; n = 0; rules = set()
        for s in S:
            w = [e for e in s.flat() if is_call(e, 'epoll_wait')]
            if not ctx.ob('select-wait', fn, len(w) == 1 and w[0].args[3] is tmo, 'the loop must wait once, no longer than asked', s): continue
            room = absint.ALLOCSZ.get(ptr_root(w[0].args[1]), -1); mx = s.const(w[0].args[2])
            ctx.ob('select-wait', fn, room > 0 and mx is not None and 0 < mx * 12 <= room, 'the kernel may report no more events than there is room for', s)
            for e in s.events:
                if e.kind != 'loop': continue
                for g in e.inst.seglist:
                    b = [x for x in g if x.kind == 'back']
                    if not b: continue
                    b = b[-1]; F = b.snap.facts
                    # the socket of this event: its flags are written
                    sts = [x for x in g if x.kind == 'st' and x.args[1] == l.flg]
                    socks = {x.args[0] for x in sts}
                    evt = [t for t in F if t.op == 'and' and t.args[0].op == 'sym' and t.args[0].args[0] == 'm' and ptr_root(t.args[0].args[1]).op == 'sym' and ptr_root(t.args[0].args[1]).args[0] == 'alloca']
                    ev0 = evt[0].args[0] if evt else None
                    if ev0 is None: continue
                    n += 1
                    st = ctx.e.load_snap(b.snap, ptradd(ev0.args[1], ev0.args[2] + 4), 8, None)
                    f1 = ctx.e.load_snap(b.snap, ptradd(st, l.flg), 4, None)
                    f0 = None
                    for x in g:
                        if x.kind == 'st' and x.args[0] is st and x.args[1] == l.flg: break
                    f0 = sym('m', st, l.flg, f1.args[3] if f1.op == 'sym' and f1.args[0] == 'm' else None)
                    q = inlist(l, g, st, sel, l.KGL_LIST_READY)
                    pin = lambda m_: anyset(F, ev0, m_)
                    nin = lambda m_: clr(F, ev0, m_)
                    if not nin(EP['EPOLLIN']): 
                        rules.add('in'); ctx.ob('select-ready', fn, allset(F, f1, l.STF_RREADY) or not pin(EP['EPOLLIN'] | EP['EPOLLPRI'] | EP['EPOLLHUP']), 'a readable socket must be marked read-ready', s)
                    if pin(EP['EPOLLIN'] | EP['EPOLLPRI'] | EP['EPOLLHUP']) and not clr(F, f1, l.STF_READ):
                        rules.add('rq'); ctx.ob('select-queue', fn, q == 1, 'a pending read on a readable socket must be queued once', s)
                    if pin(EP['EPOLLRDHUP']):
                        rules.add('hup'); ctx.ob('select-ready', fn, allset(F, f1, l.STF_WREADY), 'a hung-up socket must be marked write-ready', s)
                        if not clr(F, f1, l.STF_WRITE | l.STF_RDHUP): ctx.ob('select-queue', fn, q == 1, 'a pending write or hang-up watch must be queued once', s)
                    elif pin(EP['EPOLLOUT']):
                        rules.add('out'); ctx.ob('select-ready', fn, allset(F, f1, l.STF_WREADY), 'a writable socket must be marked write-ready', s)
                        if not clr(F, f1, l.STF_WRITE): rules.add('wq'); ctx.ob('select-queue', fn, q == 1, 'a pending write on a writable socket must be queued once', s)
                    ctx.ob('select-queue-once', fn, q <= 1, 'a socket is queued at most once per event', s)
        if not n: raise AnalysisError('no event dispatch loop found in ' + fn)
        # every reported event is visited: the loop unrolled over none, one, two reported events
        for k in (-1, 0, 1, 2):
            A = [sym('al', 'st%d' % i) for i in range(max(k, 0))]; EV = [sym('arg:ev%d' % i) for i in range(max(k, 0))]
            def wait(E, st, fr, i, a, work):
                for j in range(len(A)): st.wmem()[(a[1], 12 * j)] = (EV[j], 4, None); st.wmem()[(a[1], 12 * j + 4)] = (A[j], 8, None)
                fr.env[i['i']] = C(k); E.emit(st, 'call', 'epoll_wait', a, C(k), i)
            def su(E, st):
                for x in A: assume(st.facts, t_eq(x, ZERO), False)
            P = ctx.e.run(fn, Cfg(cut=4, havoc='none', opaque=('kselector_update_time', 'kselector_add_list'), pure=('kselector_update_time', 'kselector_add_list'), models={'epoll_wait': wait}), setup=su, args=[sel, tmo]); ctx.npaths += len(P)
            ctx.ob('select-all', fn, bool(P) and all(p.kind != 'cut' and p.const(p.ret) == k for p in P), 'with %d events the loop ends and tells how many there were' % k)
            for p in P:
                F = p.final.facts; ev = p.flat()
                ok = all(e.args[0] in A for e in ev if e.kind == 'st' and e.args[1] == l.flg)
                for a, v in zip(A, EV):
                    f1 = final(ctx, p, a, l.flg, 4); q = sum(1 for e in calls(p, 'kselector_add_list') if e.args[1] is a)
                    rd = EP['EPOLLIN'] | EP['EPOLLPRI'] | EP['EPOLLHUP']; wr = EP['EPOLLOUT'] | EP['EPOLLRDHUP']
                    ok = ok and q <= 1
                    if not clr(F, v, rd): ok = ok and allset(F, f1, l.STF_RREADY)
                    if not clr(F, v, wr): ok = ok and allset(F, f1, l.STF_WREADY)
                ctx.ob('select-all', fn, ok, 'every reported event is visited, and nothing else', p)
        # what one event does, for every combination of reported readiness and pending operations
        one_ = sym('al', 'st'); RIN = EP['EPOLLIN'] | EP['EPOLLPRI'] | EP['EPOLLHUP']; bad_ = EP['EPOLLERR'] | EP['EPOLLHUP'] | EP['EPOLLRDHUP']
        pends = [a | b | l.STF_REV | l.STF_WEV | l.STF_ET for a in (0, l.STF_READ) for b in (0, l.STF_WRITE, l.STF_RDHUP)]
        names = ('EPOLLIN', 'EPOLLOUT', 'EPOLLRDHUP', 'EPOLLPRI', 'EPOLLHUP', 'EPOLLERR')
        for bits_ in range(64):
            ev = sum(EP[x] for j, x in enumerate(names) if bits_ >> j & 1)
            for f0 in pends:
                def wait1(E, st, fr, i, a, work):
                    st.wmem()[(a[1], 0)] = (C(ev), 4, None); st.wmem()[(a[1], 4)] = (one_, 8, None); st.wmem()[(one_, l.flg)] = (C(f0), 4, None); st.wmem()[(one_, 0)] = (ZERO, 8, None); st.wmem()[(one_, 8)] = (ZERO, 8, None)
                    fr.env[i['i']] = C(1); E.emit(st, 'call', 'epoll_wait', a, C(1), i)
                P = ctx.e.run(fn, Cfg(cut=4, havoc='none', opaque=('kselector_update_time', 'kselector_add_list'), pure=('kselector_update_time', 'kselector_add_list'), models={'epoll_wait': wait1}), args=[sel, tmo]); ctx.npaths += len(P)
                for p in P:
                    f1 = p.const(final(ctx, p, one_, l.flg, 4)); q = [e for e in p.flat() if is_call(e, 'kselector_add_list') and e.args[1] is one_]
                    if f1 is None: ctx.ob('select-marks', fn, False, 'the marks of a socket depend on something else than the event', p); continue
                    new = f1 & ~f0; r, w_ = ev & RIN, ev & (EP['EPOLLOUT'] | EP['EPOLLRDHUP'])
                    ok = not f0 & ~f1 and (not r or f1 & l.STF_RREADY) and (not w_ or f1 & l.STF_WREADY) and (ev & (RIN | bad_) or not new & l.STF_RREADY) and (ev & (EP['EPOLLOUT'] | bad_) or not new & l.STF_WREADY) and (ev & bad_ or not new & l.STF_ERR) and not new & ~(l.STF_RREADY | l.STF_WREADY | l.STF_ERR)
                    what = '%s reported, pending %s' % ('|'.join(x for j, x in enumerate(names) if bits_ >> j & 1) or 'nothing', '|'.join(x for x in ('STF_READ', 'STF_WRITE', 'STF_RDHUP') if f0 & getattr(l, x)) or 'nothing')
                    ctx.ob('select-marks', fn, bool(ok), '%s: the socket is marked 0x%x' % (what, new), p)
                    must = r and f0 & l.STF_READ or w_ and f0 & l.STF_WRITE or ev & EP['EPOLLRDHUP'] and f0 & l.STF_RDHUP
                    may = ev & (RIN | bad_) and f0 & l.STF_READ or ev & (EP['EPOLLOUT'] | bad_) and f0 & (l.STF_WRITE | l.STF_RDHUP)
                    ctx.ob('select-queue', fn, len(q) == 1 if must else len(q) <= (1 if may else 0), '%s: queued %d times' % (what, len(q)), p)
                    for e in q: ctx.ob('select-queue', fn, cv(e.args[2]) == l.KGL_LIST_READY if isc(e.args[2]) else False, 'a ready socket goes to the ready list', p)
        ctx.ob('select-cases', fn, rules >= {'in', 'rq', 'hup', 'out', 'wq'}, 'found %s' % rules)

# ------------------------------------------------------------------ timers, idle timeouts, ready list
SELF_TH = 'kselector_is_same_thread'
def segs_of(events):
    """every loop iteration that ends in a back edge, innermost and outer: (loop event, events without nested loops, all events, back event)"""
    for e in events:
        if e.kind != 'loop': continue
        for g in e.inst.seglist:
            b = [x for x in g if x.kind == 'back']
            yield e, [x for x in g if x.kind not in ('loop', 'back')], g, (b[-1] if b else None)
            yield from segs_of(g)
def uniq(S):
    """distinct loop iterations over all paths"""
    seen = set()
    for s in S:
        for e, flat_, g, b in segs_of(s.events):
            if id(g) in seen: continue
            seen.add(id(g))
            yield s, e, flat_, g, b
def turn(ctx):
    l = L(ctx)
    S = ctx.run('kselector_check_timeout', opaque=(RE, WE, 'rb_next', 'rb_erase', 'rb_first', TLS, SELF_TH), maxsteps=4000000, backedge=True, snap_st=True)
    return l, S
def listnode(l, t, sel):
    """index term of the loop list whose head `t` was read from: int, 'var' or None"""
    d = decode(t)
    if d is None: return None
    b, o = d
    if b is sel and (o - l.list - 8) % l.lsz == 0 and 0 <= (o - l.list - 8) // l.lsz < l.KGL_LIST_COUNT: return (o - l.list - 8) // l.lsz
    if b.op == 'gep' and b.args[0] is sel and o + b.args[1] == l.list + 8: return 'var'
    return None
def qsnap(ctx, g, node, b):
    """the queue link of an element when it is decided whether it waits on: (value, facts)"""
    lk = [x[3] for x in linked(g) if x[0] is node]
    if lk:   # value before it was linked: what the last call left, or nothing
        prev = None
        for x in g:
            if x is lk[0]: break
            if x.kind in ('call', 'icall') and x.ret is not None: prev = x
        d = [t for t in b.snap.facts if t.op == 'eq' and any(decode(y) == (node, 8) for y in t.args)] 
        vs = [t for t in b.snap.facts if decode(t) == (node, 8)]
        return (vs[-1] if vs else ZERO, b.snap.facts)
    return (ctx.e.load_snap(b.snap, ptradd(node, 8), 8, None), b.snap.facts)
def timeouts(ctx):
    """idle timeouts and ready list"""
    ctx.cfg = 'epoll'
    l, S = turn(ctx); sel = ctx.args[0]; fn = 'kselector_check_timeout'
    TO = ctx.p.enum('ST_ERR_TIME_OUT') if False else ir.macro_values(['ST_ERR_TIME_OUT'], ['"kselectable.h"'])['ST_ERR_TIME_OUT']
    NOW = mk('g', 'kgl_current_msec')
    CB, ARG, RV = fld(ctx, '_kfiber', 'cb', 'arg', 'retval')
    LEFT = ctx.off('kgl_base_selectable', 'tmo_left')
    idle = set(); rdy = set(); n = 0
    for s, e, g, full, b in uniq(S):
        un = [(x, ev) for x, ev in unlinked(g) if listnode(l, x, sel) is not None]
        if not un: continue
        if len(un) != 1 or b is None: ctx.ob('turn-unlink', fn, b is not None and len(un) == 1, 'one element at a time', s); continue
        n += 1
        node, uev = un[0]; li = listnode(l, node, sel)
        F = b.snap.facts; i0 = index_of(g, uev)
        hb, ho = decode(node)
        ctx.ob('turn-head', fn, differs(uev.snap.facts, node, ptradd(hb, ho - 8)), 'an empty list ends the round: its own head is no element', s)
        first = next((x for x in g if x.kind in ('icall', 'call') and x.name not in ('llvm.memset', TLS, SELF_TH, 'pthread_self')), None)
        if li == l.KGL_LIST_READY:
            f0s = [t.args[0] for t in F if t.op == 'and' and decode(t.args[0]) == (node, l.flg)] + [t for t in F if decode(t) == (node, l.flg)]
            f0 = f0s[0] if f0s else None
            for x in g:
                if x.kind in ('icall', 'call') and x.snap: f1 = l.flags(ctx, x, node); f0 = f0 or f1
            cbs = [x for x in g if x.kind == 'icall']; rd = [x for x in g if is_call(x, RE)]; wr = [x for x in g if is_call(x, WE)]
            q = inlist(l, g, node, sel, l.KGL_LIST_RW)
            ctx.ob('ready-count', fn, net(g, sel, l.count) == (q - 1), 'every element taken from the ready list is uncounted once (and counted again when it waits on)', s)
            if cbs or rd or wr:
                x = (cbs + wr + rd)[0]
                ctx.ob('ready-unlink', fn, index_of(g, uev) < index_of(g, x) and isnull(x.snap.facts, at(ctx, x, node, 8)), 'an element must have left the list before it runs, because it may queue itself again', s)
            isf = f0 is not None and same(F, f0, C(l.STF_FIBER))
            if isf or cbs:
                rdy.add('fiber'); x = cbs[0] if cbs else None
                vs = x.args if x else ()
                ok = len(cbs) == 1 and not rd and not wr and isf and x.args[0] is node and decode(x.args[1]) == (node, ARG) and decode(x.args[2]) == (node, RV) and x.x is not None and decode(x.x) == (node, CB)
                ctx.ob('ready-fiber', fn, ok, 'a finished fiber in the ready list must get its own callback once with its own argument and result', s)
                continue
            if f0 is None: ctx.ob('ready-serve', fn, False, 'a ready element is dropped unexamined', s); continue
            W = (l.STF_WREADY | l.STF_WREADY2, l.STF_WRITE | l.STF_RDHUP); R = (l.STF_RREADY | l.STF_RREADY2, l.STF_READ)
            for evs, (rb, pb), nm in ((wr, W, 'write'), (rd, R, 'read')):
                if evs: ok = len(evs) == 1 and evs[0].args[0] is node and anyset(F, f0, rb) and anyset(F, f0, pb); rdy.add(nm)
                else: ok = clr(F, f0, rb) or clr(F, f0, pb)
                ctx.ob('ready-serve', fn, ok, 'a ready %s must be served exactly when it is pending' % nm, s)
            if q: rdy.add('again')
            # what may still be pending and was not served here
            left = (0 if rd else l.STF_READ) | (0 if wr else l.STF_WRITE)
            nx = qsnap(ctx, g, node, b)
            if q: ok = q == 1 and anyset(F, f0, left) and anyset(F, f0, l.STF_ET) and nx is not None and isnull(nx[1], nx[0])
            else: ok = clr(F, f0, left) or clr(F, f0, l.STF_ET) or nx is not None and nonnull(nx[1], nx[0])
            ctx.ob('ready-wait', fn, ok, 'a still pending operation, and nothing else, goes back to the list that times out', s)
        else:
            # idle timeout: values at the start of this round
            first = next(x for x in g if x.kind == 'st').snap; f1 = uev.snap.facts
            a0 = ctx.e.load_snap(first, ptradd(node, l.ms), 8, None); now = ctx.e.load_snap(first, NOW, 8, None)
            lb, lo = decode(node)
            # timeout of the same list
            if li == 'var':
                iv = lb.args[2]
                tb = ptradd(sel, l.tmo, tuple((v, 4) for v, _ in iv))
            else: tb = ptradd(sel, l.tmo + 4 * li)
            tm = ctx.e.load_snap(uev.snap, tb, 4, None)
            ctx.ob('idle-due', fn, lt(uev.snap.facts, sub(now, a0), tm) is False, 'a socket may only time out after the whole timeout of its list has passed since it became active', s)
            lk = [x for x in linked(g) if x[0] is node]
            calls_ = [x for x in g if x.kind == 'icall']; sh = [x for x in g if is_call(x, 'shutdown', 'close', 'ksocket_shutdown')]
            left0 = ctx.e.load_snap(uev.snap, ptradd(node, LEFT), 2, None); f0 = ctx.e.load_snap(uev.snap, ptradd(node, l.flg), 4, None)
            same_list = all(decode(x[1]) is not None and (decode(x[1])[0], decode(x[1])[1]) == (lb, lo - 8) for x in lk)
            if lk:
                src = (calls_[0].snap if calls_ else b.snap)
                ctx.ob('idle-again', fn, len(lk) == 1 and same_list and not sh and net(g, sel, l.count) == 0 and ctx.e.load_snap(src, ptradd(node, l.ms), 8, None) is now, 'a socket that keeps waiting restarts its time in the same list', s)
                if calls_:
                    idle.add('callback'); x = calls_[0]
                    ok = len(calls_) == 1 and decode(x.x) == (node, l.res[0]) and decode(x.args[0]) == (node, l.data) and decode(x.args[1]) == (node, l.arg[0]) and s.const(x.args[2]) == TO and anyset(F, f0, l.STF_RTIME_OUT) and anyset(F, f0, l.STF_READ)
                    ctx.ob('idle-callback', fn, ok, 'a read with a time-out callback is told so once, with its own argument', s)
                else:
                    idle.add('left'); ok = nonnull(F, t_zext(left0, 16)) and sub(ctx.e.load_snap(b.snap, ptradd(node, LEFT), 2, None), left0) is C(-1)
                    ctx.ob('idle-left', fn, ok, 'extra time-out periods are used up one by one', s)
            else:
                idle.add('shutdown')
                ok = len(sh) == 1 and not calls_ and net(g, sel, l.count) == -1 and isnull(F, t_zext(left0, 16)) and decode(sh[0].args[0]) == (node, l.fd) and isnull(b.snap.facts, ctx.e.load_snap(b.snap, ptradd(node, 8), 8, None))
                ctx.ob('idle-shutdown', fn, ok, 'a socket without time left leaves its list uncounted and is shut down once, so that its pending operation completes', s)
    if not n: raise AnalysisError('no list processing found in ' + fn)
    ctx.ob('turn-cases', fn, idle == {'callback', 'left', 'shutdown'} and rdy == {'fiber', 'read', 'write', 'again'}, 'found %s %s' % (sorted(idle), sorted(rdy)))
    lists(ctx, l)
    # ticks: each is called once per turn with its own argument, and may close itself
    nt = 0
    TQ, TA, TC = fld(ctx, 'kselector_tick_s', 'queue', 'arg', 'cb'); tick = ctx.off('kselector_s', 'tick'); evn = None
    for s, e, g, full, b in uniq(S):
        ic = [x for x in g if x.kind == 'icall' and 'kselector_tick' in str(x.name)]
        if not ic or b is None: continue
        nt += 1; x = ic[0]; d = decode(x.x); t = d[0] if d else None
        ok = len(ic) == 1 and d and d[1] == TC and decode(x.args[0]) == (t, TA)
        ctx.ob('tick-call', fn, bool(ok), 'a tick is called once with its own argument', s)
        if not ok: continue
        vals = slotvals(ctx, e, b)
        nx = [v1 for v0, v1 in vals.values() if decode(v1) == (t, TQ + 8)]
        ctx.ob('tick-next', fn, len(nx) >= 1, 'the next tick follows', s)
        # a tick may free itself: its link must have been read before the call
        ep = ctx.e.load_snap(x.snap, ptradd(t, TQ + 8), 8, ('kgl_list_s', 8))
        st = [y for y in g if y.kind == 'st' and (y.args[0] is t or (decode(y.args[0]) or (None,))[0] is t) or is_call(y, 'free') and y.args[0] is t]
        ctx.ob('tick-stays', fn, not st, 'a tick stays registered until it is closed', s)
        ctx.ob('tick-self', fn, any(x is ep for x in nx), 'a tick may close itself, so its link is read before it is called', s)
    if not nt: raise AnalysisError('no tick loop in ' + fn)
    ticks(ctx, TQ, TA, TC, tick)
    idle_table(ctx, l, TO, LEFT, TQ, TA, TC, tick)
    return S
def idle_table(ctx, l, TO, LEFT, TQ, TA, TC, TICK):
    """one turn of the loop on lists of known sockets: each one due is answered, the others are untouched; ticks shorten the wait"""
    fn = 'kselector_check_timeout'; NOW = 1000000; LIM = {l.KGL_LIST_CONNECT: 300, l.KGL_LIST_RW: 700}
    SH = ir.macro_values(['SELECTOR_TMO_MSEC'], ['"kselector.h"'])['SELECTOR_TMO_MSEC']
    sel = sym('al', 'loop'); so = {(i, k): sym('al', 'socket%d%d' % (i, k)) for i in LIM for k in (0, 1)}
    tk = [sym('al', 'tick%d' % k) for k in (0, 1)]; tcb = mk('f', 'verif_tick')
    def su(lay, nt):
        def f(E, st):
            m = st.wmem()
            for x in [sel] + list(so.values()) + tk: assume(st.facts, t_eq(x, ZERO), False)
            m[(mk('g', 'kgl_current_msec'), 0)] = (C(NOW), 8, None)
            for o in range(0, ctx.p.sizeof('kselector_s'), 8): m[(sel, o)] = (ZERO, 8, None)
            for i in range(l.KGL_LIST_COUNT):
                m[(sel, l.tmo + 4 * i)] = (C(LIM.get(i, 900)), 4, None)
            if ctx.off('kselector_s', 'block') not in (): m[(sel, ctx.off('kselector_s', 'block_first'))] = (ZERO, 8, None)
            m[(sel, l.count)] = (C(len(lay) + 5), 4, None)
            def ring(h, nodes):
                L_ = [h] + nodes
                for k, x in enumerate(L_):
                    b, o = ptr_split(x); m[(b, o)] = (L_[k - 1], 8, None); m[(b, o + 8)] = (L_[(k + 1) % len(L_)], 8, None)
            for i in range(l.KGL_LIST_COUNT): ring(l.head(sel, i), [so[i, k] for j, k, *_ in lay if j == i])
            ring(ptradd(sel, TICK), [ptradd(t, TQ) for t in tk[:nt]])
            for t in tk[:nt]: m[(t, TA)] = (sym('al', 'of ' + t.args[1]), 8, None); m[(t, TC)] = (tcb, 8, None)
            for n, (i, k, age, left, rt) in enumerate(lay):
                x = so[i, k]
                m[(x, l.sel)] = (sel, 8, None); m[(x, l.ms)] = (C(NOW - LIM[i] - age), 8, None); m[(x, LEFT)] = (C(left), 2, None); m[(x, l.fd)] = (C(40 + n), 4, None)
                m[(x, l.flg)] = (C(l.STF_READ | l.STF_REV | l.STF_ET | (l.STF_RTIME_OUT if rt else 0)), 4, None)
                m[(x, l.data)] = (sym('al', 'data%d' % n), 8, None); m[(x, l.res[0])] = (sym('cb', 'result%d' % n), 8, None); m[(x, l.arg[0])] = (sym('al', 'arg%d' % n), 8, None); m[(x, l.buf[0])] = (sym('al', 'buffer%d' % n), 8, None)
                m[(x, ctx.off('kselectable_s', 'ssl') if l.ms != ctx.off('kselectable_s', 'ssl') else 104)] = (ZERO, 8, None)
        return f
    kinds = [(-1, 0, 0), (3, 0, 0), (3, 1, 0), (3, 0, 1), (3, 2, 1), (-1, 1, 1)]
    lays = [[]] + [[(i, 0) + a] for i in LIM for a in kinds] + [[(i, 0) + a, (i, 1) + b] for i in LIM for a in kinds for b in kinds if a[0] >= b[0]] + [[(0, 0) + a, (1, 0) + b] for a in kinds[:4] for b in kinds[:4]]
    full = lambda t: C(cv(t) & 0xffffffff) if isc(t) else t
    for lay, nt in [(x, 0) for x in lays] + [([], 1), ([], 2)]:
        P = ctx.e.run(fn, Cfg(havoc='none', cut=7, opaque={TLS, SELF_TH}), setup=su(lay, nt), args=[sel, C(4)]); ctx.npaths += len(P); n = 0
        w = ', '.join('%s %s%s%s' % ('connecting' if i == l.KGL_LIST_CONNECT else 'waiting', 'too long' if age > 0 else 'not too long', ' with %d extra periods' % left if left else '', ' with a time-out callback' if rt else '') for i, k, age, left, rt in lay) or 'no socket'
        for p in P:
            if p.kind == 'cut': continue
            n += 1; ev = p.flat(); F = p.final.facts; gone = 0
            for q, (i, k, age, left, rt) in enumerate(lay):
                x = so[i, k]
                sh = [e for e in ev if e.kind == 'call' and e.name in ('shutdown', 'close', 'ksocket_shutdown') and isc(e.args[0]) and cv(e.args[0]) == 40 + q]
                cb = [e for e in ev if e.kind == 'icall' and e.x is sym('cb', 'result%d' % q)]
                ms, lf = final(ctx, p, x, l.ms), final(ctx, p, x, LEFT, 2)
                due = age > 0; exp = ('same' if not due else 'extra' if left else 'told' if rt else 'shut'); gone += exp == 'shut'
                ok = len(sh) == (exp == 'shut') and len(cb) == (exp == 'told') and isc(lf) and cv(lf) == left - (exp == 'extra')
                if exp in ('extra', 'told'): ok = ok and isc(ms) and cv(ms) == NOW
                if exp == 'same': ok = ok and isc(ms) and cv(ms) == NOW - LIM[i] - age
                if cb: ok = ok and cb[0].args[0] is sym('al', 'data%d' % q) and cb[0].args[1] is sym('al', 'arg%d' % q) and p.const(cb[0].args[2]) in (TO, TO & 0xffffffff)
                if cb: ok = ok and p.const(at(ctx, cb[0], x, l.flg, 4)) == l.STF_READ | l.STF_REV | l.STF_ET | l.STF_RTIME_OUT      # its read goes on
                ctx.ob('idle-table', fn, ok, '%s: socket %d must %s' % (w, q + 1, {'same': 'be left alone', 'extra': 'use one extra period and restart its time', 'told': 'be told once and restart its time', 'shut': 'be shut down once'}[exp]), p)
            for i in range(l.KGL_LIST_COUNT):
                stay = [so[i, k] for j, k, age, left, rt in lay if j == i and age < 0]; again = [so[i, k] for j, k, age, left, rt in lay if j == i and age > 0 and (left or rt)]
                if stay and again: stay, again = stay, again      # restarted ones go behind the others
                got, h = [], l.head(sel, i); x = h
                for _ in range(5):
                    b, o = ptr_split(x); nx = final(ctx, p, b, o + 8)
                    nb, no = ptr_split(nx)
                    if final(ctx, p, nb, no) is not x: got = None; break
                    if nx is h: break
                    got.append(nx); x = nx
                ctx.ob('idle-table', fn, got == stay + again, '%s: list %d holds %s afterwards' % (w, i, got if got is None else len(got)), p)
            c = final(ctx, p, sel, l.count, 4)
            ctx.ob('idle-table', fn, isc(c) and cv(c) == len(lay) + 5 - gone, '%s: the count of sockets is wrong' % w, p)
            tc = [e for e in ev if e.kind in ('icall', 'call') and (e.name == 'verif_tick' or e.x is tcb)]
            ctx.ob('tick-wait', fn, [e.args[0] for e in tc] == [sym('al', 'of ' + t.args[1]) for t in tk[:nt]] and all(p.const(e.args[1]) == 4 for e in tc), 'each tick is called once in a turn, with its argument and the number of events', p)
            r = p.ret
            ok = (p.const(r) == SH or any(r is e.ret for e in tc)) and all(lt(F, ZERO, e.ret) is False or r is e.ret or lt(F, e.ret, r) is False for e in tc) and (isc(r) or lt(F, r, C(SH)) is not False and lt(F, ZERO, r) is not False)
            ctx.ob('tick-wait', fn, ok, 'the loop may wait as long as the shortest period a tick asked for, and at most %d ms' % SH, p)
        ctx.ob('idle-table', fn, n > 0, '%s: the turn does not end' % w)
def ticks(ctx, TQ, TA, TC, LST):
    """making, registering and closing a tick, on lists of none to two others"""
    sel, tk, o1, o2 = (sym('al', x) for x in ('loop', 'tick', 'first', 'second'))
    def have(there):
        def f(E, st, fr, i, args, work):
            fr.env[i['i']] = sel if there else ZERO; E.emit(st, 'call', TLS, args, fr.env[i['i']], i); return None
        return {TLS: f}
    fn = 'kselector_new_tick'; cb, arg = mk('f', 'verif_tick'), sym('al', 'arg'); made = 0
    for p in ctx.e.run(fn, Cfg(havoc='none'), args=[cb, arg]):
        ctx.entries.add(fn); ctx.npaths += 1
        if isnull(p.final.facts, p.ret): continue
        t = p.ret; made += 1; q = ptradd(t, TQ)
        ctx.ob('tick-new', fn, final(ctx, p, t, TC) is cb and final(ctx, p, t, TA) is arg and final(ctx, p, t, TQ) is q and final(ctx, p, t, TQ + 8) is q, 'a new tick has its own callback and argument and is in no list', p)
    ctx.ob('tick-new', fn, made > 0, 'a tick can be made')
    def ring(order):
        def f(E, st):
            m = st.wmem(); h = ptradd(sel, LST); L_ = [h] + [ptradd(x, TQ) for x in order]
            for k, x in enumerate(L_):
                b, o = ptr_split(x); m[(b, o)] = (L_[k - 1], 8, None); m[(b, o + 8)] = (L_[(k + 1) % len(L_)], 8, None)
            if tk not in order: q = ptradd(tk, TQ); m[(tk, TQ)] = (q, 8, None); m[(tk, TQ + 8)] = (q, 8, None)
            for x in (sel, tk, o1, o2): assume(st.facts, t_eq(x, ZERO), False)
        return f
    def members(p):
        h = ptradd(sel, LST); out, x, bk = [], h, h
        for _ in range(6):
            b, o = ptr_split(x); n = final(ctx, p, b, o + 8); nb, no = ptr_split(n)
            if final(ctx, p, nb, no) is not x: return None
            if n is h: return out
            out.append(nb if no == TQ else n); x = n
        return None
    for fn, there, order in [(f, t, o) for f in ('kselector_register_tick', 'kselector_close_tick') for t in (True, False)
                             for o in ([[], [o1], [o1, o2]] if f == 'kselector_register_tick' else [[], [o1], [tk], [tk, o1], [o1, tk], [o1, tk, o2]])]:
        S = ctx.e.run(fn, Cfg(havoc='none', models=have(there)), args=[tk], setup=ring(order)); ctx.entries.add(fn); ctx.npaths += len(S)
        reg = fn == 'kselector_register_tick'; nm = '%s, %s%s' % (fn, '%d others' % len([x for x in order if x is not tk]), '' if there else ', outside any loop')
        for p in S:
            F = p.final.facts; m = members(p); fr_ = [e.args[0] for e in p.flat() if e.kind == 'call' and e.name == 'free']
            yes = p.const(p.ret); yes = truth(F, p.ret) if yes is None else bool(yes & 1)
            if not there: ok = yes is False and m == order and not fr_; why = 'without a loop nothing happens and the call says so'
            elif reg: ok = yes is True and m is not None and sorted(map(show, m)) == sorted(map(show, order + [tk])) and not fr_; why = 'it joins the ticks of the loop of this thread once'
            else: ok = yes is True and m == [x for x in order if x is not tk] and fr_ == [tk] and not [e for e in p.flat() if e.kind == 'uaf']; why = 'it leaves its list and is freed once'
            ctx.ob('tick-register' if reg else 'tick-close', nm, ok, why, p)
def lists(ctx, l):
    """list membership: one list at a time, counted once"""
    MS = mk('g', 'kgl_current_msec'); LEFT = ctx.off('kgl_base_selectable', 'tmo_left')
    fn = 'kselector_add_list'
    S = ctx.run(fn, opaque=(SELF_TH, TLS)); sel, st, k = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; inq = nonnull(F, initial(st, 8)); seen.add(inq)
        un = [x for x in unlinked(s.events) if x[0] is st]; lk = [x for x in linked(s.events) if x[0] is st]
        cnt = sub(final(ctx, s, sel, l.count, 4), initial(sel, l.count))
        ok = len(lk) == 1 and len(un) == (1 if inq else 0) and isc(cnt) and cv(cnt) == (0 if inq else 1) and (inq or isnull(F, initial(st, 8)))
        h = lk[0][2] if lk else None
        ok = ok and ptr_root(h) is sel and k in h.syms and (not un or index_of(s.events, un[0][1]) < index_of(s.events, lk[0][3]))
        ctx.ob('list-member', fn, ok, 'an element moves to the end of the wanted list, in one list at a time and counted once', s)
        if differs(F, k, C(l.KGL_LIST_READY)): seen.add('timed'); ctx.ob('list-time', fn, decode(final(ctx, s, st, l.ms)) == (MS, 0) and final(ctx, s, st, LEFT, 2) is initial(st, ctx.off('kgl_base_selectable', 'tmo')), 'a timed list counts from now, with all extra periods', s)
    ctx.ob('turn-cases', fn, seen == {True, False, 'timed'}, 'found %s' % seen)
    fn = 'kselector_remove_list'
    S = ctx.run(fn, opaque=(SELF_TH, TLS)); sel, st = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; inq = nonnull(F, initial(st, 8)); seen.add(inq)
        un = [x for x in unlinked(s.events) if x[0] is st]
        cnt = sub(final(ctx, s, sel, l.count, 4), initial(sel, l.count))
        ok = isc(cnt) and (len(un) == 1 and cv(cnt) == -1 and isnull(F, final(ctx, s, st, 8)) if inq else cv(cnt) == 0 and isnull(F, initial(st, 8)) and not un)
        ctx.ob('list-remove', fn, ok, 'a removed element leaves its list, is uncounted once and looks unlisted', s)
    ctx.ob('turn-cases', fn, seen == {True, False}, 'found %s' % seen)
    fn = 'kselector_add_fiber_ready'
    S = ctx.run(fn, opaque=(SELF_TH, TLS)); sel, f = ctx.args
    for s in S:
        cnt = sub(final(ctx, s, sel, l.count, 4), initial(sel, l.count))
        ctx.ob('list-member', fn, inlist(l, s.events, f, sel, l.KGL_LIST_READY) == 1 and isc(cnt) and cv(cnt) == 1, 'a ready fiber is queued once and counted', s)
