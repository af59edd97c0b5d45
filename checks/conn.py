"""Accepting connections, life of a connection, TLS sessions."""
from fw import *
from sync import fld, calls, is_next
from fiber import TLS, is_tls, one
from sockio import L
from fiberio import CFGS
from server import V, ups, mod_calls, reads, opened, touched, clr, locked, REL, CTXREL

EAGAIN = 11; ERRNO = mk('g', 'errno')
class K(V):
    def __init__(k, ctx):
        V.__init__(k, ctx)
        k.addr2, k.sni, k.pool, k.srv = fld(ctx, 'kconnection_s', 'addr', 'sni', 'pool', 'server')
        k.size = ctx.p.sizeof('kconnection_s'); k.SA = ctx.p.sizeof('sockaddr_i'); k.lsize = ctx.p.sizeof('kserver_selectable_s')
        k.ssl = ctx.off('kselectable_s', 'ssl')
        k.sess = ctx.off('kssl_session', 'ssl')
def clrbit(F, v, m): return isnull(F, t_bit('and', v, C(m), 32)) or v.op == 'and' and isc(v.args[1]) and cv(v.args[1]) & m == 0
def setbit(F, v, m): return nonnull(F, t_bit('and', v, C(m), 32))
def mention(F, t): return [x for x in F if t in getattr(x, 'syms', ()) or x is t]
def errno_is(F, n):
    """errno (as read after the last call) is known to be n / known not to be n / not known"""
    r = None
    for t in F:
        d = decode(t)
        if d and d[0].op == 'g' and 'errno' in str(d[0].args[0]): 
            if same(F, t, C(n)): r = True
            elif differs(F, t, C(n)): r = False
        elif t.op == 'errno' or 'errno' in show(t):
            if same(F, t, C(n)): r = True
            elif differs(F, t, C(n)): r = False
    return r
def delivered(ev, ss, off): return [e for e in ev if e.kind == 'icall' and reads(e.x, ss, off)]

def accepting(ctx):
    for cfg in CFGS:
        ctx.cfg = cfg; tag = '' if cfg == 'epoll' else '@release'
        k = K(ctx); l = k.l; OK = ctx.p.enum('kev_ok')
        # ---- one readiness: one accept, one delivery or one re-arm
        fn = 'kselector_event_accept'; S = ctx.run(fn, opaque=('ksocket_accept',)); data, ss, got = ctx.args; seen = set()
        for s in S:
            ev = s.flat(); F = s.final.facts; a = calls(s, 'ksocket_accept'); d = delivered(ev, ss, l.res[l.OP_WRITE]); r = mod_calls(ev, 'accept')
            ok = len(a) == 1 and reads(a[0].args[0], ss, l.fd) and a[0].args[1] is ptradd(ss, k.acc) and nonnull(F, a[0].args[2])
            if not ctx.ob('accept-once', fn + tag, ok, 'one connection is accepted from the listener\'s socket, non-blocking, into its address', s): continue
            fd = a[0].ret; good = lt(F, fd, ZERO) is False or same(F, fd, C(-1)) is False and lt(F, fd, ZERO) is not True
            ok = all(e.args[0] is data and reads(e.args[1], ss, l.arg[l.OP_WRITE]) for e in d)
            ctx.ob('accept-own', fn + tag, ok, 'the listener\'s callback gets its own data and argument', s)
            if good:
                seen.add('ok'); ctx.ob('accept-delivered', fn + tag, len(d) == 1 and d[0].args[2] is fd and not r and s.ret is d[0].ret, 'an accepted socket is given to the listener\'s callback exactly once', s); continue
            if r:
                e = r[0]; eF = e.snap.facts; fl = at(ctx, e, ss, l.flg, 4)
                ok = len(r) == 1 and e.args[0] is ss and reads(e.args[1], ss, l.arg[l.OP_WRITE]) and errno_is(eF, EAGAIN) is True and clrbit(eF, fl, l.STF_RREADY) and clrbit(eF, initial(ss, l.flg), l.STF_ERR)
                ctx.ob('accept-rearm', fn + tag, ok, 'only a listener without error and without a pending connection waits again, no longer marked ready', s)
                t = truth(F, e.ret)
                if t: seen.add('rearm'); ctx.ob('accept-rearm', fn + tag, not d and s.const(s.ret) == OK, 'a waiting listener reports nothing', s); continue
                seen.add('rearm-failed')
            else:
                seen.add('failed')
                ctx.ob('accept-wait', fn + tag, errno_is(F, EAGAIN) is False or setbit(F, initial(ss, l.flg), l.STF_ERR), 'a listener without a pending connection must wait again', s)
            ok = len(d) == 1 and lt(F, d[0].args[2], ZERO) is True and s.ret is d[0].ret
            ctx.ob('accept-failed', fn + tag, ok, 'a failure is reported to the listener\'s callback exactly once', s)
        ctx.ob('accept-cases', fn + tag, seen == {'ok', 'rearm', 'rearm-failed', 'failed'}, 'found %s' % sorted(seen))
        fn = 'ksocket_accept'; S = ctx.run(fn); fd, addr, nb = ctx.args
        SOCK_NONBLOCK, SOCK_CLOEXEC = 0o4000, 0o2000000; seen = set()
        for s in S:
            a = [e for e in s.flat() if is_call(e, 'accept4', 'accept')]
            ok = len(a) == 1 and a[0].args[0] is fd and a[0].args[1] is addr and s.const(at(ctx, a[0], a[0].args[2], 0, 4)) == k.SA and s.ret is a[0].ret
            if not ctx.ob('accept-call', fn + tag, ok, 'one connection is accepted, with the room its address has', s): continue
            if a[0].name == 'accept4':
                f = s.const(a[0].args[3]); want = truth(s.final.facts, t_bit('and', nb, ONE, 8)); seen.add(f)
                if want is None: want = truth(s.final.facts, nb)
                ok = f is not None and f & SOCK_CLOEXEC and want is not None and bool(f & SOCK_NONBLOCK) == bool(want)
                ctx.ob('accept-flags', fn + tag, ok, 'the accepted socket must be non-blocking if asked and never inherited', s)
        ctx.ob('accept-cases', fn + tag, len(seen) == 2, 'found %s' % seen)
        # ---- the connection of an accepted socket
        fn = 'accept_result_new_connection'; D = 'kconnection_real_destroy'
        O = (D, 'kconnection_ssl_accept', 'kgl_create_pool', 'kgl_pnalloc', 'klog'); S = ctx.run(fn, opaque=O, pure=O); ss, got = ctx.args; seen = set(); sv = initial(ss, k.server)
        for s in S:
            ev = s.flat(); F = s.final.facts; al = [e for e in ev if is_call(e, 'malloc')]; acc = calls(s, 'kconnection_ssl_accept'); de = calls(s, D); up = ups(ev, sv, k.refs)
            op = opened(F, got)
            if op is False:
                seen.add('none'); ctx.ob('conn-none', fn + tag, isnull(F, s.ret) and not al and not up, 'a failed accept makes no connection', s); continue
            if not ctx.ob('conn-new', fn + tag, len(al) == 1 and op is True, 'one connection per accepted socket', s): continue
            c = al[0].ret
            ctx.ob('conn-socket', fn + tag, final(ctx, s, c, l.fd, 4) is got, 'the connection owns the accepted socket', s)
            ctx.ob('conn-ref', fn + tag, len(up) == 1 and final(ctx, s, c, k.srv) is sv, 'the connection belongs to the listener\'s server and counts one reference', s)
            m = [e for e in ev if e.kind == 'memcpy']
            ok = len(m) == 1 and m[0].args[1] is ptradd(ss, k.acc) and s.const(m[0].args[2]) is not None and k.acc + s.const(m[0].args[2]) <= k.lsize and s.const(m[0].args[2]) >= k.SA
            ctx.ob('conn-addr', fn + tag, ok, 'the peer\'s address is copied from the listener and from nowhere beyond it', s)
            cx = [initial(ss, k.sctx)]; has = nonnull(F, cx[0]); sc = initial(cx[0], k.cctx)
            need = has and nonnull(F, sc)
            ok = len(acc) == (1 if need else 0) and (need or isnull(F, cx[0]) or isnull(F, sc)) and all(e.args[0] is c and reads(e.args[1], cx[0], k.cctx) and index_of(ev, e) > max([index_of(ev, x) for x in ev if x.kind == 'st' and x.args[0] is c and x.args[1] == l.fd] or [1 << 30]) for e in acc)
            ctx.ob('conn-tls', fn + tag, ok, 'a TLS listener\'s connection gets a session on the listener\'s context, on its own socket', s)
            fail = any(isnull(F, e.ret) for e in acc)
            if fail: seen.add('tls-failed'); ctx.ob('conn-tls-failed', fn + tag, len(de) == 1 and de[0].args[0] is c and isnull(F, s.ret), 'without its TLS session the connection is destroyed once', s)
            else: seen.add('tls' if need else 'plain'); ctx.ob('conn-result', fn + tag, not de and s.ret is c, 'the new connection is returned', s)
        ctx.ob('accept-cases', fn + tag, seen == {'none', 'plain', 'tls', 'tls-failed'}, 'found %s' % sorted(seen))
        # ---- the accept handler made by KACCEPT_CALLBACK
        fn = 'verif_accept'; U = 'user_verif_accept_callback'; LD = 'kserver_selectable_destroy'
        O = ('accept_result_new_connection', LD, 'kserver_get_perfect_selector', 'kserver_selectable_accept', U, TLS); S = ctx.run(fn, opaque=O, pure=(TLS,)); ss, arg, got = ctx.args; seen = set()
        for s in S:
            ev = s.flat(); F = s.final.facts; n = calls(s, 'accept_result_new_connection'); de = calls(s, LD); us = calls(s, U); nx = mod_calls(ev, 'next'); bd = mod_calls(ev, 'bind'); ac = calls(s, 'kserver_selectable_accept')
            if not ctx.ob('handler-new', fn + tag, len(n) == 1 and n[0].args[0] is ss and n[0].args[1] is got and s.const(s.ret) == OK, 'one connection is made from the accepted socket', s): continue
            c = n[0].ret
            if isnull(F, c):
                seen.add('none'); ctx.ob('handler-none', fn + tag, len(de) == 1 and de[0].args[0] is ss and not us and not nx and not ac, 'a listener whose accept failed is destroyed exactly once', s); continue
            g = calls(s, 'kserver_get_perfect_selector')
            ok = len(bd) == 1 and bd[0].args[1] is c and len(g) == 1 and g[0].args[0] is ss and bd[0].args[0] is g[0].ret
            ctx.ob('handler-bind', fn + tag, ok, 'the connection is bound once, to the loop chosen for it', s)
            ctx.ob('handler-once', fn + tag, len(us) + len(nx) == 1, 'the user\'s callback gets the connection exactly once', s)
            for e in us: 
                seen.add('direct'); cs, ls = at(ctx, e, c, l.sel), at(ctx, e, ss, l.sel)
                ok = e.args[0] is ss and e.args[1] is c and index_of(ev, e) > index_of(ev, bd[0]) and eqsel(e, c, ss, l)
                ctx.ob('handler-direct', fn + tag, ok, 'the callback runs directly only on the connection\'s own loop', s)
            for e in nx:
                seen.add('posted'); ok = reads(e.args[0], c, l.sel) and e.args[1] is ss and e.args[2].op == 'f' and e.args[2].args[0].split('@')[0] == U and e.args[3] is c and index_of(ev, e) > index_of(ev, bd[0])
                ctx.ob('handler-posted', fn + tag, ok, 'the callback is posted to the connection\'s loop with the connection', s)
            last = [index_of(ev, e) for e in us + nx]
            ok = all(index_of(ev, e) > max(last or [0]) and e.args[0] is ss for e in ac + de) and len(ac) <= 1 and len(de) <= 1
            ctx.ob('handler-listener', fn + tag, ok, 'the listener is asked to accept again, or destroyed, after the connection was handed over', s)
            fls = [t for t in F if t.op == 'and' and isc(t.args[1]) and cv(t.args[1]) & 0xffffffff == k.KGL_SERVER_START]
            st = [truth(F, t) for t in fls]
            if de and not ac: seen.add('closed'); ctx.ob('handler-closed', fn + tag, st == [False], 'only a closed server\'s listener stops accepting', s)
            elif de: seen.add('refused'); ctx.ob('handler-refused', fn + tag, isnull(F, ac[0].ret), 'only a listener that cannot accept is destroyed', s)
            else: seen.add('again'); ctx.ob('handler-again', fn + tag, len(ac) == 1 and nonnull(F, ac[0].ret) and st == [True], 'the listener of an open server keeps accepting', s)
        ctx.ob('accept-cases', fn + tag, seen == {'none', 'direct', 'posted', 'closed', 'refused', 'again'}, 'found %s' % sorted(seen))
        fn = 'kserver_selectable_accept'; S = ctx.run(fn); ss, arg = ctx.args
        for s in S:
            r = mod_calls(s.flat(), 'accept')
            ctx.ob('handler-accept', fn + tag, len(r) == 1 and r[0].args[0] is ss and r[0].args[1] is arg and same(s.final.facts, s.ret, r[0].ret), 'accepting is one request for this listener', s)
        fn = 'kserver_get_perfect_selector'; seen = set(); GP = 'get_perfect_selector'; ctx.entries.add(fn)
        for n in range(4):
            ss = sym('al', 'listener'); sv = sym('al', 'server'); lk = ptradd(sv, k.lock)
            def ring(E, st):
                m = st.wmem(); L_ = [ptradd(sv, k.list)] + [sym('al', 'other%d' % i) for i in range(n)]
                for x in [ss, sv] + L_[1:]: assume(st.facts, t_eq(x, ZERO), False)
                for i, x in enumerate(L_):
                    q, f = ptr_split(x); m[(q, f)] = (L_[i - 1], 8, None); m[(q, f + 8)] = (L_[(i + 1) % len(L_)], 8, None)
                m[(ss, k.server)] = (sv, 8, None)
            S = ctx.e.run(fn, Cfg(havoc='none', cut=6, opaque=(GP,), pure=(GP,)), args=[ss], setup=ring); ctx.npaths += len(S)
            for s in S:
                ev = s.flat(); g = calls(s, GP); inst = '%s, %d listeners' % (fn, n) + tag
                if s.kind == 'cut': ctx.ob('loop-end', inst, False, 'the listeners are counted in a bounded number of steps', s); continue
                errs, end = lock_scan(s.events)
                ctx.ob('loop-lock', inst, not errs and not any(end) and any(is_call(e, LOCK) and e.args[0] is lk for e in ev), 'the listeners are counted under the list lock', s)
                if n > 1: seen.add('own'); ctx.ob('loop-own', inst, reads(s.ret, ss, l.sel) and not g, 'a server with a listener on every loop serves a connection where it was accepted', s)
                else: seen.add('any'); ctx.ob('loop-any', inst, reads(s.ret, ss, l.sel) or len(g) == 1 and s.ret is g[0].ret, 'a connection is served by an existing loop', s)
        ctx.ob('accept-cases', fn + tag, seen == {'own', 'any'}, 'found %s' % seen)
    ctx.cfg = 'epoll'
def eqsel(e, c, ss, l):
    """the branch taken says connection and listener are bound to the same loop"""
    for a, b in e.snap.eqs.items():
        if {decode(a), decode(b)} == {(c, l.sel), (ss, l.sel)}: return True
    F = e.snap.facts
    for t in F:
        ls = [x for x in t.syms] if t.op == 'lin' else []
        ds = {decode(x) for x in ls}
        if ds == {(c, l.sel), (ss, l.sel)} and isnull(F, t): return True
    return False

# ------------------------------------------------------------------ life of a connection
def bitval(ctx, F, base, t, field):
    """truth of a bit-field of the record at `base`, as branched on (None: not known on this path)"""
    bo, n = ctx.p.bitfield(t, field)
    for x in F:
        r = truth(F, x)
        if r is None: continue
        y = x
        if y.op == 'and' and isc(y.args[1]):
            m = cv(y.args[1]) & 0xffffffff; y = y.args[0]; sh = 0
            if y.op == 'lshr' and isc(y.args[1]): sh = cv(y.args[1]); y = y.args[0]
            d = decode(y)
            if d and d[0] is base and m & (m - 1) == 0 and d[1] * 8 + sh + m.bit_length() - 1 == bo: return r
        elif y.op == 'lshr' and isc(y.args[1]):
            d = decode(y.args[0])
            if d and d[0] is base and d[1] * 8 + cv(y.args[1]) == bo and bo % 8 == 7: return r
    return None
def bitset(ctx, s, base, t, field, val):
    """a store of this path sets the bit-field to val (the last one that touches it)"""
    bo, n = ctx.p.bitfield(t, field); r = None
    for e in s.flat():
        if e.kind == 'st' and e.args[0] is base and isinstance(e.args[1], int) and e.args[1] <= bo // 8 < e.args[1] + (e.size or 1 if hasattr(e, 'size') else 1):
            m = 1 << (bo - e.args[1] * 8); v = e.args[2]
            if isc(v): r = bool(cv(v) & m)
            elif v.op == 'or' and isc(v.args[1]) and cv(v.args[1]) & m: r = True
            elif v.op == 'and' and isc(v.args[1]) and not cv(v.args[1]) & m: r = False
    return r == val if r is not None else None
POOLS = ('kgl_create_pool', 'kgl_pnalloc', 'kgl_palloc', 'kgl_destroy_pool')
def newconn(ctx, k, fn, s, tag, rule):
    l = k.l; ev = s.flat(); al = [e for e in ev if is_call(e, 'malloc') and s.const(e.args[0]) == k.size]
    if not ctx.ob(rule, fn + tag, len(al) == 1 and s.ret is al[0].ret, 'one connection is made and returned', s): return None
    c = al[0].ret; po = calls(s, 'kgl_create_pool')
    z = [e for e in ev if e.kind == 'memset' and e.args[0] is c and s.const(e.args[1]) == 0 and s.const(e.args[2]) == k.size]
    ok = len(z) == 1 and len(po) == 1 and final(ctx, s, c, k.pool) is po[0].ret and s.const(final(ctx, s, c, l.fd, 4)) == -1 and all(index_of(ev, e) > index_of(ev, z[0]) for e in ev if e.kind in ('st', 'memcpy') and ptr_root(e.args[0]) is c)
    ok = ok and s.const(final(ctx, s, c, l.flg, 4)) == 0 and all(isnull(s.final.facts, final(ctx, s, c, o)) for o in (l.sel, k.ssl, k.sni, k.srv))
    ctx.ob(rule, fn + tag, ok, 'a new connection starts empty, without a socket, with a pool of its own', s)
    return c
def life(ctx):
    for cfg in CFGS:
        ctx.cfg = cfg; tag = '' if cfg == 'epoll' else '@release'
        k = K(ctx); l = k.l; DES = ctx.p.enum('kev_destroy'); OK = ctx.p.enum('kev_ok')
        un = ctx.p.sizeof('sockaddr_un'); uf, uz, ua = fld(ctx, 'sockaddr_unix_i', 'sin_family', 'size', 'addr')
        # ---- creation
        for fn in ('kconnection_new', 'kconnection_new3', 'kconnection_new2'):
            O = POOLS + ('ksocket_addrinfo_sockaddr',); S = ctx.run(fn, opaque=O, pure=O); a = ctx.args; seen = set(); src = a[0]
            for s in S:
                ev = s.flat(); F = s.final.facts; c = newconn(ctx, k, fn, s, tag, 'new-' + fn[-1] if fn[-1].isdigit() else 'new')
                if c is None: continue
                m = [e for e in ev if e.kind in ('memcpy', 'memmove')]; pn = calls(s, 'kgl_pnalloc') + calls(s, 'kgl_palloc'); po = calls(s, 'kgl_create_pool')
                if fn == 'kconnection_new2':
                    r = calls(s, 'ksocket_addrinfo_sockaddr'); seen.add('ip')
                    ctx.ob('new-addr', fn + tag, len(r) == 1 and r[0].args[0] is src and same(F, r[0].args[1], a[1]) and r[0].args[2] is ptradd(c, k.addr2), 'the address of the lookup result is used with the caller\'s port', s); continue
                if fn == 'kconnection_new' and not m:
                    seen.add('none'); ctx.ob('new-addr', fn + tag, isnull(F, src) and not pn, 'a given address is copied', s); continue
                fam = initial(src, 0); isun = same(F, fam, ONE)
                if isun:
                    seen.add('unix'); room = s.const(pn[0].args[1]) if pn else None
                    ok = len(pn) == 1 and len(po) == 1 and pn[0].args[0] is po[0].ret and room == un and final(ctx, s, c, k.addr2 + ua) is pn[0].ret and s.const(final(ctx, s, c, k.addr2 + uf, 2)) == 1
                    ctx.ob('new-unix', fn + tag, ok, 'a unix address has its own room in the connection\'s pool', s)
                    dst = pn[0].ret if pn else None
                else:
                    seen.add('ip'); room = k.SA; dst = ptradd(c, k.addr2)
                    ctx.ob('new-unix', fn + tag, differs(F, fam, ONE) is True and not pn, 'every unix address needs its own room', s)
                ok = len(m) == 1 and m[0].args[0] is dst and m[0].args[1] is src
                if ctx.ob('new-addr', fn + tag, ok, 'the given address is copied once, from its start', s):
                    n = m[0].args[2]; lim = a[1] if len(a) > 1 else None
                    fits = s.const(n) is not None and s.const(n) <= room or n is lim and (ev_cond(F, t_ult(C(room), n)) is False or lt(F, C(room), n) is False)
                    whole = n is lim or s.const(n) == room
                    noover = lim is None or n is lim or ev_cond(F, t_ult(n, lim)) is True or ev_cond(F, t_ult(lim, n)) is False
                    ctx.ob('new-fits', fn + tag, fits and whole and noover, 'the copy is limited to the room there is and to the address given', s)
            ctx.ob('conn-cases', fn + tag, seen == {'kconnection_new': {'none', 'unix', 'ip'}, 'kconnection_new3': {'unix', 'ip'}, 'kconnection_new2': {'ip'}}[fn], 'found %s' % seen)
        # ---- connecting
        fn = 'kconnection_half_connect'; S = ctx.run(fn, opaque=('ksocket_half_connect',)); c, ba, tp = ctx.args; seen = set()
        for s in S:
            F = s.final.facts; h = calls(s, 'ksocket_half_connect'); fam = initial(c, k.addr2); isun = same(F, fam, ONE); seen.add(isun)
            ok = len(h) == 1 and (reads(h[0].args[0], c, k.addr2 + ua) if isun else differs(F, fam, ONE) is True and h[0].args[0] is ptradd(c, k.addr2) and h[0].args[1] is ba and h[0].args[2] is tp)
            if not ctx.ob('connect-addr', fn + tag, ok, 'the socket connects to the connection\'s own address', s): continue
            fd = h[0].ret; op = t_not(t_eq(t_add(fd, ONE), ZERO)) if False else None
            r = s.ret; good = [t for t in (r,) if fd in r.syms]
            ctx.ob('connect-socket', fn + tag, final(ctx, s, c, l.fd, 4) is fd and (bool(good) and tells(r, fd) or opened(F, fd) is not None and s.const(r) == (1 if opened(F, fd) else 0)), 'the connection owns the socket and the call tells whether there is one', s)
        ctx.ob('conn-cases', fn + tag, seen == {True, False} or seen == {True, None}, 'found %s' % seen)
        fn = 'kconnection_connect'; S = ctx.run(fn); c, cb, arg = ctx.args; seen = set()
        for s in S:
            ev = s.flat(); F = s.final.facts; m = mod_calls(ev, 'connect'); d = [e for e in ev if e.kind == 'icall' and e.x is cb]
            ok = len(m) == 1 and reads(m[0].args[0], c, l.sel) and m[0].args[1] is c and m[0].args[2] is cb and m[0].args[3] is arg
            if not ctx.ob('connect-start', fn + tag, ok, 'connecting is started once with the caller\'s callback', s): continue
            t = truth(F, m[0].ret); seen.add(t)
            ok = not d and s.const(s.ret) == OK if t else len(d) == 1 and reads(d[0].args[0], c, l.data) and d[0].args[1] is arg and lt(F, d[0].args[2], ZERO) is True and s.ret is d[0].ret
            ctx.ob('connect-once', fn + tag, ok, 'the callback is told once of a start that failed, and not at all of one that did not', s)
        ctx.ob('conn-cases', fn + tag, seen == {True, False}, 'found %s' % seen)
        # ---- destruction
        fn = 'kconnection_real_destroy'; O = ('selectable_clean', REL, 'kgl_destroy_pool'); S = ctx.run(fn, opaque=O, pure=O, record_loads=True); c = ctx.args[0]; seen = set(); sv = initial(c, k.srv)
        FS = mk('g', 'kgl_ssl_free_sni')
        for s in S:
            ev = s.flat(); F = s.final.facts; cl = calls(s, 'selectable_clean'); rl = calls(s, REL); pd = calls(s, 'kgl_destroy_pool'); fr = [e for e in ev if is_call(e, 'free')]; sn = [e for e in ev if e.kind == 'icall']
            ctx.ob('destroy-socket', fn + tag, len(cl) == 1 and cl[0].args[0] is c, 'the socket and TLS session are cleaned up once', s)
            hs = nonnull(F, initial(c, k.sni)); seen.add(('sni', hs))
            ok = len(sn) == (1 if hs else 0) and all(reads(e.args[0], c, k.sni) and decode(e.x) == (FS, 0) for e in sn) and (hs or isnull(F, initial(c, k.sni)))
            ctx.ob('destroy-sni', fn + tag, ok, 'the server-name data is handed back once to the function registered for it', s)
            sw = [t for t in F if reads(t, c, k.srv)]; has = any(nonnull(F, t) for t in sw); no = any(isnull(F, t) for t in sw)
            fl = [t for t in F if t.op == 'and' and isc(t.args[1]) and cv(t.args[1]) == l.STF_UDP and reads(t.args[0], c, l.flg)]; udp = [truth(F, t) for t in fl]
            of = [e for e in fr if e.args[0] is not c]
            if has and udp == [True]: seen.add('udp'); ok = len(of) == 1 and reads(of[0].args[0], c, k.srv) and not rl
            elif has: seen.add('server'); ok = udp == [False] and len(rl) == 1 and reads(rl[0].args[0], c, k.srv) and not of
            else: seen.add('none'); ok = no and not rl and not of
            ctx.ob('destroy-owner', fn + tag, ok, 'the server reference, or the datagram record, is given back once', s)
            ok = len(pd) == 1 and reads(pd[0].args[0], c, k.pool) and [e.args[0] for e in fr].count(c) == 1 and not [e for e in ev if e.kind == 'uaf'] and all(not touched(ev[index_of(ev, f) + 1:], c) and index_of(ev, e) < index_of(ev, f) for f in fr if f.args[0] is c for e in cl + sn)
            ctx.ob('destroy-free', fn + tag, ok, 'the pool and the connection are freed once, after their last use', s)
        ctx.ob('conn-cases', fn + tag, {'udp', 'server', 'none', ('sni', True), ('sni', False)} <= seen, 'found %s' % seen)
        fn = 'selectable_clean'; S = ctx.run(fn, opaque=('selectable_remove',), pure=('selectable_remove',)); st = ctx.args[0]; seen = set(); fd = initial(st, l.fd)
        for s in S:
            ev = s.flat(); F = s.final.facts; rm = calls(s, 'selectable_remove'); cl = [e for e in ev if is_call(e, 'close')]; sf = [e for e in ev if is_call(e, 'SSL_free')]; fr = [e for e in ev if is_call(e, 'free')]
            op = opened(F, fd); bound = nonnull(F, initial(st, l.sel)); seen.add((op, bool(op and bound)))
            ctx.ob('clean-close', fn + tag, op is not None and len(cl) == (1 if op else 0) and all(e.args[0] is fd for e in cl), 'the socket is closed exactly once', s)
            ok = len(rm) == (1 if op and bound else 0) and all(e.args[0] is st for e in rm) and (not rm or bool(cl) and index_of(ev, rm[0]) < index_of(ev, cl[0])) and (not op or bound or isnull(F, initial(st, l.sel)))
            ctx.ob('clean-remove', fn + tag, ok, 'an open socket is taken off its loop before it is closed', s)
            ss = initial(st, k.ssl); has = nonnull(F, ss); seen.add(('tls', has))
            ok = len(sf) == len(fr) == (1 if has else 0) and (has or isnull(F, ss)) and all(reads(e.args[0], ss, k.sess) for e in sf) and all(e.args[0] is ss for e in fr) and all(index_of(ev, a_) < index_of(ev, b_) for a_, b_ in zip(sf, fr)) and not [e for e in ev if e.kind == 'uaf']
            ctx.ob('clean-tls', fn + tag, ok, 'the TLS session and its record are freed once each', s)
        ctx.ob('conn-cases', fn + tag, {(True, True), (True, False), (False, False), ('tls', True), ('tls', False)} <= seen, 'found %s' % seen)
        # ---- orderly destruction
        D = 'kconnection_real_destroy'; SH = 'kselectable_ssl_shutdown'; O = (D, SH)
        fn = 'kconnection_destroy'; S = ctx.run(fn, opaque=O); c = ctx.args[0]; seen = set(); ses = initial(c, k.ssl); cbs = set()
        for s in S:
            ev = s.flat(); F = s.final.facts; d = calls(s, D); sh = calls(s, SH)
            hs = bitval(ctx, F, ses, 'kssl_session', 'handshake'); dn = bitval(ctx, F, ses, 'kssl_session', 'shutdown'); err = setbit(F, initial(c, l.flg), l.STF_ERR); noerr = clrbit(F, initial(c, l.flg), l.STF_ERR)
            if sh:
                seen.add('shutdown'); e = sh[0]
                ok = len(sh) == 1 and not d and e.args[0] is c and e.args[1].op == 'f' and e.args[2] is c and hs is True and dn is False and noerr and isnull(e.snap.facts, at(ctx, e, c, l.data)) and s.ret is e.ret
                ctx.ob('end-shutdown', fn + tag, ok, 'an established TLS connection without error is shut down first, its data forgotten', s)
                if e.args[1].op == 'f': cbs.add(e.args[1].args[0])
            else:
                seen.add('direct'); ok = isnull(F, ses) or hs is False or dn is True or err
                ctx.ob('end-direct', fn + tag, ok, 'an established TLS connection must be shut down before it is destroyed', s)
                ctx.ob('end-once', fn + tag, len(d) == 1 and d[0].args[0] is c and s.const(s.ret) == DES, 'the connection is destroyed once', s)
        ctx.ob('conn-cases', fn + tag, seen == {'shutdown', 'direct'} and len(cbs) == 1, 'found %s' % seen)
        for cb in sorted(cbs):
            S = ctx.run(cb, opaque=O); data, c, got = ctx.args; seen = set()
            for s in S:
                d = calls(s, D); sh = calls(s, SH); z = same(s.final.facts, got, ZERO)
                if z: seen.add('again'); ctx.ob('end-again', cb + tag, len(sh) == 1 and not d and sh[0].args[0] is c and sh[0].args[1].op == 'f' and sh[0].args[1].args[0] == cb and sh[0].args[2] is c and s.ret is sh[0].ret, 'a socket that became ready continues the shutdown', s)
                else: seen.add('end'); ctx.ob('end-once', cb + tag, differs(s.final.facts, got, ZERO) is True and len(d) == 1 and not sh and d[0].args[0] is c and s.const(s.ret) == DES, 'after the shutdown the connection is destroyed once', s)
            ctx.ob('conn-cases', cb + tag, seen == {'again', 'end'}, 'found %s' % seen)
        # ---- datagram sockets
        fn = 'kudp_new2'; O = POOLS + ('ksocket_new_udp', 'kconnection_destroy'); S = ctx.run(fn, opaque=O, pure=O); fl, sel = ctx.args; seen = set()
        for s in S:
            ev = s.flat(); F = s.final.facts; n = calls(s, 'ksocket_new_udp'); d = calls(s, 'kconnection_destroy') + calls(s, D); b = mod_calls(ev, 'bind')
            al = [e for e in ev if is_call(e, 'malloc') and s.const(e.args[0]) == k.size]
            if not ctx.ob('udp-new', fn + tag, len(n) == 1 and len(al) == 1, 'one socket for one connection', s): continue
            c = al[0].ret; op = opened(F, n[0].ret)
            if op is not True: seen.add('failed'); ctx.ob('udp-failed', fn + tag, op is False and len(d) == 1 and d[0].args[0] is c and isnull(F, s.ret) and not b and s.const(final(ctx, s, c, k.srv)) == 0, 'without a socket the connection is destroyed once', s); continue
            seen.add('ok')
            if len(b) != 1: ctx.ob('udp-ok', fn + tag, False, 'the connection is bound to the given loop', s); continue
            f = at(ctx, b[0], c, l.flg, 4)
            ok = s.ret is c and not d and at(ctx, b[0], c, l.fd, 4) is n[0].ret and b[0].args[0] is sel and b[0].args[1] is c and (s.const(f) or 0) & l.STF_UDP
            ctx.ob('udp-ok', fn + tag, bool(ok), 'the connection owns the datagram socket and is bound to the given loop', s)
            x = at(ctx, b[0], c, k.srv); ex = [e for e in ev if is_call(e, 'malloc') and e.ret is x]
            seen.add('ext' if ex else 'noext')
            ctx.ob('udp-record', fn + tag, s.const(x) == 0 or len(ex) == 1 and s.const(ex[0].args[0]) == ctx.p.sizeof('kudp_extend_s'), 'the datagram record is the connection\'s own', s)
        ctx.ob('conn-cases', fn + tag, seen == {'failed', 'ok', 'ext', 'noext'}, 'found %s' % seen)
    ctx.cfg = 'epoll'
def tells(r, fd):
    """r is the truth value of fd != -1"""
    if r.op == 'not' and r.args[0].op == 'eq':
        x = r.args[0].args[0]; return x.op == 'lin' and x.args[0] == 1 and x.args[1] == ((fd, 1),) or x is fd and cv(r.args[0].args[1]) == -1
    return False
