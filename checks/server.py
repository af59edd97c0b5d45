"""Servers, listeners, accepted connections."""
import itertools
from fw import *
from fw import _slots
from sync import fld, calls, is_next
from fiber import TLS, is_tls, one
from sockio import L, module, segs_of, uniq, inlist, is_sel
from fiberio import CFGS

REL, CTXREL = 'kserver_release', 'kgl_release_ssl_ctx'
FREES = ('free',)
def ups(ev, base, off): return [e for e in ev if e.kind == 'atomic' and e.name == 'add' and e.args[0] is base and cv(e.args[1]) == off and isc(e.args[2]) and cv(e.args[2]) == 1]
def mod_calls(ev, name): return [e for e in ev if e.kind == 'icall' and str(e.name).endswith('kgl_selector_module.' + name)]
def reads(t, base, off):
    """t is a value of the cell (base, off)"""
    return decode(t) == (base, off)
def opened(F, fd):
    if same(F, fd, C(-1)) or lt(F, fd, ZERO) is True: return False
    if differs(F, fd, C(-1)) or lt(F, fd, ZERO) is False: return True
    return None
def touched(ev, obj):
    """events that use memory of obj"""
    return [e for e in ev if e.kind in ('ld', 'st', 'atomic', 'uaf') and ptr_root(e.args[0]) is obj]
class V:
    def __init__(s, ctx):
        s.refs, s.flags, s.fo, s.data, s.list, s.lock, s.ctx, s.addr = fld(ctx, 'kserver_s', 'refs', 'flags', 'free_opaque', 'data', 'ss', 'ss_lock', 'ssl_ctx', 'addr')
        s.server, s.sctx, s.queue, s.acc = fld(ctx, 'kserver_selectable_s', 'server', 'ssl_ctx', 'queue', 'accept_addr')
        s.cref, s.cctx = fld(ctx, 'kgl_ssl_ctx', 'refs', 'ctx')
        for n, v in ir.macro_values(['KGL_SERVER_START', 'KGL_SERVER_SSL', 'KGL_SERVER_UNIX', 'KSOCKET_REUSEPORT'], ['"kserver.h"']).items(): setattr(s, n, v & 0xffffffff)
        s.l = L(ctx)

def server(ctx):
    for cfg in CFGS:
        ctx.cfg = cfg; tag = '' if cfg == 'epoll' else '@release'
        v = V(ctx); l = v.l
        # ---- creation
        fn = 'kserver_init'; S = ctx.run(fn)
        for s in S:
            o = s.ret; h = ptradd(o, v.list); F = s.final.facts
            z = [e for e in s.flat() if e.kind == 'memset' and e.args[0] is o and s.const(e.args[1]) == 0]
            mi = [e for e in s.flat() if is_call(e, 'pthread_mutex_init')]
            ok = fresh_obj(o) and s.const(final(ctx, s, o, v.refs, 4)) == 1 and final(ctx, s, h, 0) is h and final(ctx, s, h, 8) is h
            ctx.ob('server-new', fn + tag, ok and len(mi) == 1 and mi[0].args[0] is ptradd(o, v.lock) and all(s.const(final(ctx, s, o, x)) == 0 for x in (v.fo, v.data, v.ctx)), 'a new server has one reference, no listeners, no owner data and an initialised lock', s)
        S = ctx.run('kserver_refs')
        for s in S: ctx.ob('server-ref', 'kserver_refs' + tag, len(ups(s.flat(), ctx.args[0], v.refs)) == 1 and not [e for e in s.flat() if e.kind == 'st'], 'taking a reference counts exactly one', s)
        # ---- last reference
        fn = REL; S = ctx.run(fn, opaque=(CTXREL,), pure=(CTXREL,)); o = ctx.args[0]; seen = set()
        for s in S:
            ev = s.flat(); F = s.final.facts
            d = [e for e in ev if e.kind == 'atomic' and e.args[0] is o and cv(e.args[1]) == v.refs]
            if not ctx.ob('server-release', fn + tag, len(d) == 1 and d[0].name in ('add', 'sub') and s.const(d[0].args[2]) in (-1, 1) and (d[0].name == 'add') == (s.const(d[0].args[2]) == -1), 'releasing gives back exactly one reference in one atomic step', s): continue
            last = same(F, d[0].ret, ONE)
            rest = [e for e in ev if e is not d[0] and e.kind in ('call', 'icall', 'st', 'atomic', 'uaf')]
            if not last:
                seen.add('more'); ctx.ob('server-release', fn + tag, differs(F, d[0].ret, ONE) and not rest, 'a server with references left must not be touched', s); continue
            seen.add('last')
            fo = [e for e in ev if e.kind == 'icall' and reads(e.x, o, v.fo)]; fset = nonnull(F, initial(o, v.fo))
            ok = len(fo) == (1 if fset else 0) and all(reads(e.args[0], o, v.data) for e in fo) and (fset or isnull(F, initial(o, v.fo)))
            ctx.ob('server-cleanup', fn + tag, ok, 'the owner\'s clean-up runs once with its data, if there is one', s); seen.add('fo' if fset else 'nofo')
            cr = calls(s, CTXREL); cx = [e.args[0] for e in cr]
            had = [t for t in F if reads(t, o, v.ctx) and nonnull(F, t)]
            ctx.ob('server-ctx', fn + tag, len(cr) == (1 if had else 0) and all(reads(x, o, v.ctx) for x in cx), 'the TLS context reference is given back once, if there is one', s); seen.add('ctx' if had else 'noctx')
            md = [e for e in ev if is_call(e, 'pthread_mutex_destroy')]; fr = [e for e in ev if is_call(e, 'free')]
            ok = len(md) == 1 and md[0].args[0] is ptradd(o, v.lock) and len([e for e in fr if e.args[0] is o]) == 1 and fr[-1].args[0] is o and index_of(ev, fr[-1]) > index_of(ev, md[0]) and not [e for e in ev if e.kind == 'uaf'] and all(index_of(ev, e) < index_of(ev, fr[-1]) for e in fo + cr)
            ctx.ob('server-free', fn + tag, ok, 'the lock is destroyed and the server freed, once each and last', s)
        ctx.ob('server-cases', fn + tag, seen == {'more', 'last', 'fo', 'nofo', 'ctx', 'noctx'}, 'found %s' % sorted(seen))
        # ---- listeners
        fn = 'add_server_socket'; S = ctx.run(fn); o, fd = ctx.args; seen = set()
        for s in S:
            ev = s.flat(); F = s.final.facts; ss = s.ret; cx = initial(o, v.ctx)
            has = nonnull(F, cx); seen.add(has); errs, end = lock_scan(s.events)
            ctx.ob('listener-lock', fn + tag, not errs and not any(end), 'the list lock is taken and released in turn', s)
            ok = fresh_obj(ss) and reads_or(final(ctx, s, ss, v.server), o) and final(ctx, s, ss, l.fd, 4) is fd and [e for e in ev if e.kind == 'memset' and e.args[0] is ss]
            ctx.ob('listener-new', fn + tag, bool(ok), 'a listener belongs to its server and owns the socket', s)
            ctx.ob('listener-ref', fn + tag, len(ups(ev, o, v.refs)) == 1, 'a listener holds exactly one reference to its server', s)
            ok = len(ups(ev, cx, v.cref)) == (1 if has else 0) and (has or isnull(F, cx)) and same(F, final(ctx, s, ss, v.sctx), cx)
            ctx.ob('listener-ctx', fn + tag, ok, 'a listener uses the server\'s TLS context and holds a reference to it', s)
            lk = linked(ev); node = ptradd(ss, v.queue)
            ok = len(lk) == 1 and lk[0][0] is node and lk[0][2] is ptradd(o, v.list) or len(lk) == 1 and lk[0][0] is node and lk[0][1] is ptradd(o, v.list)
            ctx.ob('listener-linked', fn + tag, ok and locked(ev, ptradd(o, v.lock), lk[0][3]), 'a listener is put on the server\'s list once, under the list\'s lock', s)
        ctx.ob('server-cases', fn + tag, seen == {True, False}, 'found %s' % seen)
        fn = 'kserver_selectable_destroy'; S = ctx.run(fn, opaque=(REL, CTXREL), pure=(REL, CTXREL), record_loads=True); ss = ctx.args[0]; seen = set()
        sv = initial(ss, v.server)
        for s in S:
            ev = s.flat(); F = s.final.facts; fd = initial(ss, l.fd)
            cl = [e for e in ev if is_call(e, 'close')]; op = opened(F, fd); seen.add(('fd', op))
            ctx.ob('listener-close', fn + tag, op is not None and len(cl) == (1 if op else 0) and all(e.args[0] is fd for e in cl), 'the socket is closed exactly once', s)
            lk = initial(ss, v.queue + 8); inl = nonnull(F, lk); seen.add(('list', inl))
            un = [x for x, e in unlinked(ev)]; ue = [e for x, e in unlinked(ev)]
            ok = (un == [ptradd(ss, v.queue)] if inl else not un and isnull(F, lk)) and all(locked(ev, ptradd(sv, v.lock), e) for e in ue)
            ctx.ob('listener-unlink', fn + tag, ok, 'a listed listener leaves the server\'s list once, under its lock', s)
            r = calls(s, REL)
            ok = len(r) == 1 and r[0].args[0] is sv and not touched(ev[index_of(ev, r[0]) + 1:], sv) and not [e for e in ev[index_of(ev, r[0]):] if is_call(e, LOCK, UNLOCK)]
            ctx.ob('listener-unref', fn + tag, ok, 'the server reference is given back once, after the last use of the server', s)
            cx = initial(ss, v.sctx); has = nonnull(F, cx); seen.add(('ctx', has)); cr = calls(s, CTXREL)
            ctx.ob('listener-unctx', fn + tag, len(cr) == (1 if has else 0) and all(e.args[0] is cx for e in cr) and (has or isnull(F, cx)), 'the TLS context reference is given back once', s)
            fr = [e for e in ev if is_call(e, 'free')]
            ok = len(fr) == 1 and fr[0].args[0] is ss and not touched(ev[index_of(ev, fr[0]) + 1:], ss) and not [e for e in ev if e.kind == 'uaf']
            ctx.ob('listener-free', fn + tag, ok, 'the listener is freed once and not used afterwards', s)
            errs, end = lock_scan(s.events)
            ctx.ob('listener-lock', fn + tag, not errs and not any(end), 'the list lock is taken and released in turn', s)
        ctx.ob('server-cases', fn + tag, all((k, b) in seen for k in ('fd', 'list', 'ctx') for b in (True, False)), 'found %s' % seen)
        opening(ctx, v, tag)
        # ---- closing
        fn = 'kserver_close'; S = ctx.run(fn, record_loads=True); o = ctx.args[0]; n = 0
        for s in S:
            f = final(ctx, s, o, v.flags, 4)
            errs, end = lock_scan(s.events); lockp = ptradd(o, v.lock)
            ctx.ob('close-lock', fn + tag, not errs and not any(end), 'the list lock is taken and released in turn', s)
            ctx.ob('close-started', fn + tag, clr(f, v.KGL_SERVER_START, s.final.facts), 'a closed server must not count as started', s)
            bad = []
            def on(h, e):
                if e.kind == 'ld' and lockp not in h and e.args[0] is o and v.list <= e.args[1] < v.list + 16: bad.append(e)
                if is_call(e, 'shutdown') and lockp not in h: bad.append(e)
            lock_scan(s.events, on)
            ctx.ob('close-list', fn + tag, not bad, 'the listeners must be visited under the list lock', s)
            for le, start, w in traversals(s.events, 8):
                n += 1
                ctx.ob('close-walk', fn + tag, reads(start, o, v.list + 8) or reads(start, o, v.list), 'every listener must be visited', s)
                for g in le.inst.seglist:
                    sd = [e for e in flat(g) if is_call(e, 'shutdown')]
                    ctx.ob('close-walk', fn + tag, len(sd) == 1 and decode(sd[0].args[0]) in [(x, l.fd - v.queue) for x in (w, start)], 'every listener must be shut down once', s)
            if not traversals(s.events, 8):
                ctx.ob('close-walk', fn + tag, any(reads(t, o, v.list + 8) or t is ptradd(o, v.list) for t in s.final.facts) or empty(s, o, v), 'a server with listeners must shut them down', s)
        ctx.ob('server-cases', fn + tag, n > 0, 'no walk over the listeners found')
    ctx.cfg = 'epoll'
def empty(s, o, v):
    h = ptradd(o, v.list)
    return any(same(s.final.facts, initial(o, v.list + k), h) for k in (0, 8))
def reads_or(t, o): return t is o
def clr(f, m, F):
    return isnull(F, t_bit('and', f, C(m), 32)) or f.op == 'and' and isc(f.args[1]) and cv(f.args[1]) & m == 0
def locked(ev, lock, e):
    """e runs while lock is held (straight-line trace)"""
    h = False
    for x in ev:
        if x is e: return h
        if is_call(x, LOCK) and x.args[0] is lock: h = True
        if is_call(x, UNLOCK) and x.args[0] is lock: h = False
    return False

# ------------------------------------------------------------------ opening
OPEN = ('ksocket_listen', 'add_server_socket', 'kfiber_msleep', 'kgl_msleep', 'kfiber_is_main', 'ksocket_sockaddr_ip', 'get_selector_by_index', 'get_perfect_selector', TLS, 'ksocket_addr_port', 'ksocket_addr_len', 'kserver_selectable_destroy', 'get_selector_count')
def started(ctx, v, ev, ss, sel, cb, o, s, fn, tag, rule='open'):
    """the events after a listener was created: bound, registered with the callback, server started, asked to accept on its own loop"""
    l = v.l
    b = mod_calls(ev, 'bind'); li = mod_calls(ev, 'listen'); ac = mod_calls(ev, 'accept'); nx = mod_calls(ev, 'next')
    ok = len(b) == 1 and (b[0].args[0] is sel or is_tls(sel) and is_tls(b[0].args[0])) and b[0].args[1] is ss and len(li) == 1 and li[0].args[0] is ss and li[0].args[1] is cb and index_of(ev, b[0]) < index_of(ev, li[0])
    ctx.ob(rule + '-register', fn + tag, ok, 'a new listener is bound to its loop and registered with the caller\'s callback, once', s)
    d = [e for e in ev if e.kind == 'st' and e.args[0] is ss and e.args[1] == l.data]
    ctx.ob(rule + '-self', fn + tag, len(d) == 1 and d[0].args[2] is ss, 'the callback must be given its listener', s)
    if not ok: return
    ctx.ob(rule + '-accept', fn + tag, len(ac) + len(nx) == 1, 'a new listener must start accepting, once', s)
    F = (ac + nx)[0].snap.facts if ac + nx else {}
    fs = [e for e in ev if e.kind == 'st' and e.args[0] is o and e.args[1] == v.flags]
    ok = all(any(e.args[2].op in ('or', 'and') and isc(e.args[2].args[1]) and cv(e.args[2].args[1]) & v.KGL_SERVER_START and index_of(ev, e) < index_of(ev, x) for e in fs) for x in ac + nx)
    ctx.ob(rule + '-started', fn + tag, ok, 'the server must be marked started before its listener can accept', s)
    for e in ac:
        ctx.ob(rule + '-loop', fn + tag, e.args[0] is ss and mine(ctx, e, ss, l), 'accepting directly is only allowed on the listener\'s own loop', s)
        ds = [x for x in ev if is_call(x, 'kserver_selectable_destroy')]
        t = truth(e.snap.facts, e.ret); t = [x for x in (t,) if x is not None]
        fail = len(ds) == 1 and ds[0].args[0] is ss
        ctx.ob(rule + '-fail', fn + tag, not ds or fail and isnull(ds[0].snap.facts, e.ret), 'only a listener that cannot accept is destroyed', s)
    for e in nx:
        ok = reads(e.args[0], ss, l.sel) and e.args[2].op == 'f' and e.args[3] is ss
        ctx.ob(rule + '-loop', fn + tag, ok, 'another loop must be asked to start its own listener', s)
        if e.args[2].op == 'f': posted.add(e.args[2].args[0])
posted = set()
def noref(ctx, v, fn, s, *objs):
    """beyond what adding or destroying a listener counts, nothing is counted"""
    ctx.ob('open-refs', fn, not [e for e in s.flat() if e.kind == 'atomic' and (e.args[0] in objs and cv(e.args[1]) == v.refs or e.args[0] not in objs and decode(e.args[0]) is not None and decode(e.args[0])[1] in (v.server, v.sctx))], 'the references of a server are those its listeners hold: opening takes and gives back no other', s)
def mine(ctx, e, ss, l):
    """at this point the listener's loop is known to be the calling thread's"""
    v = at(ctx, e, ss, l.sel, 8)
    if is_tls(v) or is_tls(e.snap.eqs.get(v, v)): return True
    return any(is_tls(b) and (reads(a, ss, l.sel)) or is_tls(a) and reads(b, ss, l.sel) for a, b in e.snap.eqs.items())

def opening(ctx, v, tag):
    l = v.l; posted.clear()
    fn = 'kserver_open'; seen = set(); o, flag, cb = sym('al', 'server'), sym('arg:flag'), mk('f', 'verif_accept'); fds = itertools.count(); TRIES = next((k for k in ctx.p.globals if k.endswith('@kserver') and 'tries' in k), None)
    def count(n):
        def f(E, st, fr, i, args, work): fr.env[i['i']] = C(n); return None
        return f
    def byindex(E, st, fr, i, args, work): fr.env[i['i']] = sym('loop', args[0]); E.emit(st, 'call', 'get_selector_by_index', args, fr.env[i['i']], i); return None
    for n, tries in [(n, t) for n in ((0, 1, 2, 3) if ctx.tier == 'thorough' else (0, 1, 2)) for t in (11, 10)]:
        if TRIES is None and n > 1: continue
        def setup(E, st):
            assume(st.facts, t_eq(o, ZERO), False); f = sym("m", o, v.flags, None)
            assume(st.facts, t_eq(t_bit('and', f, C(v.KGL_SERVER_START), 32), ZERO), True)
            if TRIES: st.wmem()[(mk('g', TRIES), 0)] = (C(tries), 4, None)
        S = ctx.e.run(fn, Cfg(opaque=OPEN, pure=OPEN, havoc='none', cut=6, models={'get_selector_count': count(n), 'get_selector_by_index': byindex}), args=[o, flag, cb], setup=setup)
        ctx.entries.add(fn); ctx.npaths += len(S); inst = '%s, %d loops%s' % (fn, n, '' if tries == 11 else ', one more try') + tag
        for s in S:
            if s.kind == 'cut': continue
            ev = s.flat(); F = s.final.facts; li = [e for e in ev if is_call(e, 'ksocket_listen')]; ad = [e for e in ev if is_call(e, 'add_server_socket')]
            noref(ctx, v, inst, s, o)
            for e in li:
                f = e.args[1]
                ctx.ob('open-listen', inst, e.args[0] is ptradd(o, v.addr) and (f.op == 'or' and f.args[0] is flag and isc(f.args[1]) and cv(f.args[1]) == v.KSOCKET_REUSEPORT), 'listens on the bound address with the caller\'s flags', s)
            bad = [e for e in li if opened(F, e.ret) is False]; good = [e for e in li if opened(F, e.ret)]
            if TRIES: ctx.ob('open-each', inst, len(li) == n + (tries == 10 and bool(bad)) and len(good) + len(bad) == len(li), 'every loop is tried', s)
            ctx.ob('open-socket', inst, [(e.args[0], e.args[1]) for e in ad] == [(o, e.ret) for e in good], 'a socket that listens, and only that, becomes a listener, once', s)
            sels = []
            for a in ad:
                if isnull(F, a.ret): continue
                mine_ = [e for e in ev if e.kind != 'icall' and not is_call(e, 'kserver_selectable_destroy') or a.ret in e.args]
                b = mod_calls(mine_, 'bind'); sels.append(b[0].args[0] if b else None); seen.add('opened')
                started(ctx, v, mine_, a.ret, sels[-1], cb, o, s, fn, tag)
            ctx.ob('open-one', inst, len(set(sels)) == len(sels) and all(x is not None and x.op == 'sym' and x.args[0] == 'loop' and isc(x.args[1]) and 0 <= cv(x.args[1]) < n for x in sels), 'every loop gets its own listener', s)
            r = s.const(s.ret)
            if bad: seen.add('failed')
            ctx.ob('open-result', inst, r is not None and bool(r & 1) == bool(sels), 'the call succeeds exactly if a listener could be opened', s)
    ctx.ob('server-cases', fn + tag, {'failed', 'opened'} <= seen, 'found %s' % seen)
    for p in sorted(posted):
        S = ctx.run(p, opaque=OPEN, pure=OPEN); ss = ctx.args[1]; k = set()
        for s in S:
            ac = mod_calls(s.flat(), 'accept'); ds = calls(s, 'kserver_selectable_destroy')
            noref(ctx, v, p + tag, s)
            if not ctx.ob('open-posted', p + tag, len(ac) == 1 and ac[0].args[0] is ss and s.const(s.ret) == ctx.p.enum('kev_ok'), 'the posted start accepts on its listener', s): continue
            t = truth(s.final.facts, ac[0].ret); k.add(t)
            ctx.ob('open-posted', p + tag, len(ds) == (0 if t else 1) and all(e.args[0] is ss for e in ds), 'only a listener that cannot accept is destroyed', s)
        ctx.ob('server-cases', p + tag, k == {True, False}, 'found %s' % k)
    ctx.ob('server-cases', 'posted' + tag, len(posted) == 1, 'found %s' % sorted(posted))
    bound(ctx, v, tag)
    fn = 'kserver_open_exsit'; S = ctx.run(fn, opaque=OPEN, pure=OPEN); o, fd, cb = ctx.args; seen = set()
    for s in S:
        ev = s.flat(); ad = [e for e in ev if is_call(e, 'add_server_socket')]; r = s.const(s.ret); li = mod_calls(ev, 'listen')
        noref(ctx, v, fn + tag, s, o)
        seen.add(r)
        if not ad: ctx.ob('openfd-fail', fn + tag, r == 0, 'without a listener the call must fail', s); continue
        ok = len(ad) == 1 and ad[0].args[0] is o and ad[0].args[1] is fd
        ctx.ob('openfd-socket', fn + tag, ok, 'the given socket becomes the listener', s)
        if r == 1: started(ctx, v, ev, ad[0].ret, mk_tls(ev), cb, o, s, fn, tag, 'openfd')
        else: ctx.ob('openfd-fail', fn + tag, isnull(s.final.facts, ad[0].ret) or len(li) == 1 and isnull(s.final.facts, li[0].ret), 'only a listener that cannot be registered fails the call', s)
    ctx.ob('server-cases', fn + tag, seen == {0, 1}, 'found %s' % seen)
    # one listener on the loop of this thread: plainly, and for fibers
    fiber = kfiber_cb = None
    for fn in ('kserver_listen', 'kfiber_net_listen'):
        F1 = fn == 'kserver_listen'
        S = [p for p in ctx.run(fn, opaque=OPEN + ('kselector_get_fiber',), pure=OPEN, cut=3) if p.kind != 'cut']; o, flag = ctx.args[:2]; cb = ctx.args[2]; seen = set()
        for s in S:
            ev = s.flat(); F = s.final.facts; ad = [e for e in ev if is_call(e, 'add_server_socket')]; li = [e for e in ev if is_call(e, 'ksocket_listen')]
            noref(ctx, v, fn + tag, s, o)
            fl = lambda f: f is flag or f.op == 'or' and f.args[0] is flag and isc(f.args[1]) and cv(f.args[1]) == v.KSOCKET_REUSEPORT
            ctx.ob('one-listen', fn + tag, li and all(e.args[0] is ptradd(o, v.addr) and fl(e.args[1]) for e in li), 'listens on the bound address with the caller\'s flags', s)
            given = s.ret if F1 else final(ctx, s, cb, 0)
            got = ad[0].ret if ad and not isnull(F, ad[0].ret) else None; seen.add(got is not None)
            okk = [opened(e.snap.facts, e.args[1]) and any(e.args[1] is x.ret for x in li) and e.args[0] is o for e in ad]
            ctx.ob('one-socket', fn + tag, len(ad) <= 1 and all(okk) and (ad or all(opened(F, e.ret) is False for e in li)), 'a socket that listens, and only that, becomes a listener', s)
            ctx.ob('one-given', fn + tag, given is got if got is not None else isnull(F, given), 'the caller gets the listener, or none', s)
            bind, reg = mod_calls(ev, 'bind'), mod_calls(ev, 'listen')
            st_ = clr(final(ctx, s, o, v.flags, 4), v.KGL_SERVER_START, F); fs = [e for e in ev if e.kind == 'st' and e.args[0] is o and e.args[1] == v.flags]
            if got is None: ctx.ob('one-none', fn + tag, not bind and not reg and not fs, 'without a listener nothing is registered and the server is not started', s)
            else:
                ok = len(bind) == 1 and is_tls(bind[0].args[0]) and bind[0].args[1] is got and len(reg) == 1 and reg[0].args[0] is got and index_of(ev, bind[0]) < index_of(ev, reg[0]) and [e.args[2] for e in ev if e.kind == 'st' and e.args[0] is got and e.args[1] == l.data] == [got]
                ok = ok and (reg[0].args[1] is cb if F1 else reg[0].args[1].op == 'f')
                ctx.ob('one-register', fn + tag, ok, 'it is bound to the loop of this thread and registered with the callback', s)
                ctx.ob('one-quiet', fn + tag, not mod_calls(ev, 'accept') and not mod_calls(ev, 'next'), 'nothing is accepted before it is asked for', s)
            if not F1:
                r = s.const(s.ret)
                ctx.ob('one-result', fn + tag, r is not None and (r == 0) == (got is not None), 'the call succeeds exactly with a listener', s)
                if got is not None: ctx.ob('one-started', fn + tag, any(e.args[2].op == 'or' and isc(e.args[2].args[1]) and cv(e.args[2].args[1]) & 0xffffffff == v.KGL_SERVER_START for e in fs), 'and the server counts as started', s)
        ctx.ob('server-cases', fn + tag, seen == {True, False}, 'found %s' % seen)
    fn = 'kserver_set_opaque'
    for s in ctx.run(fn):
        o, f, d = ctx.args; ctx.ob('server-owner', fn + tag, final(ctx, s, o, v.fo) is f and final(ctx, s, o, v.data) is d and len([e for e in s.flat() if e.kind == 'st']) == 2, 'the owner\'s data and clean-up are remembered', s)
    for s in ctx.run('kserver_get_opaque'): ctx.ob('server-owner', 'kserver_get_opaque' + tag, s.ret is initial(ctx.args[0], v.data), 'the owner\'s data is given back', s)
    fn = 'is_server_multi_selectable'; S = ctx.e.run
    for order in ([], ['a'], ['a', 'b'], ['a', 'b', 'c']):
        o = sym('al', 'server')
        def ring(E, st):
            m = st.wmem(); h = ptradd(o, v.list); L_ = [h] + [sym('al', x) for x in order]
            for k, x in enumerate(L_):
                b, f = ptr_split(x); m[(b, f)] = (L_[k - 1], 8, None); m[(b, f + 8)] = (L_[(k + 1) % len(L_)], 8, None)
        for s in ctx.e.run(fn, Cfg(havoc='none'), args=[o], setup=ring):
            ctx.npaths += 1; ctx.entries.add(fn); r = s.const(s.ret); errs, end = lock_scan(s.events)
            ctx.ob('server-many', '%s, %d listeners' % (fn, len(order)) + tag, r is not None and bool(r & 1) == (len(order) > 1) and not errs and not any(end), 'more than one listener, looked at under the lock', s)
def mk_tls(ev):
    t = [e.ret for e in ev if is_call(e, TLS)]
    return t[0] if t else None

def bound(ctx, v, tag):
    """a server knows its address, and whether that is a local path"""
    FAM = ir.macro_values(['AF_UNIX', 'AF_INET', 'AF_INET6', 'AI_NUMERICHOST'], ['<sys/socket.h>', '<netdb.h>']); o = sym('al', 'server'); ip = sym('al', 'name'); port = sym('arg:port'); fd = sym('arg:fd'); cb = mk('f', 'verif_accept')
    OP = (CTXREL, 'kserver_set_ssl_ctx', 'ksocket_getaddr', 'ksocket_unix_addr', 'add_server_socket', 'getsockname', TLS)
    for fam in ('AF_UNIX', 'AF_INET', 'AF_INET6'):
        for before in (0, v.KGL_SERVER_UNIX, v.KGL_SERVER_START, 0x55555555 & ~v.KGL_SERVER_SSL & ~v.KGL_SERVER_UNIX & 0x7fffffff):
            for good in (True, False):
                def su(E, st):
                    for x in (o, ip): assume(st.facts, t_eq(x, ZERO), False)
                    st.wmem()[(o, v.flags)] = (C(before), 4, None); st.wmem()[(ip, 0)] = (C(47 if fam == 'AF_UNIX' else 49), 1, None)
                def fill(name, dst, ok, bad):
                    def f(E, st, fr, i, args, work):
                        b, off = ptr_split(args[dst]); r = C(ok if good else bad); st.wmem()[(b, off)] = (C(FAM[fam]), 2, None); fr.env[i['i']] = r; E.emit(st, 'call', name, args, r, i)
                    return f
                MO = {'ksocket_unix_addr': fill('ksocket_unix_addr', 1, 0, -1), 'ksocket_getaddr': fill('ksocket_getaddr', 4, 1, 0), 'getsockname': fill('getsockname', 1, 0, -1)}
                for fn in ('kserver_bind', 'kserver_open_exsit'):
                    bind = fn == 'kserver_bind'
                    for p in ctx.e.run(fn, Cfg(opaque=OP, pure=OP, models=MO, havoc='none'), setup=su, args=[o, ip, port, ZERO] if bind else [o, fd, cb]):
                        ctx.npaths += 1; ctx.entries.add(fn); ev = p.flat(); q = [e for e in ev if e.kind == 'call' and e.name in MO]; r = p.const(p.ret); fl = p.const(final(ctx, p, o, v.flags, 4)); A = ptradd(o, v.addr)
                        if bind: ok = len(q) == 1 and (q[0].name == 'ksocket_unix_addr' and q[0].args[0] is ip and ptr_split(q[0].args[1]) == ptr_split(A) if fam == 'AF_UNIX' else q[0].name == 'ksocket_getaddr' and q[0].args[0] is ip and q[0].args[1] is port and ptr_split(q[0].args[4]) == ptr_split(A) and p.const(q[0].args[3]) == FAM['AI_NUMERICHOST'])
                        else: ok = len(q) == 1 and q[0].name == 'getsockname' and q[0].args[0] is fd and ptr_split(q[0].args[1]) == ptr_split(A) and v.addr + (p.const(at(ctx, q[0], q[0].args[2], 0, 4)) or 1 << 20) <= ctx.p.sizeof('kserver_s') and (p.const(at(ctx, q[0], q[0].args[2], 0, 4)) or 0) >= ctx.p.sizeof('sockaddr_i')
                        ctx.ob('server-address', fn + tag, ok, 'the address of the server is found once, from what was given, and kept in the server', p)
                        if not good: ctx.ob('server-address', fn + tag, r == 0 and not [e for e in ev if e.kind == 'icall' or is_call(e, 'add_server_socket')], 'without an address nothing is opened', p); continue
                        if bind or r == 1: ctx.ob('server-local', fn + tag, (bind and r == 1 or r == 1) and fl is not None and fl & 0x7fffffff & ~v.KGL_SERVER_START == (before & ~v.KGL_SERVER_UNIX & ~v.KGL_SERVER_START | (v.KGL_SERVER_UNIX if fam == 'AF_UNIX' else 0)) & 0x7fffffff and (not bind or fl & v.KGL_SERVER_START == before & v.KGL_SERVER_START), 'a server is a local one exactly if its address is a path (%s, %x before, %x after)' % (fam, before, fl or 0), p)
