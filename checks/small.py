"""Small requests to a socket, a connection or a server, and the questions they answer."""
from fw import *
import ir, absint
from sync import fld
from tls import only
from sockio import MOD

def calls_of(p): return [e for e in p.flat() if e.kind in ('call', 'icall') and not str(e.name).startswith('__assert')]
def writes(p): return [e for e in p.flat() if e.kind in ('st', 'memcpy', 'memset', 'atomic')]

def requests(ctx):
    SEL, FLAGS = (ctx.off('kgl_base_selectable', f) for f in ('selector', 'st_flags'))
    FD, DATA, SSL = fld(ctx, 'kselectable_s', 'fd', 'data', 'ssl'); ST = ctx.off('kconnection_s', 'st')
    M = ir.macro_values(['SHUT_RDWR', 'STF_LOCK', 'TCP_CORK', 'TCP_NODELAY', 'IPPROTO_TCP', 'STF_READ', 'STF_WRITE', 'STF_ERR', 'STF_RDHUP'], ['"kselectable.h"', '<sys/socket.h>', '<netinet/in.h>', '<netinet/tcp.h>'])
    s_, cb, arg, buf, got, loop = (sym('arg:' + x) for x in ('st', 'cb', 'arg', 'buf', 'got', 'loop'))
    def run(fn, args, setup=None, **kw):
        S = ctx.e.run(fn, Cfg(**kw), setup=setup, args=args); ctx.npaths += len(S); ctx.entries.add(fn)
        if not S: raise AnalysisError('%s has no path' % fn)
        return S
    # the requests themselves
    own = initial(s_, SEL)
    want = {'selectable_remove': ([s_], 'remove', [own, s_]), 'selectable_next': ([s_, cb, arg, got], 'next', [own, initial(s_, DATA), cb, arg, got]),
            'selectable_sendfile': ([s_, cb, buf, arg], 'sendfile', [s_, cb, buf, arg]), 'selectable_bind': ([s_, loop], 'bind', [loop, s_]),
            'selectable_readhup': ([s_, cb, arg], 'readhup', [own, s_, cb, arg]), 'selectable_remove_readhup': ([s_], 'remove_readhup', [own, s_])}
    for fn, (args, slot, w) in want.items():
        cs = set()
        for p in run(fn, args):
            c = calls_of(p); F = p.final.facts
            if not c and 'readhup' in slot:
                none = [t for t in F if t.op == 'sym' and isnull(F, t)]
                cs.add('none'); ctx.ob('request-none', fn, bool(none) and not writes(p) and (fn != 'selectable_readhup' or p.const(p.ret) == 0), 'without support for hang-up notices nothing happens and nothing is promised', p); continue
            cs.add('asked')
            ok = len(c) == 1 and c[0].kind == 'icall' and c[0].name == MOD + slot and len(c[0].args) == len(w) and all(a is b for a, b in zip(c[0].args, w)) and not writes(p)
            ctx.ob('request', fn, ok, 'the loop of the socket is asked once, about that socket, with what was given', p)
            if slot in ('readhup', 'sendfile') and ok: ctx.ob('request-answer', fn, p.ret is c[0].ret or slot == 'readhup' and all(truth(f, p.ret) is b for f, b in cases(F, c[0].ret)), 'its answer is passed on', p)
        ctx.ob('request-cases', fn, cs == ({'none', 'asked'} if 'readhup' in slot else {'asked'}), 'found %s' % cs)
    fn = 'selectable_shutdown'
    for p in run(fn, [s_]):
        c = calls_of(p)
        ctx.ob('shutdown', fn, len(c) == 1 and c[0].name == 'shutdown' and c[0].args[0] is initial(s_, FD) and p.const(c[0].args[1]) == M['SHUT_RDWR'] and p.ret is c[0].ret and not writes(p), 'both directions of that socket are shut', p)
    fl = sym('flags0')
    def flags(v):
        def f(E, st): st.wmem()[(s_, FLAGS)] = (C(v), 4, None)
        return f
    TAB = (0, 1, 0x8000, 0x0f0f, 0xffff, M['STF_LOCK'], 0xffff & ~M['STF_LOCK'], 0x5555)
    BITS = tuple(1 << i for i in range(16))
    for v in TAB:
        for m in TAB + BITS:
            for p in run('selectable_clear_flags', [s_, C(m)], flags(v)):
                r = p.const(final(ctx, p, s_, FLAGS, 4)); w = [e for e in writes(p) if not (e.kind == 'st' and e.args[0] is s_ and FLAGS <= e.args[1] < FLAGS + 4)]
                ctx.ob('clear-flags', 'selectable_clear_flags', r == v & ~m and not w and not calls_of(p), 'exactly the given marks are taken away (%x without %x)' % (v, m), p)
            for p in run('is_selectable', [s_, C(m)], flags(v)):
                ctx.ob('test-flags', 'is_selectable', truth(p.final.facts, p.ret) is bool(v & m) and not writes(p), 'a mark is seen exactly when it is there (%x in %x)' % (m, v), p)
    for v in TAB + BITS:
        for p in run('selectable_is_locked', [s_], flags(v)):
            ctx.ob('test-flags', 'selectable_is_locked', truth(p.final.facts, p.ret) is bool(v & M['STF_LOCK']) and not writes(p), 'busy exactly while something is waited for (%x)' % v, p)
    d = sym('arg:data')
    for p in run('selectable_bind_opaque', [s_, d]): ctx.ob('data', 'selectable_bind_opaque', final(ctx, p, s_, DATA) is d and len(writes(p)) == 1 and not calls_of(p), 'the socket keeps what it was given', p)
    for p in run('selectable_get_opaque', [s_]): ctx.ob('data', 'selectable_get_opaque', p.ret is initial(s_, DATA) and not writes(p), 'what the socket was given is returned', p)
    # what a connection is
    ses = sym('al', 'session'); c_ = sym('al', 'conn')
    for cfg in ('epoll', 'kbio'):
        ctx.cfg = cfg
        for tls in (False, True):
            for up in ((False, True) if tls else (False,)):
                def su(base, off):
                    def f(E, st):
                        assume(st.facts, t_eq(ses, ZERO), False); assume(st.facts, t_eq(base, ZERO), False)
                        bo, nb = ctx.p.bitfield('kssl_session', 'handshake')
                        st.wmem()[(base, off + ctx.off('kselectable_s', 'ssl'))] = (ses if tls else ZERO, 8, None)
                        st.wmem()[(ses, bo // 8)] = (C(((1 << bo % 8) if up else 0xff & ~(1 << bo % 8))), 1, None)
                    return f
                for fn, b, off, w in (('selectable_is_ssl_handshake', s_, 0, tls and up), ('kconnection_is_ssl_handshake', c_, ST, tls and up), ('kconnection_is_ssl_not_handshake', c_, ST, tls and not up), ('kconnection_is_ssl', c_, ST, tls)):
                    for p in run(fn, [b], su(b, off)):
                        ctx.ob('tls-state', fn, truth(p.final.facts, p.ret) is w and not writes(p) and not calls_of(p), 'TLS %s, begun %s: the answer says so' % (tls, up), p)
                for p in run('selectable_get_ssl', [s_], su(s_, 0)): ctx.ob('tls-state', 'selectable_get_ssl', p.ret is ses if tls else p.const(p.ret) == 0, 'the session of the socket, or none', p)
                # sending from a file
                fn = 'selectable_support_sendfile'
                for p in run(fn, [s_], su(s_, 0)):
                    F = p.final.facts; c = calls_of(p); k = [e for e in c if e.name == 'BIO_ctrl']
                    if not tls: ctx.ob('sendfile', fn, truth(F, p.ret) is True and not c, 'a plain socket can send from a file', p); continue
                    if cfg == 'kbio': ctx.ob('sendfile', fn, truth(F, p.ret) is False, 'no kernel TLS here', p); continue
                    w_ = only(p.flat(), 'SSL_get_wbio'); bk = ir.macro_values(['BIO_CTRL_GET_KTLS_SEND'], ['<openssl/bio.h>'])
                    if not ctx.ob('sendfile', fn, len(k) == 1 and len(w_) == 1 and w_[0].args[0] is initial(ses, fld(ctx, 'kssl_session', 'ssl')[0]) and k[0].args[0] is w_[0].ret and p.const(k[0].args[1]) == bk['BIO_CTRL_GET_KTLS_SEND'], 'TLS asks whether the kernel does the sending', p): continue
                    for v, b in ((1, True), (0, False), (-1, False)):
                        f = dict(F)
                        try: assume(f, t_eq(k[0].ret, C(v)), True)
                        except absint.Infeasible: continue
                        ctx.ob('sendfile', fn, truth(f, p.ret) is b, 'a file can be sent exactly when the kernel does the TLS', p)
    ctx.cfg = 'epoll'
    for fn, args, opts in (('kconnection_delay', [c_], [(M['TCP_CORK'], 1)]), ('kconnection_no_delay', [c_, C(0)], [(M['TCP_CORK'], 0)]), ('kconnection_no_delay', [c_, C(1)], [(M['TCP_NODELAY'], 1)])):
        for p in run(fn, args):
            c = calls_of(p); o = only(p.flat(), 'setsockopt')
            ok = len(c) == len(o) == len(opts) and all(e.args[0] is initial(c_, ST + FD) and p.const(e.args[1]) == M['IPPROTO_TCP'] and p.const(e.args[2]) == n and p.const(at(ctx, e, e.args[3], 0, 4)) == v and p.const(e.args[4]) == 4 for e, (n, v) in zip(o, opts))
            ctx.ob('delay', fn, ok, 'the connection holds back, or sends at once, as asked', p)
    fn = 'kconnection_self_addr'; a_ = sym('arg:addr'); SZ = ctx.p.sizeof('sockaddr_i')
    for p in run(fn, [c_, a_]):
        c = calls_of(p)
        ok = len(c) == 1 and c[0].name == 'getsockname' and c[0].args[0] is initial(c_, ST + FD) and c[0].args[1] is a_ and p.const(at(ctx, c[0], c[0].args[2], 0, 4)) == SZ and same(p.final.facts, p.ret, c[0].ret)
        ctx.ob('self-addr', fn, ok, 'the own address is asked for with exactly the room there is', p)
    # servers
    sv = sym('al', 'server'); fr = sym('arg:free'); SD, SF, FLG, SX = fld(ctx, 'kserver_s', 'data', 'free_opaque', 'flags', 'ssl_ctx')
    for p in run('kserver_set_opaque', [sv, fr, d]): ctx.ob('data', 'kserver_set_opaque', final(ctx, p, sv, SD) is d and final(ctx, p, sv, SF) is fr and len(writes(p)) == 2 and not calls_of(p), 'the server keeps its data and how to give it back', p)
    for p in run('kserver_get_opaque', [sv]): ctx.ob('data', 'kserver_get_opaque', p.ret is initial(sv, SD) and not writes(p), 'the data of the server is returned', p)
    w = sym('al', 'word')
    for v in TAB:
        for m in TAB:
            def su2(E, st): st.wmem()[(sv, FLG)] = (C(v), 4, None); assume(st.facts, t_eq(sv, ZERO), False)
            for p in run('kserver_test_flag', [sv, C(m)], su2): ctx.ob('test-flags', 'kserver_test_flag', truth(p.final.facts, p.ret) is bool(v & m) and not writes(p), 'a flag is seen exactly when it is there', p)
            for on in (0, 1):
                def su3(E, st): st.wmem()[(w, 0)] = (C(v), 4, None); assume(st.facts, t_eq(w, ZERO), False)
                for p in run('kgl_set_flag', [w, C(m), C(on)], su3): ctx.ob('set-flags', 'kgl_set_flag', p.const(final(ctx, p, w, 0, 4)) == (v | m if on else v & ~m) and not calls_of(p), 'exactly the given flag is set or taken away', p)
    CT, = fld(ctx, 'kgl_ssl_ctx', 'ctx'); SSX, = fld(ctx, 'kserver_selectable_s', 'ssl_ctx'); ls = sym('al', 'listener'); cx = sym('al', 'ctx')
    for fn, b, off in (('kserver_get_ssl_ctx', sv, SX), ('kserver_selectable_get_ssl_ctx', ls, SSX)):
        for has in (False, True):
            def su4(E, st):
                st.wmem()[(b, off)] = (cx if has else ZERO, 8, None)
                for x in (b, cx): assume(st.facts, t_eq(x, ZERO), False)
            for p in run(fn, [b], su4): ctx.ob('server-tls', fn, (p.ret is initial(cx, CT) if has else p.const(p.ret) == 0) and not writes(p), 'the TLS context of the server, or none', p)
    return locals()

def cases(F, t):
    """the facts under each answer of t that is possible"""
    for b in (False, True):
        f = dict(F)
        try: assume(f, t_eq(t, ZERO), not b)
        except absint.Infeasible: continue
        yield f, b
