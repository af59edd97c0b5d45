"""TLS: driving handshake and shutdown, sessions, contexts."""
from fw import *
import ir, absint
from sync import fld, calls
from conn import K, clrbit, setbit, bitval
from server import reads, locked, touched, V, ups, mod_calls

CFGT = [('epoll', ''), ('ndebug', '@release'), ('kbio', '@bio')]
def now(snap, ctx, base, t, field, facts=None):
    """current truth of a bit-field"""
    bo, n = ctx.p.bitfield(t, field); v = ctx.e.load_snap(snap, ptradd(base, bo // 8), 1, None); b = t_bit('and', v, C(1 << (bo % 8)), 8)
    F = facts if facts is not None else snap.facts
    if isc(b): return bool(cv(b))
    r = truth(F, b)
    return truth(F, t_bit('and', t_bit('lshr', v, C(bo % 8), 8), C(1), 8)) if r is None and bo % 8 else r
def only(ev, name): return [e for e in ev if is_call(e, name)]
def pend(ctx, ev, c, op):
    """BIO_pending() of the connection's BIO for direction op"""
    sess = initial(c, K_ssl); return [e for e in ev if is_call(e, 'BIO_ctrl') and e.ctx_const == 10]

def drive(ctx):
    E = ir.macro_values(['SSL_ERROR_WANT_READ', 'SSL_ERROR_WANT_WRITE', 'SSL_ERROR_WANT_CONNECT', 'SSL_ERROR_WANT_ACCEPT', 'SSL_READ_EARLY_DATA_FINISH', 'SSL_READ_EARLY_DATA_SUCCESS', 'SSL_CTRL_SET_TLSEXT_HOSTNAME', 'BIO_CTRL_PENDING', 'SSL_ERROR_WANT_X509_LOOKUP', 'SSL_TLSEXT_ERR_OK', 'SSL_TLSEXT_ERR_ALERT_FATAL', 'KGL_SERVER_REJECT_NOSNI'], ['<openssl/ssl.h>', '"kserver.h"'])
    WR, WW = E['SSL_ERROR_WANT_READ'], E['SSL_ERROR_WANT_WRITE']; WWS = (WW, E['SSL_ERROR_WANT_CONNECT'], E['SSL_ERROR_WANT_ACCEPT'])
    for cfg, tag in CFGT:
        ctx.cfg = cfg; bio = cfg == 'kbio'; k = K(ctx); l = k.l
        RW = ('selectable_read', 'selectable_write')
        # ---- one step of a handshake / a shutdown
        for fn in ('kselectable_ssl_handshake', 'kselectable_ssl_shutdown'):
            shut = fn.endswith('shutdown'); S = ctx.run(fn, opaque=RW); st, cb, arg = ctx.args; seen = set(); sess = initial(st, k.ssl)
            for s in S:
                ev = s.flat(); F = s.final.facts; h = only(ev, 'SSL_shutdown' if shut else 'SSL_do_handshake'); ed = only(ev, 'SSL_read_early_data'); ge = only(ev, 'SSL_get_error')
                d = [e for e in ev if e.kind == 'icall' and e.x is cb]; rd = calls(s, 'selectable_read'); wr = calls(s, 'selectable_write'); out = d + rd + wr
                ok = len(out) == 1 and s.ret is out[0].ret and all(e.args[0] is st and e.args[1] is cb and isnull(F, e.args[2]) and e.args[3] is arg for e in rd + wr) and all(reads(e.args[0], st, l.data) and e.args[1] is arg for e in d)
                if not ctx.ob('step-one', fn + tag, ok, 'a step either tells the callback or waits once, with the same callback and argument', s): continue
                o = out[0]; oF = o.snap.facts; te = None if shut else bitval(ctx, F, sess, 'kssl_session', 'try_early_data')
                if not shut:
                    ok = len(ed) == (1 if te else 0) and te is not None and all(reads(e.args[0], sess, k.sess) and s.const(e.args[2]) == 1 for e in ed)
                    if not ctx.ob('step-early', fn + tag, ok, 'early data is tried first exactly if enabled', s): continue
                n = None; src = h
                if te:
                    n = ed[0].ret
                    if same(F, n, C(E['SSL_READ_EARLY_DATA_SUCCESS'])):
                        seen.add('early')
                        bo, _ = ctx.p.bitfield('kssl_session', 'early_buf'); v = at(ctx, o, sess, bo // 8, 1); dv = decode(v)
                        ok = not h and len(d) == 1 and s.const(d[0].args[2]) == 1 and now(o.snap, ctx, sess, 'kssl_session', 'try_early_data') is False and now(o.snap, ctx, sess, 'kssl_session', 'in_early') is True and now(o.snap, ctx, sess, 'kssl_session', 'early_preread') is True and dv is not None and dv == ptr_split(ed[0].args[1])
                        ctx.ob('step-early-kept', fn + tag, ok, 'the first early byte is kept for the reader and the handshake reported done', s); continue
                    if same(F, n, C(E['SSL_READ_EARLY_DATA_FINISH'])):
                        seen.add('early-end'); ctx.ob('step-early-end', fn + tag, now(o.snap, ctx, sess, 'kssl_session', 'try_early_data') is False, 'early data that is over is not tried again', s)
                    else:
                        seen.add('early-wait'); src = ed
                        ctx.ob('step-early-wait', fn + tag, not h and now(o.snap, ctx, sess, 'kssl_session', 'try_early_data', F) is not False, 'early data that is not decided is tried again', s)
                if not ctx.ob('step-tls', fn + tag, len(src) == 1 and reads(src[0].args[0], sess, k.sess) and (src is h or not h), 'TLS is asked exactly once', s): continue
                r = src[0].ret; good = same(F, r, C(1)) if shut else src is h and lt(F, ZERO, r) is True
                if good: kind = 'done'
                else:
                    ok = len(ge) >= 1 and all(reads(e.args[0], sess, k.sess) and e.args[1] is r for e in ge) and (src is ed or (differs(F, r, C(1)) if shut else lt(F, ZERO, r) is False))
                    if not ctx.ob('step-error', fn + tag, ok, 'an unfinished step asks TLS why', s): continue
                    x = ge[-1].ret
                    if same(F, x, C(WR)): kind = 'read'
                    elif any(same(F, x, C(w)) for w in ((WW,) if shut else WWS)): kind = 'write'
                    else:
                        kind = 'failed'
                        ctx.ob('step-classes', fn + tag, all(differs(F, x, C(w)) is True for w in (WR,) + ((WW,) if shut else WWS)), 'a step TLS wants to continue must continue', s)
                if bio:
                    p = [e for e in ev if is_call(e, 'BIO_ctrl') and s.const(e.args[1]) == E['BIO_CTRL_PENDING']]
                    # kgl_bio direction OP_WRITE
                    bo = ctx.off('kssl_session', 'bio'); bs = ctx.p.sizeof('kssl_bio')
                    need = any(lt(F, ZERO, e.ret) is True for e in p)
                    if need and (kind != 'failed' or same(F, x, C(E['SSL_ERROR_WANT_X509_LOOKUP']))):
                        seen.add('flush'); ctx.ob('step-flush', fn + tag, len(wr) == 1 and all(reads(e.args[0], sess, bo + bs * l.OP_WRITE) for e in p), 'produced records are sent first', s); continue
                    ctx.ob('step-flush', fn + tag, kind == 'failed' or len(p) >= 1 and all(reads(e.args[0], sess, bo + bs * l.OP_WRITE) and lt(F, ZERO, e.ret) is False for e in p), 'produced records must be sent first', s)
                seen.add(kind); fl = at(ctx, o, st, l.flg, 4); f0 = initial(st, l.flg)
                if kind == 'done': ctx.ob('step-done', fn + tag, len(d) == 1 and s.const(d[0].args[2]) == 1, 'a finished step is reported as done', s)
                elif kind == 'failed': ctx.ob('step-failed', fn + tag, len(d) == 1 and s.const(d[0].args[2]) == (1 if shut else -1), 'a failed step is reported', s)
                else:
                    bit = l.STF_RREADY if kind == 'read' else l.STF_WREADY
                    ctx.ob('step-wait', fn + tag, out == (rd if kind == 'read' else wr) and (bio or clrbit(oF, fl, bit)), 'the step waits for the readiness TLS asked for, and not for a stale one', s)
            want = {'done', 'failed', 'read', 'write'} | (set() if shut else {'early', 'early-end', 'early-wait'}) | ({'flush'} if bio else set())
            ctx.ob('tls-cases', fn + tag, seen == want, 'found %s' % seen)
        # ---- a connection's handshake
        fn = 'kconnection_ssl_handshake'; H = 'kselectable_ssl_handshake'; S = ctx.run(fn, opaque=(H,)); c, cb, arg = ctx.args; res = set()
        for s in S:
            h = calls(s, H); ev = s.flat(); al = [e for e in ev if is_call(e, 'malloc')]
            ok = len(h) == 1 and len(al) == 1 and h[0].args[0] is c and h[0].args[1].op == 'f' and h[0].args[2] is al[0].ret and s.ret is h[0].ret and not only(ev, 'free')
            if not ctx.ob('hand-start', fn + tag, ok, 'the handshake is started once on the connection with a record of its own', s): continue
            ctx.ob('hand-mark', fn + tag, now(h[0].snap, ctx, initial(c, k.ssl), 'kssl_session', 'handshake') is True, 'the session is marked as in use, so that it is shut down in the end', s)
            res.add((h[0].args[1].args[0], h[0]))
        ctx.ob('tls-cases', fn + tag, len({r for r, _ in res}) == 1, 'one completion function')
        for cbn, start in res:
            P0 = start.args[2]; S = ctx.run(cbn, opaque=(H,)); data, p, got = ctx.args; seen = set()
            def orig(t):
                x = decode(t); return at(ctx, start, P0, x[1]) if x and x[0] is p else None
            for s in S:
                ev = s.flat(); F = s.final.facts; h = calls(s, H); fr = only(ev, 'free'); d = [e for e in ev if e.kind == 'icall' and orig(e.x) is cb]
                fin = same(F, got, C(1)) or same(F, got, C(-1))
                if fin:
                    good = same(F, got, C(1)) is True; seen.add(good)
                    dd = decode(d[0].args[0]) if d else None
                    ok = len(d) == 1 and not h and dd is not None and dd[1] == l.data and orig(dd[0]) is c and orig(d[0].args[1]) is arg and s.const(d[0].args[2]) == (0 if good else -1) and s.ret is d[0].ret
                    ctx.ob('hand-told', cbn + tag, ok, 'the caller is told exactly once, with its own data and argument: 0 if done, -1 if failed', s)
                    ctx.ob('hand-free', cbn + tag, len(fr) == 1 and fr[0].args[0] is p and not [e for e in ev if e.kind == 'uaf'], 'the record is freed exactly once, after its last use', s)
                else:
                    seen.add('again')
                    ok = len(h) == 1 and not d and not fr and orig(h[0].args[0]) is c and h[0].args[1].op == 'f' and h[0].args[1].args[0] == cbn and h[0].args[2] is p and s.ret is h[0].ret
                    ctx.ob('hand-again', cbn + tag, ok, 'a socket that became ready continues the handshake with the same record', s)
            ctx.ob('tls-cases', cbn + tag, seen == {True, False, 'again'}, 'found %s' % seen)
        # ---- sessions
        for fn in ('kconnection_ssl_connect', 'kconnection_ssl_accept'):
            cli = fn.endswith('connect'); S = ctx.run(fn); a = ctx.args; c, cx = a[0], a[1]; seen = set()
            for s in S:
                ev = s.flat(); F = s.final.facts; n = only(ev, 'SSL_new'); fdv = only(ev, 'SSL_set_fd'); sf = only(ev, 'SSL_free')
                if not ctx.ob('sess-new', fn + tag, len(n) == 1 and n[0].args[0] is cx, 'one session of the given context', s): continue
                x = n[0].ret; al = [e for e in ev if is_call(e, 'malloc')]
                if not nonnull(F, x): seen.add('none'); ctx.ob('sess-failed', fn + tag, isnull(F, x) and s.const(s.ret) == 0 and not al and not sf, 'without a session nothing is left behind', s); continue
                if not ctx.ob('sess-fd', fn + tag, len(fdv) == 1 and fdv[0].args[0] is x and reads(fdv[0].args[1], c, l.fd), 'the session works on the connection\'s socket', s): continue
                if not same(F, fdv[0].ret, C(1)):
                    seen.add('nofd'); ctx.ob('sess-failed', fn + tag, differs(F, fdv[0].ret, C(1)) is True and len(sf) == 1 and sf[0].args[0] is x and s.const(s.ret) == 0 and not al, 'a session that cannot be attached is freed once', s); continue
                seen.add('ok')
                ok = len(al) == 1 and final(ctx, s, c, k.ssl) is al[0].ret and final(ctx, s, al[0].ret, k.sess) is x and not sf and s.const(s.ret) not in (0, None)
                ctx.ob('sess-record', fn + tag, ok, 'the connection gets one cleared record with the session', s)
                on, off = ('SSL_set_connect_state', 'SSL_set_accept_state')[::1 if cli else -1]
                ctx.ob('sess-role', fn + tag, len(only(ev, on)) == 1 and only(ev, on)[0].args[0] is x and not only(ev, off), 'the session has the right role', s)
                me = only(ev, 'SSL_CTX_get_max_early_data'); te = now(s.final, ctx, al[0].ret, 'kssl_session', 'try_early_data') if al else None
                ctx.ob('sess-early', fn + tag, len(me) == 1 and me[0].args[0] is cx and te is not None and (te is True) == bool(nonnull(F, me[0].ret)), 'early data is tried exactly if the context allows it', s)
                ctx.ob('sess-clear', fn + tag, all(now(s.final, ctx, al[0].ret, 'kssl_session', f) is False for f in ('in_early', 'early_preread', 'handshake', 'shutdown', 'alt_svc_sent')), 'the other marks start cleared', s)
                if cli:
                    ho = [e for e in only(ev, 'SSL_ctrl') if s.const(e.args[1]) == E['SSL_CTRL_SET_TLSEXT_HOSTNAME']]; hn = nonnull(F, a[2]); seen.add(('host', bool(hn)))
                    ctx.ob('sess-host', fn + tag, len(ho) == (1 if hn else 0) and all(e.args[0] is x and e.args[3] is a[2] for e in ho), 'a given host name is sent', s)
                else:
                    xd = only(ev, 'SSL_set_ex_data')
                    ctx.ob('sess-conn', fn + tag, len(xd) == 1 and xd[0].args[0] is x and xd[0].args[2] is c and decode(xd[0].args[1]) is not None and decode(xd[0].args[1])[0] is mk('g', 'kangle_ssl_conntion_index'), 'the session leads back to its connection', s)
                if bio:
                    bn = only(ev, 'BIO_new'); sb = only(ev, 'SSL_set_bio'); bo = ctx.off('kssl_session', 'bio'); bs = ctx.p.sizeof('kssl_bio')
                    ok = len(bn) == 2 and len(sb) == 1 and sb[0].args[0] is x and {sb[0].args[1], sb[0].args[2]} == {e.ret for e in bn} and bool(al) and at(ctx, sb[0], al[0].ret, bo + bs * l.OP_READ) is sb[0].args[1] and at(ctx, sb[0], al[0].ret, bo + bs * l.OP_WRITE) is sb[0].args[2]
                    ctx.ob('sess-bio', fn + tag, ok, 'the session reads and writes through the connection\'s own two buffers', s)
            ctx.ob('tls-cases', fn + tag, seen == {'none', 'nofd', 'ok'} | ({('host', True), ('host', False)} if cli else set()), 'found %s' % seen)
        # ---- server name
        fn = 'kgl_ssl_sni'; S = ctx.run(fn); ssl = ctx.args[0]; seen = set(); OK_, FATAL = E['SSL_TLSEXT_ERR_OK'], E['SSL_TLSEXT_ERR_ALERT_FATAL']
        fo, = fld(ctx, 'kserver_s', 'data'); ff, = fld(ctx, 'kserver_s', 'flags')
        for s in S:
            ev = s.flat(); F = s.final.facts; gx = only(ev, 'SSL_get_ex_data'); sn = only(ev, 'SSL_get_servername'); cr = [e for e in ev if e.kind == 'icall']; sc = only(ev, 'SSL_set_SSL_CTX')
            if not ctx.ob('sni-conn', fn + tag, len(gx) == 1 and gx[0].args[0] is ssl and decode(gx[0].args[1]) is not None and decode(gx[0].args[1])[0] is mk('g', 'kangle_ssl_conntion_index'), 'the session\'s connection is looked up', s): continue
            c = gx[0].ret; old = initial(c, k.sni)
            if isnull(F, c) or nonnull(F, old): seen.add('skip'); ctx.ob('sni-once', fn + tag, not cr and not sc and s.const(s.ret) == OK_, 'a connection that has its server-name data is not asked about again', s); continue
            if not ctx.ob('sni-name', fn + tag, nonnull(F, c) and isnull(F, old) and len(sn) == 1 and sn[0].args[0] is ssl, 'the name the client sent is used', s): continue
            if not nonnull(F, sn[0].ret):
                fl = initial(initial(c, k.srv), ff); rej = setbit(F, fl, E['KGL_SERVER_REJECT_NOSNI']); acc = clrbit(F, fl, E['KGL_SERVER_REJECT_NOSNI']); seen.add(('noname', bool(rej)))
                ctx.ob('sni-none', fn + tag, not cr and not sc and (bool(rej) and s.const(s.ret) == FATAL or bool(acc) and s.const(s.ret) == OK_), 'a client without a name is refused exactly if the server says so', s); continue
            ok = len(cr) == 1 and decode(cr[0].x) == (mk('g', 'kgl_ssl_create_sni'), 0) and reads(cr[0].args[0], initial(c, k.srv), fo) and cr[0].args[1] is sn[0].ret and final(ctx, s, c, k.sni) is cr[0].ret and s.const(s.ret) == OK_
            if not ctx.ob('sni-ask', fn + tag, ok, 'the application is asked once, with the server\'s data and the name, and its answer kept', s): continue
            seen.add(('ctx', len(sc))); slot = ptr_split(cr[0].args[2])
            if sc: ctx.ob('sni-ctx', fn + tag, len(sc) == 1 and sc[0].args[0] is ssl and decode(sc[0].args[1]) == slot and nonnull(F, sc[0].args[1]), 'the context given is the one switched to', s)
            else: ctx.ob('sni-ctx', fn + tag, any(decode(t) == slot and isnull(F, t) for t in F), 'a context given must be switched to', s)
            ini = at(ctx, cr[0], *slot); ctx.ob('sni-clear', fn + tag, s.const(ini) == 0, 'no context is given by default', s)
        ctx.ob('tls-cases', fn + tag, seen == {'skip', ('noname', True), ('noname', False), ('ctx', 0), ('ctx', 1)}, 'found %s' % seen)
    ctx.cfg = 'epoll'

# ------------------------------------------------------------------ contexts
CTXREL = 'kgl_release_ssl_ctx'
RELEASE = {'BIO_new_mem_buf': ('BIO_free', 'BIO_free_all', 'BIO_vfree'), 'BIO_new_file': ('BIO_free', 'BIO_free_all', 'BIO_vfree'), 'PEM_read_bio_X509_AUX': ('X509_free',), 'PEM_read_bio_X509': ('X509_free',),
           'PEM_read_bio_PrivateKey': ('EVP_PKEY_free',), 'OPENSSL_sk_new_null': ('OPENSSL_sk_pop_free',), 'EVP_MD_CTX_new': ('EVP_MD_CTX_free',), 'fopen': ('fclose',), 'SSL_CTX_new': ('SSL_CTX_free',)}
def owned(ctx, S, fn, tag, given=None):
    """every object made on a path is given back exactly once on it (or handed over), and not used afterwards"""
    n = 0
    for s in S:
        for si, seq in enumerate(segments(s.events)):
            for i, e in enumerate(seq):
                if e.kind != 'call' or e.name not in RELEASE: continue
                last = [x.snap for x in seq if x.snap]; F = dict(last[-1].facts) if last else {}
                top = si == 0
                if top: F = s.final.facts
                if isnull(F, e.ret): continue
                n += 1
                rel = [j for j in range(i + 1, len(seq)) if is_call(seq[j], *RELEASE[e.name]) and seq[j].args[0] is e.ret]
                kept = [j for j in range(i + 1, len(seq)) if given and given(seq[j], e, F)]
                after = [x for x in seq[rel[0] + 1:] if x.kind in ('call', 'icall') and any(a is e.ret for a in x.args if isinstance(a, Term))] if rel else []
                ret = s.ret is e.ret and top
                ctx.ob('owned', fn + '.' + e.name + tag, nonnull(F, e.ret) and len(rel) + len(kept) + ret == 1 and not after, 'an object made here is released exactly once on every path', s)
    ctx.ob('ctx-cases', fn + '.owned' + tag, n > 0, 'nothing is made')
def possible(F, x, n):
    """the facts of this path allow x == n"""
    for t, f in F.items():
        if x not in t.syms and t is not x: continue
        v = ev_cond({}, subst(t, {x: C(n)})) if t is not x else n
        v = cv(subst(t, {x: C(n)})) if isc(subst(t, {x: C(n)})) else None if v is None else int(v)
        if v is not None and (not f[0] <= v <= f[1] or v in f[2]): return False
    return True
def samebool(F, r, src):
    """r is true exactly when src is"""
    for z in (False, True):
        f = dict(F)
        try: assume(f, t_eq(src, ZERO), z)
        except absint.Infeasible: continue
        got = truth(f, r)
        if got is None and not z: got = truth(f, subst(r, {src: ONE}))      # a bool result is 0 or 1
        if got is not (not z): return False
    return True
def contexts(ctx):
    M = ir.macro_values(['SSL_CTRL_CHAIN', 'SSL_CTRL_SET_TLSEXT_SERVERNAME_CB', 'SSL_OP_NO_SSLv2', 'SSL_OP_NO_SSLv3', 'SSL_OP_NO_TLSv1', 'SSL_OP_NO_TLSv1_1', 'SSL_OP_NO_TLSv1_2', 'SSL_OP_NO_TLSv1_3', 'SSL_VERIFY_PEER', 'SSL_VERIFY_FAIL_IF_NO_PEER_CERT'], ['<openssl/ssl.h>'])
    for cfg, tag in CFGT[:2]:
        ctx.cfg = cfg; refs, cx = fld(ctx, 'kgl_ssl_ctx', 'refs', 'ctx'); k = K(ctx); l = k.l; v = k.v if hasattr(k, 'v') else V(ctx)
        counted(ctx, tag, refs, cx); serverctx(ctx, tag, v, l, refs); building(ctx, tag, M); protocols(ctx, tag, M); certificates(ctx, tag, M)
    ctx.cfg = 'epoll'
def counted(ctx, tag, refs, cx):
    fn = 'kgl_new_ssl_ctx'; S = ctx.run(fn)
    for s in S: ctx.ob('ctx-new', fn + tag, fresh_obj(s.ret) and s.const(final(ctx, s, s.ret, refs, 4)) == 1 and final(ctx, s, s.ret, cx) is ctx.args[0], 'a new record has one reference and the context', s)
    fn = 'kgl_add_ref_ssl_ctx'; S = ctx.run(fn)
    for s in S: ctx.ob('ctx-ref', fn + tag, len(ups(s.flat(), ctx.args[0], refs)) == 1 and not [e for e in s.flat() if e.kind == 'st'], 'taking a reference counts exactly one', s)
    fn = CTXREL; S = ctx.run(fn); o = ctx.args[0]; seen = set()
    for s in S:
        ev = s.flat(); F = s.final.facts; d = [e for e in ev if e.kind == 'atomic' and e.args[0] is o and cv(e.args[1]) == refs]
        if not ctx.ob('ctx-release', fn + tag, len(d) == 1 and (d[0].name, s.const(d[0].args[2])) in (('add', -1), ('sub', 1)), 'releasing gives back exactly one reference in one atomic step', s): continue
        fr = only(ev, 'free'); sf = only(ev, 'SSL_CTX_free')
        if not same(F, d[0].ret, ONE):
            seen.add('more'); ctx.ob('ctx-release', fn + tag, differs(F, d[0].ret, ONE) is True and not fr and not sf and not [e for e in ev if e is not d[0] and e.kind in ('st', 'atomic')], 'a context with references left must not be touched', s); continue
        had = any(reads(t, o, cx) and nonnull(F, t) for t in F); none = any(reads(t, o, cx) and isnull(F, t) for t in F); seen.add(had)
        ctx.ob('ctx-free', fn + tag, len(fr) == 1 and fr[0].args[0] is o and (had or none or len(sf) == 1) and len(sf) == (0 if none else 1) and all(reads(e.args[0], o, cx) and index_of(ev, e) < index_of(ev, fr[0]) for e in sf) and not [e for e in ev if e.kind == 'uaf'], 'the last reference frees the context and the record once', s)
    ctx.ob('ctx-cases', fn + tag, 'more' in seen and True in seen, 'found %s' % seen)
def serverctx(ctx, tag, v, l, refs):
    fn = 'kserver_set_ssl_ctx'; S = ctx.run(fn, opaque=(CTXREL,), pure=(CTXREL,), record_loads=True, snap_st=True); o, new = ctx.args; seen = set(); posts = set(); lockp = ptradd(o, v.lock); nq = v.queue
    for s in S:
        ev = s.flat(); F = s.final.facts; old = initial(o, v.ctx); has = nonnull(F, old); given = nonnull(F, new)
        if has and isnull(F, new):
            seen.add('refused'); ctx.ob('set-refused', fn + tag, not [e for e in ev if e.kind in ('st', 'call', 'icall', 'atomic')], 'a context in use is not taken away', s); continue
        top = [e for e in s.events if e.kind != 'loop']; cr = only(top, CTXREL); sw = [e for e in top if e.kind == 'st' and e.args[0] is o and e.args[1] == v.ctx]
        ok = len(cr) == (1 if has else 0) and (has or isnull(F, old)) and all(reads(e.args[0], o, v.ctx) for e in cr) and len(sw) == 1 and sw[0].args[2] is new and all(index_of(top, e) < index_of(top, sw[0]) or e.args[0] is old for e in cr)
        ctx.ob('set-stored', fn + tag, ok, 'the old context is given back once and the new one stored', s); seen.add(('had', bool(has)))
        errs, end = lock_scan(s.events); bad = []
        def on(h, e):
            if lockp not in h and e.kind == 'ld' and e.args[0] is o and v.list <= e.args[1] < v.list + 16: bad.append(e)
            if lockp not in h and e.kind == 'st' and e.args[1] in (v.sctx, v.sctx - nq) and ptr_root(e.args[0]) is not o: bad.append(e)
        lock_scan(s.events, on)
        ctx.ob('set-locked', fn + tag, not errs and not any(end) and not bad, 'the listeners are visited under the list\'s lock', s)
        tr = traversals(s.events, 8)
        for le, start, w in tr:
            ctx.ob('set-walk', fn + tag, reads(start, o, v.list + 8) or reads(start, o, v.list), 'every listener must be visited', s)
            for g in le.inst.seglist:
                gv = list(flat(g)); nodes = (w, start); up = [e for e in gv if e.kind == 'atomic' and e.args[0] is new and cv(e.args[1]) == refs and e.name == 'add' and cv(e.args[2]) == 1]
                anyup = [e for e in gv if e.kind == 'atomic']
                gF = [e.snap.facts for e in gv if e.snap]; gF = gF[-1] if gF else F
                gn = nonnull(gF, new) or nonnull(F, new); seen.add(('ref', bool(gn)))
                ctx.ob('set-ref', fn + tag, len(anyup) == len(up) == (1 if gn else 0), 'every listener takes exactly one reference', s)
                d = [e for e in gv if e.kind == 'st' and e.args[1] == v.sctx - nq and e.args[0] in nodes or e.kind == 'st' and decode(e.args[2]) is None and ptr_split(ptradd(e.args[0], e.args[1]))[0] in nodes and ptr_split(ptradd(e.args[0], e.args[1]))[1] == v.sctx - nq]
                nx = mod_calls(gv, 'next'); rl = only(gv, CTXREL)
                if not ctx.ob('set-one', fn + tag, len(d) + len(nx) == 1, 'a listener is updated exactly once, at once or on its own loop', s): continue
                if d:
                    seen.add('direct'); n = next(x for x in nodes if x is ptr_split(ptradd(d[0].args[0], d[0].args[1]))[0])
                    vals = [t for t in gF if decode(t) == (n, v.sctx - nq)]
                    hadc = any(nonnull(gF, t) for t in vals); no = any(isnull(gF, t) for t in vals); seen.add(('lctx', hadc))
                    ctx.ob('set-direct', fn + tag, d[0].args[2] is new and hadc != no and len(rl) == (1 if hadc else 0) and all(decode(e.args[0]) == (n, v.sctx - nq) for e in rl), 'the listener gives its old context back once and keeps the new one', s)
                    fl = [t for t in d[0].snap.facts if t.op == 'and' and decode(t.args[0]) == (o, v.flags)]
                    ctx.ob('set-when', fn + tag, any(isnull(d[0].snap.facts, t) and cv(t.args[1]) & v.KGL_SERVER_START for t in fl), 'only a server that is not started may update its listeners directly', s)
                else:
                    seen.add('posted'); e = nx[0]; a = e.args; da, dd = decode(a[0]), decode(a[1])
                    ok = da is not None and da[0] in nodes and da[1] == l.sel - nq and dd is not None and dd[0] is da[0] and dd[1] == l.data - nq and a[2].op == 'f' and fresh_obj(a[3]) and not rl
                    ctx.ob('set-post', fn + tag, ok, 'a started listener is updated by one notice to its own loop', s)
                    if ok: posts.add((a[2].args[0], e, ptradd(da[0], -nq), tag))
        if not tr: ctx.ob('set-walk', fn + tag, any(same(F, initial(o, v.list + j), ptradd(o, v.list)) for j in (0, 8)) or any(e.kind == 'loop' for e in s.events) or any(decode(t) in ((o, v.list), (o, v.list + 8)) for t in s.final.eqs) or any(t is ptradd(o, v.list) for t in s.final.eqs.values()), 'a server with listeners must update them', s)
    ctx.ob('ctx-cases', fn + tag, {'refused', 'direct', 'posted', ('had', True), ('had', False), ('ref', True), ('lctx', True), ('lctx', False)} <= seen, 'found %s' % seen)
    for cb in sorted({p[0] for p in posts}):
        S = ctx.run(cb, opaque=(CTXREL,), pure=(CTXREL,)); p = ctx.args[1]; k2 = set()
        pst = next(x for x in posts if x[0] == cb)
        for s in S:
            ev = s.flat(); F = s.final.facts
            def orig(t):
                d = decode(t); return at(ctx, pst[1], pst[1].args[3], d[1]) if d and d[0] is p else None
            sts = [e for e in ev if e.kind == 'st' and e.args[1] == v.sctx]; fr = only(ev, 'free'); rl = only(ev, CTXREL)
            ok = len(sts) == 1 and orig(sts[0].args[0]) is pst[2] and orig(sts[0].args[2]) is new and len(fr) == 1 and fr[0].args[0] is p and not [e for e in ev if e.kind == 'uaf']
            if not ctx.ob('set-posted', cb + tag, ok, 'the notice gives its listener its new context and frees itself once', s): continue
            ss = sts[0].args[0]; had = nonnull(F, initial(ss, v.sctx)); k2.add(bool(had))
            ctx.ob('set-posted-old', cb + tag, len(rl) == (1 if had else 0) and (had or isnull(F, initial(ss, v.sctx))) and all(reads(e.args[0], ss, v.sctx) for e in rl) and s.const(s.ret) == ctx.p.enum('kev_ok'), 'the listener gives its old context back once', s)
        ctx.ob('ctx-cases', cb + tag, k2 == {True, False}, 'found %s' % k2)
    # ---- binding
    fn = 'kserver_bind'; OP = (CTXREL, 'kserver_set_ssl_ctx', 'ksocket_getaddr', 'ksocket_unix_addr'); S = ctx.run(fn, opaque=OP, pure=(CTXREL,)); o, ip, port, sc = ctx.args[0], ctx.args[1], ctx.args[2], ctx.args[-1]; seen = set()
    for s in S:
        ev = s.flat(); F = s.final.facts; fl = initial(o, v.flags); r = s.const(s.ret); ga = only(ev, 'ksocket_getaddr') + only(ev, 'ksocket_unix_addr'); good = lambda e: nonnull(F, e.ret) if e.name == 'ksocket_getaddr' else isnull(F, e.ret); rl = only(ev, CTXREL); st = only(ev, 'kserver_set_ssl_ctx')
        ssl = setbit(F, fl, v.KGL_SERVER_SSL); nossl = clrbit(F, fl, v.KGL_SERVER_SSL)
        ch = initial(ip, 0); isu = same(F, ch, C(47))
        if ga and ga[0].name == 'ksocket_unix_addr' or isu: ctx.ob('bind-kind', fn + tag, isu and [e.name for e in ga] == ['ksocket_unix_addr'], 'exactly a name that is a path is a local socket', s)
        if r == 1:
            f1 = [at(ctx, e, o, v.flags, 4) for e in ga + st] + [final(ctx, s, o, v.flags, 4)]
            ctx.ob('bind-tls', fn + tag, bool(any(setbit(F, t, v.KGL_SERVER_SSL) or t.op == 'or' and any(isc(x) and cv(x) & v.KGL_SERVER_SSL for x in t.args[:2]) for t in f1) if nonnull(F, sc) else isnull(F, sc)), 'a server bound with a context is a TLS server from then on', s)
            seen.add('ok'); ctx.ob('bind-ok', fn + tag, bool(nossl or nonnull(F, sc)) and len(st) == 1 and st[0].args[0] is o and st[0].args[1] is sc and not rl and len(ga) == 1 and all(good(e) for e in ga), 'a bound server keeps the context; a TLS server must have one', s); continue
        seen.add('fail'); ctx.ob('bind-fail', fn + tag, r == 0 and not st and (isnull(F, sc) or bool(ga)), 'a failed bind is reported', s)
        if ga:
            hv = nonnull(F, sc); seen.add(('given', bool(hv)))
            ctx.ob('bind-release', fn + tag, all((isnull if e.name == 'ksocket_getaddr' else nonnull)(F, e.ret) and e.args[0] is ip for e in ga) and len(rl) == (1 if hv else 0) and (hv or isnull(F, sc)) and all(e.args[0] is sc for e in rl), 'a failed bind gives the context it was given back once', s)
    ctx.ob('ctx-cases', fn + tag, seen == {'ok', 'fail', ('given', True), ('given', False)}, 'found %s' % seen)
def building(ctx, tag, M):
    NEW = 'kgl_ssl_ctx_new'; LOADS = ('kgl_ssl_certificate', 'kgl_ssl_ctx_load_cert_key')
    fn = NEW; S = ctx.run(fn); seen = set()
    for s in S:
        ev = s.flat(); n = only(ev, 'SSL_CTX_new'); F = s.final.facts
        if not ctx.ob('build-new', fn + tag, len(n) == 1, 'one context is made', s): continue
        if not nonnull(F, n[0].ret): seen.add(0); ctx.ob('build-new', fn + tag, s.const(s.ret) == 0, 'failure is reported', s); continue
        seen.add(1); no = [e for e in only(ev, 'SSL_CTX_set_options') if isc(e.args[1]) and cv(e.args[1]) & M['SSL_OP_NO_SSLv3']]; xd = only(ev, 'SSL_CTX_set_ex_data'); cl = [e for e in only(ev, 'SSL_CTX_clear_options')]
        ctx.ob('build-sslv3', fn + tag, s.ret is n[0].ret and bool(no) and all(e.args[0] is n[0].ret for e in no) and not cl and not only(ev, 'SSL_CTX_free'), 'SSLv3 is never allowed by default', s)
        ctx.ob('build-data', fn + tag, len(xd) == 1 and xd[0].args[0] is n[0].ret and decode(xd[0].args[1]) == (mk('g', 'kangle_ssl_ctx_index'), 0) and xd[0].args[2] is ctx.args[0], 'the context leads to its owner\'s data', s)
    ctx.ob('ctx-cases', fn + tag, seen == {0, 1}, 'found %s' % seen)
    for fn, srv in (('kgl_ssl_ctx_new_client', 0), ('kgl_ssl_ctx_new_server', 1), ('kgl_ssl_ctx_new_server2', 1)):
        S = ctx.run(fn, opaque=(NEW,) + LOADS + ('kgl_ssl_session_id_context_from_buffer',)); args = ctx.args; seen = set()
        n0 = {0: 0, 1: 2}[srv]; cap, caf, data = args[n0], args[n0 + 1], args[n0 + 2]
        for s in S:
            ev = s.flat(); F = s.final.facts; n = only(ev, NEW)
            if not ctx.ob('build-one', fn + tag, len(n) == 1 and n[0].args[0] is data, 'one context for the given data', s): continue
            c = n[0].ret; fr = only(ev, 'SSL_CTX_free')
            if not nonnull(F, c): seen.add('none'); ctx.ob('build-none', fn + tag, s.const(s.ret) == 0 and not fr, 'without a context the call fails', s); continue
            ld = [e for e in ev if is_call(e, *LOADS)]; lv = only(ev, 'SSL_CTX_load_verify_locations'); ck = only(ev, 'SSL_CTX_check_private_key'); ve = only(ev, 'SSL_CTX_set_verify')
            if srv:
                cert = fn.endswith('2')
                ok = len(ld) == 1 and all(e.args[0] is c and e.args[1] is args[0] and e.args[2] is args[1] for e in ld)
                if not ctx.ob('build-load', fn + tag, ok, 'the given certificate and key are loaded', s): continue
                good = isnull(F, ld[0].ret) if cert else nonnull(F, ld[0].ret); bad = nonnull(F, ld[0].ret) if cert else isnull(F, ld[0].ret)
                if not ctx.ob('build-load', fn + tag, bool(good) != bool(bad), 'the result of loading is examined', s): continue
                if bad: seen.add('load'); ctx.ob('build-free', fn + tag, s.const(s.ret) == 0 and len(fr) == 1 and fr[0].args[0] is c, 'a certificate or key that is refused fails the call and frees the context once', s); continue
                ok = len(ck) == 1 and ck[0].args[0] is c and (nonnull(F, ck[0].ret) or isnull(F, ck[0].ret) or lt(F, ZERO, ck[0].ret) is not None)
                if not ctx.ob('build-check', fn + tag, ok, 'the key is checked against the certificate', s): continue
                if not nonnull(F, ck[0].ret): seen.add('key'); ctx.ob('build-free', fn + tag, s.const(s.ret) == 0 and len(fr) == 1 and fr[0].args[0] is c, 'a key that does not fit fails the call and frees the context once', s); continue
            ca = nonnull(F, cap) or nonnull(F, caf)
            ok = ca and len(lv) == 1 and lv[0].args[0] is c and lv[0].args[1] is caf and lv[0].args[2] is cap or not ca and not lv and isnull(F, cap) and isnull(F, caf)
            if not ctx.ob('build-ca', fn + tag, bool(ok), 'given CA files are loaded', s): continue
            mode = M['SSL_VERIFY_PEER'] | (M['SSL_VERIFY_FAIL_IF_NO_PEER_CERT'] if srv else 0)
            ctx.ob('build-verify', fn + tag, (len(ve) >= 1 and all(e.args[0] is c for e in ve) and s.const(ve[-1].args[1]) == mode) if ca else not ve, 'the peer is verified exactly if CA files are given', s)
            if ca and lt(F, ZERO, lv[0].ret) is not True:
                seen.add('ca'); ctx.ob('build-free', fn + tag, lt(F, ZERO, lv[0].ret) is False and s.const(s.ret) == 0 and len(fr) == 1 and fr[0].args[0] is c, 'CA files that are refused fail the call and free the context once', s); continue
            seen.add(('ok', bool(ca))); ctx.ob('build-ok', fn + tag, s.ret is c and not fr, 'a context that is complete is returned', s)
            npn = [t for t in F if decode(t) is not None and 'ssl_npn' in show(decode(t)[0])]; use = any(nonnull(F, t) for t in npn) and nonnull(F, data)
            if srv:
                sni = [t for t in F if decode(t) == (mk('g', 'kgl_ssl_create_sni'), 0)]; on = any(nonnull(F, t) for t in sni)
                cb = [e for e in only(ev, 'SSL_CTX_callback_ctrl') if s.const(e.args[1]) == M['SSL_CTRL_SET_TLSEXT_SERVERNAME_CB']]; seen.add(('sni', on))
                ctx.ob('build-sni', fn + tag, len(cb) == (1 if on else 0) and all(e.args[0] is c and e.args[2].op == 'f' and e.args[2].args[0].startswith('kgl_ssl_sni') for e in cb), 'server names are handled exactly if the application wants to', s)
                al = only(ev, 'SSL_CTX_set_alpn_select_cb'); seen.add(('npn', bool(use)))
                ctx.ob('build-alpn', fn + tag, len(al) == (1 if use else 0) and all(e.args[0] is c and e.args[1].op == 'f' for e in al), 'protocol selection is offered exactly if the application wants to', s)
            else:
                ic = [e for e in ev if e.kind == 'icall']; al = only(ev, 'SSL_CTX_set_alpn_protos'); seen.add(('npn', bool(use)))
                ok = len(al) == len(ic) == (1 if use else 0) and all(e.args[0] is c and decode(e.args[1]) == ptr_split(i.args[2]) and decode(e.args[2]) == ptr_split(i.args[3]) and i.args[1] is data for e, i in zip(al, ic))
                ctx.ob('build-alpn', fn + tag, ok, 'the application\'s protocols are offered', s)
        want = {'none', 'ca', ('ok', True), ('ok', False), ('npn', True), ('npn', False)} | ({'load', 'key', ('sni', True), ('sni', False)} if srv else set())
        ctx.ob('ctx-cases', fn + tag, seen == want, 'found %s' % seen)
    fn = 'kgl_ssl_ctx_load_cert_key'; SID = 'kgl_ssl_session_id_context'; S = ctx.run(fn, opaque=(SID,)); c, cf, kf = ctx.args; seen = set()
    for s in S:
        ev = s.flat(); F = s.final.facts; uc = only(ev, 'SSL_CTX_use_certificate_chain_file'); uk = only(ev, 'SSL_CTX_use_PrivateKey_file'); sid = only(ev, SID)
        src = kf if isnull(F, cf) or isnull(F, final(ctx, s, cf, 0, 1)) or any(decode(t) == (cf, 0) and isnull(F, t) for t in F) else cf; seen.add(src is cf)
        if not ctx.ob('file-cert', fn + tag, len(uc) == 1 and uc[0].args[0] is c and uc[0].args[1] is src, 'the certificate file is used (the key file if there is none)', s): continue
        if lt(F, ZERO, uc[0].ret) is not True: seen.add('c'); ctx.ob('file-fail', fn + tag, s.const(s.ret) == 0 and not uk, 'a refused certificate fails the call', s); continue
        if not ctx.ob('file-key', fn + tag, len(uk) == 1 and uk[0].args[0] is c and uk[0].args[1] is kf, 'the key file is used', s): continue
        if lt(F, ZERO, uk[0].ret) is not True: seen.add('k'); ctx.ob('file-fail', fn + tag, s.const(s.ret) == 0, 'a refused key fails the call', s); continue
        seen.add('ok'); ctx.ob('file-ok', fn + tag, len(sid) == 1 and sid[0].args[0] is c and (s.const(s.ret) == 1 or samebool(F, s.ret, sid[0].ret)), 'loading succeeds', s)
    ctx.ob('ctx-cases', fn + tag, seen == {True, False, 'c', 'k', 'ok'}, 'found %s' % seen)
def protocols(ctx, tag, M):
    """the function is walked with definite lists of names; what matters is what is forbidden at the end"""
    fn = 'kgl_ssl_ctx_set_protocols'
    want = {'SSLv3': 'SSL_OP_NO_SSLv3', 'TLSv1': 'SSL_OP_NO_TLSv1', 'TLSv1.1': 'SSL_OP_NO_TLSv1_1', 'TLSv1.2': 'SSL_OP_NO_TLSv1_2', 'TLSv1.3': 'SSL_OP_NO_TLSv1_3'}; names = list(want)
    subsets = [[n for j, n in enumerate(names) if m >> j & 1] for m in range(1, 32)]
    lists = [(' '.join(x), x) for x in subsets] + [('  '.join(reversed(x)) + ' ', x) for x in subsets if len(x) > 1]
    lists += [(t, x.split()) for t, x in (('tlsv1.2', 'TLSv1.2'), ('TLSV1.3\tTlsv1.1', 'TLSv1.3 TLSv1.1'), ('  TLSv1.2', 'TLSv1.2'), ('TLSv1.2\n', 'TLSv1.2'), ('TLSv1.4 TLSv1.2', 'TLSv1.2'), ('TLSv1.2 x', 'TLSv1.2'), ('TLS', ''), ('TLSv1.', ''), ('TLSv1.22', ''), ('xTLSv1', ''), ('   ', ''), (' \t', ''))]
    c, lp, cp = sym('al', 'ctx'), sym('al', 'list'), sym('al', 'copy')
    glob = {k: G for k, G in ctx.p.globals.items() if 'init' in G and not G.get('const') and 'kgl_ssl' in k}
    def text(E, st, p, n=256):
        b, o = ptr_split(p); out = ''
        if b.op == 'g':
            i = ctx.p.globals.get(b.args[0], {}).get('init'); v = i[0][1].get('s') if i else None
            return v[o:].split('\0')[0][:n] if v is not None else None
        while len(out) < n:
            v = E.load(st, ptradd(p, len(out)), 1, None)
            if not isc(v): return None
            if cv(v) == 0: break
            out += chr(cv(v) & 255)
        return out
    def put(st, b, t):
        for k, ch in enumerate(t + '\0'): st.wmem()[(b, k)] = (C(ord(ch)), 1, None)
    def model(f):
        def g(E, st, fr, i, a, work):
            r = f(E, st, a)
            if r is None: raise AnalysisError('%s: text not known: %s' % (fn, [str(x) for x in a]))
            fr.env[i['i']] = r if isinstance(r, Term) else C(r); E.emit(st, 'call', i.get('_n', ''), a, fr.env[i['i']], i); return None
        return g
    def dup(E, st, a):
        t = text(E, st, a[0])
        if t is None: return None
        put(st, cp, t); E.emit(st, 'call', 'verif_copy', a, cp, None); return cp
    def cmp(case, cut):
        def f(E, st, a):
            n = cv(a[2]) if cut else 256; x, y = text(E, st, a[0], n), text(E, st, a[1], n)
            if x is None or y is None: return None
            if not case: x, y = x.lower(), y.lower()
            return 0 if x == y else 1 if x > y else -1
        return f
    def span(neg):
        def f(E, st, a):
            x, y = text(E, st, a[0]), text(E, st, a[1])
            if x is None or y is None: return None
            return next((k for k, ch in enumerate(x) if (ch in y) == neg), len(x))
        return f
    def length(E, st, a):
        x = text(E, st, a[0]); return None if x is None else len(x)
    def isspace(E, st, a): return (8192 if chr(cv(a[0]) & 255) in ' \t\n\v\f\r' else 0) if isc(a[0]) else None
    mods = {'strdup': model(dup), 'isspace': model(isspace), 'strcasecmp': model(cmp(False, False)), 'strcmp': model(cmp(True, False)), 'strncasecmp': model(cmp(False, True)), 'strncmp': model(cmp(True, True)), 'strlen': model(length), 'strspn': model(span(False)), 'strcspn': model(span(True))}
    def run(t):
        def su(E, st):
            for k, G in glob.items():
                unit = k[k.index('@'):] if '@' in k else ''
                for o, v, z in G['init']:
                    x = C(v['c']) if 'c' in v else mk('g', v['g'] + unit) if 'g' in v else None
                    if x is not None: st.wmem()[(mk('g', k), o)] = (x, z, None)
                    elif 'z' in v:
                        for j in range(0, z, 4): st.wmem()[(mk('g', k), o + j)] = (ZERO, 8 if j % 8 == 0 and z - j >= 8 else 4, None)
            if t is not None: put(st, lp, t)
            for x in (c, lp, cp): assume(st.facts, t_eq(x, ZERO), False)
        P = ctx.e.run(fn, Cfg(cut=40, havoc='none', models=mods), setup=su, args=[c, lp if t is not None else ZERO]); ctx.npaths += len(P); return P
    def options(p):
        st = {}
        for e in p.flat():
            if is_call(e, 'SSL_CTX_set_options', 'SSL_CTX_clear_options'):
                if not ctx.ob('proto-ctx', fn + tag, e.args[0] is c and isc(e.args[1]), 'the given context is restricted', p): return None
                for nm, op in want.items():
                    if cv(e.args[1]) & M[op]: st[nm] = e.name == 'SSL_CTX_set_options'
        return st
    for t in (None, ''):
        P = run(t); ctx.ob('proto-none', fn + tag, len(P) == 1 and P[0].kind != 'cut' and options(P[0]) == {} and not only(P[0].flat(), 'verif_copy'), 'without a list nothing is restricted')
    for t, x in lists:
        P = run(t)
        if not ctx.ob('proto-end', fn + tag, len(P) == 1 and P[0].kind != 'cut', 'list %r: %d outcomes%s' % (t, len(P), ', the scan does not end' if any(p.kind == 'cut' for p in P) else '')): continue
        p = P[0]; got = options(p)
        if got is None: continue
        for nm in names: ctx.ob('proto-option', fn + '.' + nm + tag, got.get(nm) is (nm not in x), 'list %r: %s is %s' % (t, nm, {True: 'forbidden', False: 'allowed', None: 'left as it was'}[got.get(nm)]), p)
        cop = only(p.flat(), 'verif_copy'); fr = [e for e in only(p.flat(), 'free') if not (isc(e.args[0]) and cv(e.args[0]) == 0)]
        ctx.ob('proto-copy', fn + tag, len(fr) == len(cop) and all(e.args[0] is cp for e in fr) and not [e for e in p.flat() if e.kind == 'uaf'], 'a copy of the list is freed once', p)
        lim = {k: [cv(e.args[2]) for e in only(p.flat(), 'SSL_CTX_ctrl') if e.args[0] is c and isc(e.args[1]) and cv(e.args[1]) == k and isc(e.args[2])] for k in (123, 124)}
        ctx.ob('proto-range', fn + tag, (not lim[123] or lim[123][-1] in (0, 0x300)) and (not lim[124] or lim[124][-1] in (0, 0x304)), 'every version the list may name lies in the allowed range', p)
def flat2(evs):
    for e in evs:
        yield e
        if e.kind == 'loop':
            for g in e.inst.seglist: yield from flat2(g)
def certificates(ctx, tag, M):
    fn = 'kgl_ssl_certificate'; S = [s for s in ctx.run(fn, cut=3) if s.kind != 'cut']; c, cert, key, pw = ctx.args; seen = set(); dl = 5
    data, ln = fld(ctx, 'kgl_ref_str_t', 'data', 'len')
    def given(e, made, F):
        if made.name == 'OPENSSL_sk_new_null': return is_call(e, 'SSL_CTX_ctrl') and cv(e.args[1]) == M['SSL_CTRL_CHAIN'] and e.args[3] is made.ret and nonnull(F, e.ret)
        if made.name == 'PEM_read_bio_X509': return is_call(e, 'OPENSSL_sk_push') and e.args[1] is made.ret and not isnull(F, e.ret)
    owned(ctx, S, fn, tag, given)
    for s in S:
        ev = [e for e in s.events if e.kind != 'loop']; F = s.final.facts; opened = [e for e in ev if is_call(e, 'BIO_new_mem_buf', 'BIO_new_file')]
        ch = [t for t in F if decode(t) is not None and decode(t)[1] == 0 and decode(decode(t)[0]) == (cert, data)]
        src = key if isnull(F, cert) or any(isnull(F, t) for t in ch) else cert; seen.add(src is cert)
        for i, e in enumerate(opened):
            o = key if i else src; cmpd = [x for x in ev[:index_of(ev, e)] if is_call(x, 'strncmp') and reads(x.args[0], o, data)][-1:]
            inl = is_call(e, 'BIO_new_mem_buf'); seen.add(('inline', inl)); d = initial(o, data)
            ok = bool(cmpd) and (all(isnull(F, x.ret) for x in cmpd) if inl else all(nonnull(F, x.ret) for x in cmpd))
            if inl:
                b, n = ptr_split(e.args[0]); lnv = offset_of(e.args[1], o, ln) if e.args[1].op in ('sym', 'lin') else None
                ok = ok and n == dl and decode(b) == (o, data) and lnv is not None and lnv[1] == -dl
            else: ok = ok and reads(e.args[0], o, data)
            ctx.ob('cert-source', fn + tag, ok and all(s.const(x.args[2]) == dl for x in cmpd), 'inline data is read within its bounds, anything else is a file name', s)
        x = only(ev, 'PEM_read_bio_X509_AUX'); use = only(ev, 'SSL_CTX_use_certificate'); chn = [e for e in only(ev, 'SSL_CTX_ctrl') if s.const(e.args[1]) == M['SSL_CTRL_CHAIN']]; pk = only(ev, 'PEM_read_bio_PrivateKey'); up = only(ev, 'SSL_CTX_use_PrivateKey'); nk = only(ev, 'OPENSSL_sk_new_null')
        done = all(len(q) == 1 and nonnull(F, q[0].ret) for q in (x, use, chn, up, nk)) and len(pk) >= 1 and nonnull(F, pk[-1].ret) and use[0].args[1] is x[0].ret and up[0].args[1] is pk[-1].ret and chn[0].args[3] is nk[0].ret and all(q[0].args[0] is c for q in (use, chn, up)) and len(opened) == 2
        el, ne = fld(ctx, 'kgl_array_t', 'elts', 'nelts'); W = ctx.p.sizeof('kgl_str_t'); has = nonnull(F, pw)
        for i, e in enumerate(pk):
            if not has: ok = i == 0 and isnull(F, e.args[3]) and isnull(F, e.args[2])
            else: ok = ptr_split(e.args[3]) == (initial(pw, el), W * i) and nonnull(F, e.args[2]) and (i == 0 or not any(possible(F, initial(pw, ne), n) for n in range(i + 1)))
            ctx.ob('cert-passwords', fn + tag, ok, 'the passwords are tried one after the other, none beyond the last', s)
        if has and pk and isnull(F, pk[-1].ret): ctx.ob('cert-passwords', fn + tag, not any(possible(F, initial(pw, ne), n) for n in range(len(pk) + 1, 9)), 'every password is tried before the key is given up', s)
        r = s.const(s.ret); seen.add(('ret', r == 0))
        miss = [e for e in ev if is_call(e, 'PEM_read_bio_X509', 'PEM_read_bio_PrivateKey') and not nonnull(F, e.ret)]; clr = only(ev, 'ERR_clear_error')
        if r == 0: ctx.ob('cert-errors', fn + tag, all(any(index_of(ev, c_) > index_of(ev, m_) for c_ in clr) for m_ in miss), 'what loading tried in vain leaves no error behind for the next operation of the thread to trip over', s)
        ctx.ob('cert-result', fn + tag, r is not None and (r == 0) == bool(done), 'loading succeeds exactly if the certificate, its chain and its key were all accepted', s)
    ctx.ob('ctx-cases', fn + tag, seen == {True, False, ('inline', True), ('inline', False), ('ret', True), ('ret', False)}, 'found %s' % seen)
    # only the end of the file ends a chain; any other trouble refuses it
    PE = ir.macro_values(['PEM_R_NO_START_LINE', 'PEM_R_BAD_BASE64_DECODE', 'PEM_R_BAD_END_LINE', 'PEM_R_SHORT_HEADER', 'ERR_LIB_PEM', 'ERR_LIB_ASN1', 'ERR_R_NESTED_ASN1_ERROR'], ['<openssl/pem.h>', '<openssl/err.h>', '<openssl/asn1.h>'])
    for code, fine in ((PE['ERR_LIB_PEM'] << 23 | PE['PEM_R_NO_START_LINE'], True), (PE['ERR_LIB_PEM'] << 23 | PE['PEM_R_BAD_BASE64_DECODE'], False), (PE['ERR_LIB_PEM'] << 23 | PE['PEM_R_BAD_END_LINE'], False), (PE['ERR_LIB_PEM'] << 23 | PE['PEM_R_SHORT_HEADER'], False), (PE['ERR_LIB_ASN1'] << 23 | PE['ERR_R_NESTED_ASN1_ERROR'], False)):
        def peek(E, st, fr, i, args, work): fr.env[i['i']] = C(code); E.emit(st, 'call', 'ERR_peek_last_error', args, C(code), i); return None
        n = 0
        for s in ctx.run('kgl_ssl_certificate', cut=3, models={'ERR_peek_last_error': peek}):
            if s.kind == 'cut': continue
            ev = s.flat(); F = s.final.facts; tail = [e for e in only(ev, 'PEM_read_bio_X509') if isnull(F, e.ret)]; use = only(ev, 'SSL_CTX_use_certificate'); pu = [e for e in ev if e.kind == 'call' and e.name in ('sk_X509_push', 'OPENSSL_sk_push')]
            if not tail: continue
            n += 1; ctx.ob('cert-chain-end', 'kgl_ssl_certificate', len(tail) == 1 and (len(use) == 1 if fine else not use and s.const(s.ret) not in (None, 0)), 'a chain ends with its file, anything else refuses it (%x)' % code, s)
            rd = [e for e in only(ev, 'PEM_read_bio_X509') if nonnull(F, e.ret)]
            ctx.ob('cert-chain-end', 'kgl_ssl_certificate', [e.ret for e in rd] == [e.args[1] for e in pu][:len(rd)] and len(pu) == len(rd), 'each certificate read joins the chain, in order', s)
        ctx.ob('cert-chain-end', 'kgl_ssl_certificate', n > 0, 'no chain is read')
    for fn in ('kgl_ssl_session_id_context', 'kgl_ssl_session_id_context_from_buffer'):
        S = [s for s in ctx.run(fn, cut=2) if s.kind != 'cut']; owned(ctx, S, fn, tag); seen = set()
        for s in S:
            sid = only(s.flat(), 'SSL_CTX_set_session_id_context'); r = s.const(s.ret); good = len(sid) == 1 and nonnull(s.final.facts, sid[0].ret) and sid[0].args[0] is ctx.args[0]; seen.add(r)
            ctx.ob('sid-result', fn + tag, r in (0, 1) and (r == 1) == bool(good), 'success is reported exactly if the session id context was set', s)
            ev = s.flat(); F = s.final.facts; steps = [e for e in ev if e.kind == 'call' and e.name in ('EVP_MD_CTX_new', 'EVP_MD_CTX_create', 'EVP_DigestInit_ex', 'EVP_DigestUpdate', 'EVP_DigestFinal_ex', 'X509_NAME_digest', 'SSL_CTX_set_session_id_context')]
            if r == 0: ctx.ob('sid-result', fn + tag, any(isnull(F, e.ret) for e in steps), 'it fails only if a step failed', s)
            for e in sid:
                fi = [x for x in steps if x.name == 'EVP_DigestFinal_ex' and index_of(ev, x) < index_of(ev, e)]; ini = [x for x in steps if x.name == 'EVP_DigestInit_ex']
                ok = len(fi) == 1 and nonnull(F, fi[0].ret) and len(ini) == 1 and nonnull(F, ini[0].ret) and fi[0].args[0] is ini[0].args[0] and e.args[1] is fi[0].args[1] and decode(e.args[2]) == ptr_split(fi[0].args[2])
                ctx.ob('sid-digest', fn + tag, ok, 'the session id context is the finished digest', s)
                ctx.ob('sid-digest', fn + tag, all(nonnull(F, x.ret) for x in steps if x.name == 'X509_NAME_digest') and len({x.args[0] for x in steps if x.name in ('EVP_DigestInit_ex', 'EVP_DigestUpdate', 'EVP_DigestFinal_ex')}) == 1, 'one digest of all parts', s)
        ctx.ob('ctx-cases', fn + tag, seen == {0, 1}, 'found %s' % seen)
    fn = 'kgl_ssl_password_callback'; S = ctx.run(fn); buf, size, rw, ud = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; mc = [e for e in s.flat() if e.kind == 'memcpy' or is_call(e, 'memcpy')]
        if not mc: seen.add(0); ctx.ob('pass-none', fn + tag, s.const(s.ret) == 0, 'no password, no bytes', s); continue
        n = mc[0].args[2]; pl = initial(ud, 8); big = truth(F, t_ult(size, pl)); seen.add(big)
        ctx.ob('pass-bound', fn + tag, len(mc) == 1 and mc[0].args[0] is buf and s.ret is n and big is not None and n is (size if big else pl), 'a password is copied at most to the room there is, and its length reported', s)
    ctx.ob('ctx-cases', fn + tag, seen == {0, True, False}, 'found %s' % seen)
