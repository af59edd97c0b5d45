"""What a TLS server's sessions are bound to, and how protocols are agreed on."""
from fw import *
import ir, absint
from sync import fld
from tls import only
from bufs import peq

def calls_of(p): return [e for e in p.flat() if e.kind in ('call', 'icall') and not str(e.name).startswith('__assert')]
def gname(t):
    """the global a term was read from"""
    d = decode(t); return d[0].args[0] if d and d[0].op in ('g', 'sym') and d[1] == 0 else None

def identity(ctx):
    ctx.cfg = 'epoll'
    TL = ir.macro_values(['SSL_TLSEXT_ERR_OK', 'SSL_TLSEXT_ERR_NOACK', 'OPENSSL_NPN_NEGOTIATED', 'CRYPTO_EX_INDEX_SSL', 'CRYPTO_EX_INDEX_SSL_CTX'], ['<openssl/ssl.h>', '<openssl/tls1.h>', '<openssl/crypto.h>'])
    # the digest
    MIB = 1048576
    for fn in ('kgl_ssl_session_id_context', 'kgl_ssl_session_id_context_from_buffer'):
        S = []; cs = set()
        for num in range(4):
            def count(E, st, fr, i, args, work, num=num): fr.env[i['i']] = C(num); E.emit(st, 'call', i_name, args, C(num), i); return None
            i_name = 'OPENSSL_sk_num'
            S += [(num, p) for p in ctx.run(fn, cut=4 if ctx.tier == 'quick' else 6, models={'OPENSSL_sk_num': count})]
        for num, p in S:
            ev = p.flat(); F = p.final.facts; c, cert = ctx.args
            made = [e for e in ev if e.kind == 'call' and e.name in ('EVP_MD_CTX_new', 'EVP_MD_CTX_create')]; up = only(ev, 'EVP_DigestUpdate'); ini = only(ev, 'EVP_DigestInit_ex'); fin = only(ev, 'EVP_DigestFinal_ex'); sid = only(ev, 'SSL_CTX_set_session_id_context')
            fo = [e for e in ev if e.kind == 'call' and e.name in ('fopen', 'fopen64')]; fr = only(ev, 'fread'); fc = only(ev, 'fclose'); ln = only(ev, 'strlen'); nd = only(ev, 'X509_NAME_digest'); li = only(ev, 'SSL_CTX_get_client_CA_list')
            nv = [e for e in ev if e.kind == 'call' and e.name in ('OPENSSL_sk_value', 'sk_X509_NAME_value')]; nn = [e for e in ev if e.kind == 'call' and e.name in ('OPENSSL_sk_num', 'sk_X509_NAME_num')]
            # every part the digest is of, in order: the name or text, the pieces of the file, the names of the authorities
            seq = [e for e in ev if e in up or e in fr or e in nd]
            parts = []; wrong = None; i = 0
            u = list(up)
            if u and not (u[0].args[1] is cert and ln and ln[0].args[0] is cert and u[0].args[2] is ln[0].ret): wrong = 'the certificate comes first'
            k = 1; pend = None
            for e in seq[1:]:
                if e in fr or e in nd:
                    if pend is not None: wrong = 'a piece is left out'
                    pend = e if e in nd and not isnull(F, e.ret) or e in fr and not isnull(F, e.ret) else None
                    if e in fr and not (truth(F, t_eq(e.ret, ZERO)) is not None): wrong = 'an empty read ends the file'
                else:
                    if pend is None: wrong = 'something else is added'; break
                    b = e.args[1]
                    if pend in fr: ok = b is pend.args[0] and (peq(e.args[2], pend.ret))
                    else: ok = b is pend.args[2] and e.args[2] is at(ctx, e, pend.args[3], 0, 4) or b is pend.args[2] and decode(e.args[2]) is not None and decode(e.args[2])[0] is pend.args[3]
                    if not ok: wrong = 'a piece is added whole'
                    pend = None
            if pend is not None and p.kind != 'cut': wrong = 'a piece is left out'
            if not ctx.ob('sid-parts', fn, wrong is None, 'the identity is of the certificate and the accepted authorities, each part once: %s' % (wrong or 'so'), p): continue
            for e in fr:
                one = p.const(e.args[1]) == 1 and e.args[3] is (fo[0].ret if fo else None) and 0 < (p.const(e.args[2]) or 0)
                sz = absint.ALLOCSZ.get(e.args[0]); one = one and (sz is None or p.const(e.args[2]) <= sz)
                ctx.ob('sid-file', fn, bool(fo) and one, 'the file is read within the room there is', p)
            if fn.endswith('context'): ctx.ob('sid-file', fn, all(e.args[0] is cert for e in fo) and len(fo) <= 1, 'the file is the certificate\'s', p)
            for j, e in enumerate(nv): ctx.ob('sid-names', fn, bool(li) and li[0].args[0] is c and e.args[0] is li[0].ret and p.const(e.args[1]) == j and (j >= len(nd) or nd[j].args[0] is e.ret), 'each accepted authority counts, in order', p)
            if p.kind == 'cut': continue
            # nothing was stopped early
            if sid:
                if fo and nonnull(F, fo[0].ret):
                    cs.add('file')
                    ctx.ob('sid-file', fn, len(fc) == 1 and fc[0].args[0] is fo[0].ret, 'the file is closed once', p)
                elif fn.endswith('context'): ctx.ob('sid-whole', fn, bool(fo), 'the certificate file is looked at', p)
                if not ctx.ob('sid-whole', fn, len(li) == 1, 'the accepted authorities are looked at', p): continue
                if truth(F, t_eq(li[0].ret, ZERO)) is not True:
                    cs.add('names%d' % num); ctx.ob('sid-whole', fn, bool(nn) and nn[0].args[0] is li[0].ret and len(nd) == num, 'every accepted authority counts (%d of %d)' % (len(nd), num), p)
                else: cs.add('none')
                cs.add('set')
            # a failing step fails the whole
            bad = [e for e in made + ini + fin + sid if isnull(F, e.ret)] + [e for e in nd if isnull(F, e.ret)] + [e for j, e in enumerate(up) if isnull(F, e.ret) and (j == 0 or not fr or index_of(ev, e) > index_of(ev, fr[-1]) + 1)]
            r = p.const(p.ret); ctx.ob('sid-result', fn, (r == 1) == (bool(sid) and not isnull(F, sid[0].ret) and truth(F, t_eq(sid[0].ret, ZERO)) is False), 'success is reported exactly if the identity was set', p)
            if bad: ctx.ob('sid-result', fn, r == 0 or bool(sid) and not isnull(F, sid[0].ret) and all(e in up for e in bad), 'a failing step fails the whole', p)
            else: ctx.ob('sid-result', fn, r == 1, 'with every step done the identity is set', p)
        ctx.ob('sid-cases', fn, {'set', 'none', 'names0', 'names1', 'names3'} <= cs and ('file' in cs or not fn.endswith('context')), 'found %s' % cs)
    # a certificate file counts up to its end, or its first MiB: followed to the end for files of telling lengths
    fn = 'kgl_ssl_session_id_context'; cert = sym('al', 'name'); sctx = sym('al', 'ctx')
    def yes(name):
        def f(E, st, fr, i, args, work): fr.env[i['i']] = ONE; E.emit(st, 'call', name, args, ONE, i)
        return f
    for size in (0, 1, 511, 512, 513, 1300, MIB - 1, MIB, MIB + 1, MIB + 100000):
        def fread(E, st, fr, i, args, work):
            room = cv(args[1]) * cv(args[2]); left = size - st.user.get('pos', 0); n = min(room, left)
            fr.env[i['i']] = C(n); st.user = dict(st.user, pos=st.user.get('pos', 0) + n); E.emit(st, 'call', 'fread', args, C(n), i)
        def fopen(E, st, fr, i, args, work):
            r = sym('al', 'file'); assume(st.facts, t_eq(r, ZERO), False); fr.env[i['i']] = r; E.emit(st, 'call', 'fopen', args, r, i)
        def fclose(E, st, fr, i, args, work):
            fr.env[i['i']] = ZERO; E.emit(st, 'call', 'fclose', args, ZERO, i)
        def nolist(E, st, fr, i, args, work): fr.env[i['i']] = ZERO; E.emit(st, 'call', 'SSL_CTX_get_client_CA_list', args, ZERO, i)
        M = {'fread': fread, 'fopen': fopen, 'fopen64': fopen, 'fclose': fclose, 'SSL_CTX_get_client_CA_list': nolist}
        M.update({n: yes(n) for n in ('EVP_DigestInit_ex', 'EVP_DigestUpdate', 'EVP_DigestFinal_ex', 'SSL_CTX_set_session_id_context')})
        P = ctx.e.run(fn, Cfg(cut=5000, havoc='none', models=M, maxsteps=2000000), args=[sctx, cert], setup=lambda E, st: [assume(st.facts, t_eq(x, ZERO), False) for x in (cert, sctx)]); ctx.npaths += len(P); n = 0
        for p in P:
            if not only(p.flat(), 'fopen'): continue
            ev = p.flat(); n += 1; o = index_of(ev, only(ev, 'fopen')[0]); c = [index_of(ev, e) for e in only(ev, 'fclose')]
            u = [cv(e.args[2]) if isc(e.args[2]) else None for e in ev[o:(c or [len(ev)])[0]] if is_call(e, 'EVP_DigestUpdate')]; g = None if None in u else sum(u)
            ok = p.kind != 'cut' and g is not None and (g == size if size <= MIB else MIB <= g <= min(size, MIB + 65536))
            ctx.ob('sid-whole', fn + ', a file of %d bytes' % size, ok, 'the certificate file counts up to its end, or its first MiB (%s bytes counted)' % g, p)
        ctx.ob('sid-whole', fn, n > 0, 'the certificate file is looked at')
    # the application's callbacks are the ones set
    f1, f2 = sym('arg:f1'), sym('arg:f2'); keep = {}
    for fn, args, want in (('kssl_set_npn_callback', [f1], {f1: 'npn'}), ('kssl_set_sni_callback', [f1, f2], {f1: 'sni', f2: 'free'})):
        for p in ctx.e.run(fn, Cfg(), args=args):
            ctx.npaths += 1; ctx.entries.add(fn)
            st = {e.args[2]: e.args[0].args[0] for e in p.flat() if e.kind == 'st' and e.args[0].op in ('g', 'sym')}
            ctx.ob('callbacks', fn, set(st) == set(want) and len(set(st.values())) == len(want) and not calls_of(p), 'each callback given is kept: %s' % sorted(st.values()), p)
            for f, w in want.items(): keep[w] = st.get(f)
    fn = 'kssl_init'; a = [sym('arg:' + x) for x in 'abc']
    for p in ctx.e.run(fn, Cfg(opaque=('kssl_init2',), pure=('kssl_init2',), havoc='none'), args=a):
        ev = p.flat(); ctx.npaths += 1; ctx.entries.add(fn)
        kept = all(keep[w] is not None and final(ctx, p, mk('g', keep[w]), 0) is f for f, w in zip(a, ('npn', 'sni', 'free')))
        ctx.ob('callbacks', fn, len(only(ev, 'kssl_init2')) == 1 and kept, 'the library is set up once, with the callbacks given', p)
    # agreeing on a protocol
    ssl, out, outlen, in_, inlen, arg, data = (sym('arg:' + x) for x in ('ssl', 'out', 'outlen', 'in', 'inlen', 'arg', 'data'))
    fn = 'kgl_ssl_npn_selected'; cs = set(); used = set(); idx = {}
    for p in ctx.e.run(fn, Cfg(opaque=('kgl_ssl_sni',)), args=[ssl, out, outlen, in_, inlen, arg]):
        ctx.npaths += 1; ctx.entries.add(fn); ev = p.flat(); F = p.final.facts; sn = only(ev, 'kgl_ssl_sni'); sel = only(ev, 'SSL_select_next_proto'); cb = [e for e in ev if e.kind == 'icall']; r = p.const(p.ret)
        want = [t for t in F if keep['sni'] and gname(t) == keep['sni']]
        asks = len(want) >= 1 and not isnull(F, want[0])
        ctx.ob('choose-name', fn, bool(want) and len(sn) == int(asks) and all(e.args[0] is ssl for e in sn), 'the name the client wants is settled first, if the application asks for it', p)
        if sn and not truth(F, t_eq(sn[0].ret, C(TL['SSL_TLSEXT_ERR_OK']))):
            cs.add('refused'); ctx.ob('choose-name', fn, (p.ret is sn[0].ret or truth(F, t_eq(p.ret, sn[0].ret)) is True) and not sel and not cb, 'a refused name ends it', p); continue
        gc = only(ev, 'SSL_get_SSL_CTX'); gx = only(ev, 'SSL_CTX_get_ex_data')
        ok = len(gc) == len(gx) == len(cb) == len(sel) == 1 and gc[0].args[0] is ssl and gx[0].args[0] is gc[0].ret and (not sn or index_of(ev, gc[0]) > index_of(ev, sn[0]))
        ok = ok and cb[0].args[0] is ssl and cb[0].args[1] is gx[0].ret and gname(cb[0].x) == keep['npn'] != None
        if not ctx.ob('choose', fn, ok, 'the application is asked once, with the data of the context in use now', p): continue
        idx.setdefault('ctx', set()).add(gname_any(gx[0].args[1]))
        pr, pl = cb[0].args[2:4]; a = sel[0].args
        ok = a[0] is out and a[1] is outlen and a[4] is in_ and a[5] is inlen and a[2] is at(ctx, sel[0], pr, 0, 8) and a[3] is at(ctx, sel[0], pl, 0, 4)
        ctx.ob('choose', fn, ok, 'the choice is between what the application and the client offer', p)
        b, o = ptr_split(at(ctx, cb[0], pr, 0, 8)); n = p.const(at(ctx, cb[0], pl, 0, 4)); g = ctx.p.globals.get(b.args[0]) if b.op == 'g' else None
        txt = string_of(g); wire = txt is not None and o == 0 and n is not None and n <= len(txt) and wellformed(txt[:n]) and n >= len(txt.rstrip('\0'))
        ctx.ob('choose-default', fn, wire, 'an application that says nothing offers a well-formed list: %r' % (txt,), p)
        for v in (0, 1, 2):
            f = dict(F)
            try: assume(f, t_eq(sel[0].ret, C(v)), True)
            except absint.Infeasible: continue
            cs.add(v == TL['OPENSSL_NPN_NEGOTIATED']); ctx.ob('choose-answer', fn, r == (TL['SSL_TLSEXT_ERR_OK'] if v == TL['OPENSSL_NPN_NEGOTIATED'] else TL['SSL_TLSEXT_ERR_NOACK']), 'agreement is reported exactly if there is a common protocol', p)
    ctx.ob('choose-cases', fn, cs == {'refused', True, False}, 'found %s' % cs)
    fn = 'kgl_ssl_npn_advertise'
    for p in ctx.e.run(fn, Cfg(), args=[ssl, out, outlen, arg]):
        ev = p.flat(); gc = only(ev, 'SSL_get_SSL_CTX'); gx = only(ev, 'SSL_CTX_get_ex_data'); cb = [e for e in ev if e.kind == 'icall']; ctx.npaths += 1; ctx.entries.add(fn)
        ok = len(gc) == len(gx) == len(cb) == 1 and gc[0].args[0] is ssl and gx[0].args[0] is gc[0].ret and [x is y for x, y in zip(cb[0].args, (ssl, gx[0].ret, out, outlen))] == [True] * 4 and gname(cb[0].x) == keep['npn'] != None and p.const(p.ret) == TL['SSL_TLSEXT_ERR_OK']
        ctx.ob('advertise', fn, ok, 'what is offered is what the application says', p)
        if gx: idx.setdefault('ctx', set()).add(gname_any(gx[0].args[1]))
    fn = 'kgl_ssl_npn_selected2'
    for p in ctx.e.run(fn, Cfg(opaque=('kgl_ssl_npn_selected',)), args=[ssl, out, outlen, in_, inlen, arg]):
        c = only(p.flat(), 'kgl_ssl_npn_selected')
        ctx.ob('choose', fn, len(c) == 1 and all(x is y for x, y in zip(c[0].args[:5], (ssl, out, outlen, in_, inlen))) and p.ret is c[0].ret, 'the same choice', p)
    for fn, w, args in (('kgl_ssl_sni', 'sni', None), ('kconnection_real_destroy', 'free', None)):
        n = 0
        for p in ctx.run(fn, opaque=('selectable_clean', 'kserver_release')):
            for e in p.flat():
                if e.kind == 'icall' and e.x is not None and gname(e.x) is not None and 'sni' in e.name: n += 1; ctx.ob('callbacks', fn, gname(e.x) == keep[w] != None, 'the callback used is the one set', p)
        ctx.ob('callbacks', fn, n > 0, 'no callback is used')
    # where a session keeps its connection, and a context its data
    fn = 'kssl_init2'; place = {}
    for p in ctx.run(fn, cut=3):
        if p.kind == 'cut': continue
        ix = [e for e in p.flat() if e.kind == 'call' and e.name == 'CRYPTO_get_ex_new_index']; st = {e.args[2]: e.args[0].args[0] for e in p.flat() if e.kind == 'st' and e.args[0].op in ('g', 'sym')}
        got = {p.const(e.args[0]): st.get(e.ret) for e in ix}
        ctx.ob('places', fn, set(got) == {TL['CRYPTO_EX_INDEX_SSL'], TL['CRYPTO_EX_INDEX_SSL_CTX']} and None not in got.values() and len(set(got.values())) == 2, 'one place in a session and one in a context', p); place = got
    ctx.ob('places', fn, idx.get('ctx') == {place.get(TL['CRYPTO_EX_INDEX_SSL_CTX'])}, 'the data of a context is looked for where it is kept: %s' % idx)
    for fn, cls, nm in (('kgl_ssl_sni', 'CRYPTO_EX_INDEX_SSL', 'SSL_get_ex_data'), ('kconnection_ssl_accept', 'CRYPTO_EX_INDEX_SSL', 'SSL_set_ex_data'), ('kgl_ssl_ctx_new', 'CRYPTO_EX_INDEX_SSL_CTX', 'SSL_CTX_set_ex_data')):
        n = 0
        for p in ctx.run(fn):
            for e in only(p.flat(), nm): n += 1; ctx.ob('places', fn, gname_any(e.args[1]) == place.get(TL[cls]), 'what belongs to a session or context is kept in its place', p)
        ctx.ob('places', fn, n > 0, 'nothing is kept')
    # what was agreed on
    fn = 'kgl_ssl_get_next_proto_negotiated'; d_, l_ = sym('al', 'd'), sym('al', 'l'); cs = set()
    def su(E, st):
        for x in (d_, l_): assume(st.facts, t_eq(x, ZERO), False)
    for p in ctx.e.run(fn, Cfg(), setup=su, args=[ssl, d_, l_]):
        ctx.npaths += 1; ctx.entries.add(fn); ev = p.flat(); c = calls_of(p); al = only(ev, 'SSL_get0_alpn_selected'); np = only(ev, 'SSL_get0_next_proto_negotiated')
        ok = len(al) == 1 and len(np) <= 1 and len(c) == len(al) + len(np) and all(e.args[0] is ssl and e.args[1] is d_ and e.args[2] is l_ for e in c)
        if np: l0 = at(ctx, np[0], l_, 0, 4); ok = ok and index_of(ev, al[0]) < index_of(ev, np[0]) and truth(np[0].snap.facts, t_eq(l0, ZERO)) is True
        elif al: ok = ok and truth(p.final.facts, t_eq(final(ctx, p, l_, 0, 4), ZERO)) is not True
        cs.add(bool(np)); ctx.ob('agreed', fn, ok, 'what the session agreed on is told, the older way only if there is no other', p)
    ctx.ob('agreed', fn, cs == {True, False}, 'found %s' % cs)
    # settings of a context
    c_ = sym('arg:ctx'); fn = 'kgl_ssl_ctx_set_cipher_list'; ci = sym('arg:cipher')
    for p in ctx.e.run(fn, Cfg(), args=[c_, ci]):
        ctx.npaths += 1; ctx.entries.add(fn); e = only(p.flat(), 'SSL_CTX_set_cipher_list')
        if ctx.ob('ciphers', fn, len(e) == 1 and e[0].args[0] is c_ and e[0].args[1] is ci, 'the ciphers given are set', p):
            for v in (0, 1):
                f = dict(p.final.facts)
                try: assume(f, t_eq(e[0].ret, C(v)), True)
                except absint.Infeasible: continue
                ctx.ob('ciphers', fn, truth(f, p.ret) is bool(v), 'success is reported exactly if they were accepted', p)
    fn = 'kgl_ssl_ctx_set_early_data'
    for on in (0, 1):
        for p in ctx.e.run(fn, Cfg(), args=[c_, C(on)]):
            ctx.npaths += 1; ctx.entries.add(fn); e = only(p.flat(), 'SSL_CTX_set_max_early_data')
            ctx.ob('early', fn, len(e) == 1 and e[0].args[0] is c_ and p.const(e[0].args[1]) is not None and (p.const(e[0].args[1]) > 0) is bool(on), 'early data is accepted exactly if asked for', p)
    return locals()

def gname_any(t):
    d = decode(t); return d[0].args[0] if d and d[1] == 0 and d[0].op in ('g', 'sym') else None
def string_of(g):
    if not g: return None
    s = g.get('init')
    try: return ''.join(chr(int(x) & 255) if not isinstance(x, str) else x for x in (s[0][1]['s'] if isinstance(s[0], (list, tuple)) else s))
    except Exception: return None
def wellformed(t):
    i = 0
    while i < len(t):
        n = ord(t[i])
        if n == 0 or i + 1 + n > len(t): return False
        i += 1 + n
    return i == len(t) and i > 0
