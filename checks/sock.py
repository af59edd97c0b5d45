"""Sockets: opening, listening, connecting; addresses and their comparison."""
from fw import *
import ir
from sync import fld, calls
from conn import errno_is, clrbit, setbit
from tls import only, flat2
from server import reads

OPEN = ('socket', 'bind', 'listen', 'connect', 'close', 'setsockopt', 'accept4', 'accept', 'unlink', 'poll', 'select', 'ioctl', 'fcntl')
def sockets(ctx):
    M = ir.macro_values(['SOCK_STREAM', 'SOCK_DGRAM', 'SOCK_CLOEXEC', 'SOCK_NONBLOCK', 'KSOCKET_BLOCK', 'KSOCKET_REUSEPORT', 'KSOCKET_ONLY_IPV6', 'KSOCKET_FASTOPEN', 'SOL_SOCKET', 'SO_REUSEADDR', 'SO_REUSEPORT', 'IPPROTO_IPV6', 'IPV6_V6ONLY', 'IPPROTO_TCP', 'TCP_FASTOPEN', 'TCP_NODELAY', 'TCP_CORK',
                         'SO_SNDTIMEO', 'SO_RCVTIMEO', 'AF_UNIX', 'PF_INET', 'PF_INET6', 'EINPROGRESS', 'POLLIN', 'POLLOUT', 'POLLERR', 'POLLPRI', 'S_IFMT', 'S_IFSOCK', 'FIONBIO', 'F_GETFL', 'O_NONBLOCK'], ['"ksocket.h"', '<netinet/tcp.h>', '<poll.h>', '<sys/ioctl.h>', '<sys/stat.h>', '<fcntl.h>', '<errno.h>'])
    SA, UN = ctx.p.sizeof('sockaddr_i'), ctx.p.sizeof('sockaddr_un'); V4, V6 = ctx.p.sizeof('sockaddr_in'), ctx.p.sizeof('sockaddr_in6')
    path_off = ctx.off('sockaddr_un', 'sun_path'); FAM = 0; ROOM = UN - path_off
    mode = ctx.off('stat', 'st_mode')
    a4, p4 = fld(ctx, 'sockaddr_in', 'sin_addr', 'sin_port'); a6, p6 = fld(ctx, 'sockaddr_in6', 'sin6_addr', 'sin6_port')
    def length_ok(F, a, n):
        f = initial(a, FAM)
        for fam, want in ((M['PF_INET'], V4), (M['AF_UNIX'], UN)):
            if same(F, f, C(fam)): return n == want
        return n == V6 and all(differs(F, f, C(x)) for x in (M['PF_INET'], M['AF_UNIX']))
    def option(ctx, e):
        """(level, option, int value) of a setsockopt call"""
        try: return tuple(cv(x) for x in e.args[1:3]) + (cv(at(ctx, e, e.args[3], 0, 4)),)
        except Exception: return None
    def common(fn, s, want_fam, kind, nonblock, opts, maybe=()):
        """the socket call, its options, and that a failed socket ends the call; -> (fd, failed)"""
        ev = s.flat(); F = s.final.facts; so = only(ev, 'socket')
        ok = len(so) == 1 and so[0].args[0] is mk('zext', want_fam, 16) or len(so) == 1 and same(F, so[0].args[0], want_fam) or len(so) == 1 and so[0].args[0] is want_fam
        if not ctx.ob('open-family', fn, ok, 'one socket of the family of the address', s): return None
        t = s.const(so[0].args[1]); fl = M['SOCK_CLOEXEC'] | kind | (M['SOCK_NONBLOCK'] if nonblock else 0)
        ctx.ob('open-type', fn, nonblock is not None and t == fl and s.const(so[0].args[2]) == 0, 'close-on-exec always, non-blocking exactly unless blocking was asked for', s)
        fd = so[0].ret
        ok = all(e.args[0] is fd for e in ev if is_call(e, 'bind', 'listen', 'connect', 'close', 'setsockopt'))
        ctx.ob('open-same', fn, ok, 'every step works on the new socket', s)
        if same(F, fd, C(-1)):
            ctx.ob('open-failed', fn, s.const(s.ret) == -1 and not [e for e in ev if is_call(e, 'bind', 'listen', 'connect', 'close', 'setsockopt')], 'without a socket nothing more happens', s); return fd, True
        got = {option(ctx, e) for e in only(ev, 'setsockopt')}
        for o, on in opts:
            if not ctx.ob('open-option', fn, on is not None and ((o + (1,)) in got) == on, 'option %s/%s is set exactly if asked for' % o, s): pass
        ctx.ob('open-options', fn, None not in got and got <= {o + (1,) for o, _ in opts}, 'no other option is set', s)
        b = [e for e in ev if is_call(e, 'bind', 'connect', 'listen')]
        for e in only(ev, 'setsockopt'): ctx.ob('open-option-first', fn, not b or index_of(ev, e) < index_of(ev, b[0]), 'options are set before the socket is used', s)
        return fd, False
    def flag(F, f, m): 
        return False if clrbit(F, f, m) else True if setbit(F, f, m) else None
    def ending(fn, s, fd, failed):
        ev = s.flat(); cl = only(ev, 'close')
        if failed: ctx.ob('open-closed', fn, len(cl) == 1 and s.const(s.ret) == -1 and cl[0] is [e for e in ev if is_call(e, *OPEN)][-1], 'a step that fails closes the socket once and reports none', s)
        else: ctx.ob('open-kept', fn, not cl and s.ret is fd, 'the socket is returned open', s)
    # ---- listening
    fn = 'ksocket_listen'; S = ctx.run(fn); addr, f = ctx.args; seen = set()
    for s in S:
        ev = s.flat(); F = s.final.facts; un = only(ev, 'unlink'); st = only(ev, 'stat') + only(ev, 'lstat'); fam = initial(addr, FAM); unix = same(F, fam, C(M['AF_UNIX']))
        issock = None
        if st: 
            kinds = [t for t in F if t.op == 'and' and isc(t.args[1]) and cv(t.args[1]) == M['S_IFMT'] and decode(t.args[0]) == (st[0].args[1], mode)]
            issock = len(st) == 1 and same(F, st[0].ret, ZERO) and any(same(F, t, C(M['S_IFSOCK'])) for t in kinds) and st[0].args[0] is ptradd(addr, path_off)
        ok = len(un) == (1 if unix and issock else 0) and (not unix or len(st) == 1) and all(e.args[0] is ptradd(addr, path_off) for e in un)
        ctx.ob('stale', fn, ok, 'what is removed before listening is a stale unix socket at the address, and nothing else', s)
        if un: seen.add('stale')
        blk = flag(F, f, M['KSOCKET_BLOCK'])
        r = common(fn, s, fam, M['SOCK_STREAM'], None if blk is None else not blk, [((M['SOL_SOCKET'], M['SO_REUSEADDR']), True), ((M['SOL_SOCKET'], M['SO_REUSEPORT']), flag(F, f, M['KSOCKET_REUSEPORT'])), ((M['IPPROTO_IPV6'], M['IPV6_V6ONLY']), flag(F, f, M['KSOCKET_ONLY_IPV6'])), ((M['IPPROTO_TCP'], M['TCP_FASTOPEN']), flag(F, f, M['KSOCKET_FASTOPEN']))])
        if r is None or r[1]: continue
        fd = r[0]; b = only(ev, 'bind'); li = only(ev, 'listen')
        ctx.ob('listen-bind', fn, len(b) == 1 and b[0].args[1] is addr and length_ok(F, addr, s.const(b[0].args[2])) and (not un or index_of(ev, un[0]) < index_of(ev, b[0])), 'the socket is bound once to the given address', s)
        if not b: continue
        bad = lt(F, b[0].ret, ZERO) or differs(F, b[0].ret, ZERO)
        if bad: seen.add('bind'); ctx.ob('listen-after', fn, not li, 'an unbound socket does not listen', s); ending(fn, s, fd, True); continue
        ctx.ob('listen-after', fn, len(li) == 1 and index_of(ev, li[0]) > index_of(ev, b[0]) and s.const(li[0].args[1]) != 0, 'a bound socket listens', s)
        if not li: continue
        bad = bool(lt(F, li[0].ret, ZERO) or differs(F, li[0].ret, ZERO)); seen.add(('listen', bad)); ending(fn, s, fd, bad)
    ctx.ob('listen-cases', fn, seen == {'stale', 'bind', ('listen', True), ('listen', False)}, 'found %s' % seen)
    # ---- connecting
    for fn in ('ksocket_half_connect', 'ksocket_connect'):
        half = 'half' in fn; S = ctx.run(fn, opaque=('wait_socket_event',)); addr, ba, tmo = ctx.args; seen = set()
        for s in S:
            ev = s.flat(); F = s.final.facts
            r = common(fn, s, initial(addr, FAM), M['SOCK_STREAM'], half, [])
            if r is None or r[1]: continue
            fd = r[0]; b = only(ev, 'bind'); c = only(ev, 'connect'); w = only(ev, 'wait_socket_event')
            ok = len(b) == (1 if nonnull(F, ba) else 0) and all(e.args[1] is ba and length_ok(F, ba, s.const(e.args[2])) for e in b)
            ctx.ob('connect-bind', fn, ok, 'a local address is bound exactly if given', s)
            if b and (lt(F, b[0].ret, ZERO) or differs(F, b[0].ret, ZERO)): seen.add('bind'); ctx.ob('connect-after', fn, not c, 'a socket that could not be bound is not connected', s); ending(fn, s, fd, True); continue
            ok = len(c) == 1 and c[0].args[1] is addr and length_ok(F, addr, s.const(c[0].args[2])) and (not b or index_of(ev, c[0]) > index_of(ev, b[0]))
            if not ctx.ob('connect-after', fn, ok, 'the socket connects once to the given address', s): continue
            bad = bool(lt(F, c[0].ret, ZERO) or differs(F, c[0].ret, ZERO))
            if half:
                if bad:
                    q = errno_is(F, M['EINPROGRESS']); seen.add(('errno', q)); ctx.ob('connect-progress', fn, q is not None, 'a connect in progress is not a failure', s); bad = q is not True
                else: seen.add('done')
            elif not bad:
                ok = len(w) == 1 and w[0].args[0] is fd and nonnull(F, w[0].args[1]) and w[0].args[2] is tmo
                if not ctx.ob('connect-wait', fn, ok, 'the connected socket is awaited once with the given limit', s): continue
                bad = truth(F, w[0].ret) is False; seen.add(('wait', bad))
            else: seen.add('refused')
            ending(fn, s, fd, bad)
        ctx.ob('connect-cases', fn, seen == ({'bind', 'done', ('errno', True), ('errno', False)} if half else {'bind', 'refused', ('wait', True), ('wait', False)}), 'found %s' % seen)
    # ---- datagrams
    fn = 'ksocket_new_udp'; S = ctx.run(fn); fam, f = ctx.args
    for s in S:
        F = s.final.facts; blk = flag(F, f, M['KSOCKET_BLOCK'])
        r = common(fn, s, fam, M['SOCK_DGRAM'], None if blk is None else not blk, [((M['SOL_SOCKET'], M['SO_REUSEPORT']), flag(F, f, M['KSOCKET_REUSEPORT'])), ((M['IPPROTO_IPV6'], M['IPV6_V6ONLY']), flag(F, f, M['KSOCKET_ONLY_IPV6']))])
        if r is None or r[1]: continue
        ending(fn, s, r[0], False)
    ctx.ob('udp-cases', fn, len(S) >= 5, 'found %d' % len(S))
    # ---- waiting
    fn = 'wait_socket_event'; S = ctx.run(fn); sfd, wr, tmo = ctx.args; pf, pe, pr = fld(ctx, 'pollfd', 'fd', 'events', 'revents'); seen = set()
    for s in S:
        ev = s.flat(); F = s.final.facts; po = only(ev, 'poll'); r = truth(F, s.ret) if not isc(s.ret) else bool(cv(s.ret))
        ctx.ob('wait-select', fn, not only(ev, 'select'), 'any descriptor can be awaited', s)
        if lt(F, ZERO, tmo) is False: seen.add('now'); ctx.ob('wait-none', fn, not po and r is True, 'without a limit nothing is awaited', s); continue
        if not ctx.ob('wait-poll', fn, len(po) == 1 and s.const(po[0].args[1]) == 1 and sub(po[0].args[2], mulc(tmo, 1000)) is ZERO, 'the socket is awaited once for the given seconds', s): continue
        e = po[0]; m = at(ctx, e, e.args[0], pe, 2); m = cv(m) if isc(m) else None; w = truth(F, wr)
        ctx.ob('wait-kind', fn, at(ctx, e, e.args[0], pf, 4) is sfd and m is not None and w is not None and bool(m & M['POLLOUT']) == w and bool(m & M['POLLIN']) == (not w), 'it is awaited for the direction asked for', s)
        good = lt(F, ZERO, e.ret)
        if not good: seen.add('timeout'); ctx.ob('wait-false', fn, good is False and r is False, 'a time-out or failure is reported', s); continue
        bits = {t for t in list(F) + list(_terms(s.ret)) if t.op == 'and' and isc(t.args[1]) and cv(t.args[1]) == M['POLLERR'] and any(decode(y) == (e.args[0], pr) for y in t.syms)
                or t.op == 'and' and isc(t.args[1]) and cv(t.args[1]) == M['POLLERR'] and any(x.op == 'lshr' and isc(x.args[1]) and cv(x.args[1]) == 8 * pr and decode(x.args[0]) == (e.args[0], 0) for x in _terms(t))}
        if not ctx.ob('wait-error', fn, len(bits) == 1, 'a socket error is not readiness', s): continue
        for er, f in both(F, bits.pop()):
            seen.add(er); v = bool(cv(s.ret)) if isc(s.ret) else truth(f, s.ret)
            ctx.ob('wait-error', fn, v is (not er), 'a socket error is not readiness', s)
    ctx.ob('wait-cases', fn, seen == {'now', 'timeout', True, False}, 'found %s' % seen)
    # ---- mode
    for fn, want in (('ksocket_no_block', 1), ('ksocket_block', 0)):
        for s in ctx.run(fn):
            io = only(s.flat(), 'ioctl'); ctx.ob('mode-set', fn, len(io) == 1 and io[0].args[0] is ctx.args[0] and s.const(io[0].args[1]) == M['FIONBIO'] and (lambda v: isc(v) and cv(v) == want)(at(ctx, io[0], io[0].args[2], 0, 4)), 'the mode asked for is set', s)
    fn = 'ksocket_is_block'; S = ctx.run(fn)
    for s in S:
        fc = only(s.flat(), 'fcntl')
        if not ctx.ob('mode-get', fn, len(fc) == 1 and fc[0].args[0] is ctx.args[0] and s.const(fc[0].args[1]) == M['F_GETFL'], 'the mode is asked for', s): continue
        b = t_bit('and', fc[0].ret, C(M['O_NONBLOCK']), 32)
        for nb, F in both(s.final.facts, b): ctx.ob('mode-get', fn, (bool(cv(s.ret)) if isc(s.ret) else truth(F, s.ret)) is (not nb), 'blocking exactly without O_NONBLOCK', s)
    fn = 'ksocket_set_time'; S = ctx.run(fn); sfd, sn, rc = ctx.args; seen = set(); tv, tu = fld(ctx, 'timeval', 'tv_sec', 'tv_usec')
    for s in S:
        ev = s.flat(); F = s.final.facts; so = only(ev, 'setsockopt'); r = bool(s.const(s.ret)); want = {M['SO_SNDTIMEO']: sn, M['SO_RCVTIMEO']: rc}; got = {}
        for e in so:
            o = s.const(e.args[2]); got[o] = got.get(o, 0) + 1
            ctx.ob('time-value', fn, e.args[0] is sfd and s.const(e.args[1]) == M['SOL_SOCKET'] and o in want and same(F, at(ctx, e, e.args[3], tv), want[o]) and s.const(at(ctx, e, e.args[3], tu)) == 0, 'each limit is set to its own value', s)
        good = bool(so) and all(same(F, e.ret, ZERO) for e in so); seen.add(r)
        ctx.ob('time-result', fn, r == (good and got == {o: 1 for o in want}) and (r or any(differs(F, e.ret, ZERO) for e in so)), 'success means both limits are set', s)
    ctx.ob('time-cases', fn, seen == {True, False}, 'found %s' % seen)
    for fn in ('ksocket_no_delay', 'ksocket_delay'):
        for s in ctx.run(fn):
            so = only(s.flat(), 'setsockopt'); F = s.final.facts; e = so[0] if len(so) == 1 else None; o = option(ctx, e) if e else None
            forever = fn == 'ksocket_no_delay' and truth(F, ctx.args[1])
            want = (M['TCP_NODELAY'], 1) if forever else ((M['TCP_CORK'], 0), (M['TCP_NODELAY'], 1)) if fn == 'ksocket_no_delay' else ((M['TCP_CORK'], 1), (M['TCP_NODELAY'], 0))
            ok = o is not None and o[0] == M['IPPROTO_TCP'] and (o[1:] == want if forever else o[1:] in want) and e.args[0] is ctx.args[0] and s.ret is e.ret
            ctx.ob('delay', fn, ok, 'small packets are held back or sent at once as asked for', s)
    addresses(ctx, M, SA, UN, V4, V6, path_off, ROOM, a4, p4, a6, p6)

def sign(F, t):
    if lt(F, t, ZERO): return -1
    if lt(F, ZERO, t): return 1
    if same(F, t, ZERO): return 0
    return None
def _terms(t):
    yield t
    for x in t.args:
        if isinstance(x, Term): yield from _terms(x)
def nowrap(t):
    """a sum of truth values and of numbers narrower than the result: it cannot wrap around"""
    k, d = lin_parts(t)
    return all(x.op in ('ult', 'slt', 'eq', 'not') or x.op in ('zext', 'sext') and x.args[1] <= 16 or x.op in ('zext', 'sext') and x.args[0].op in ('ult', 'slt', 'eq', 'not') for x in d)
def rep(s, t):
    """the value a branch made t equal to"""
    for _ in range(8):
        n = s.final.eqs.get(t, t)
        if n is t: break
        t = n
    return t
def order(ctx, rule, fn, s, x, y):
    """the result orders x and y (unsigned), whatever they are"""
    x, y = rep(s, x), rep(s, y)
    F = s.final.facts
    for cond, want in ((t_ult(x, y), -1), (t_ult(y, x), 1), (t_eq(x, y), 0)):
        f = dict(F)
        try:
            assume(f, cond, True)
            for c2 in (t_ult(x, y), t_ult(y, x), t_eq(x, y)):
                if c2 is not cond: assume(f, c2, False)
        except Infeasible: continue
        r = s.ret if isc(s.ret) else resolve(f, s.ret)
        ctx.ob(rule, fn, nowrap(s.ret) and sign(f, r) == want, 'numbers are ordered without overflow', s)
def resolve(F, t):
    """the value of a term built from comparisons the facts decide"""
    m = {}
    def walk(u):
        if u.op in ('ult', 'slt', 'eq', 'not', 'ite') or u.op == 'zext' and u.args[0].op in ('ult', 'slt', 'eq', 'not'):
            v = truth(F, u)
            if v is not None: return C(int(v))
        return u
    k, d = lin_parts(t); r = C(k)
    for x, c in d.items(): r = add(r, mulc(walk(x), c))
    return r
def addresses(ctx, M, SA, UN, V4, V6, path_off, ROOM, a4, p4, a6, p6):
    FAM = 0; INET, INET6, UNIX = M['PF_INET'], M['PF_INET6'], M['AF_UNIX']
    fn = 'ksocket_addr_len'; S = ctx.run(fn); a = ctx.args[0]
    for s in S:
        F = s.final.facts; f = initial(a, FAM); n = s.const(s.ret)
        ctx.ob('addr-length', fn, n == (V4 if same(F, f, C(INET)) else UN if same(F, f, C(UNIX)) else V6) and (same(F, f, C(INET)) or differs(F, f, C(INET))) and (same(F, f, C(UNIX)) or differs(F, f, C(UNIX))), 'each family has its own length', s)
    fn = 'ksocket_addr_port'; S = ctx.run(fn); a = ctx.args[0]
    for s in S:
        F = s.final.facts; f = initial(a, FAM); n = only(s.flat(), 'ntohs')
        if same(F, f, C(INET)) or same(F, f, C(INET6)): ctx.ob('addr-port', fn, len(n) == 1 and s.ret is n[0].ret and same(F, n[0].args[0], initial(a, p4 if same(F, f, C(INET)) else p6)), 'the port is the one of the address, in host order', s)
        else: ctx.ob('addr-port', fn, s.const(s.ret) == 0 and differs(F, f, C(INET)) and differs(F, f, C(INET6)), 'another family has no port', s)
    # ---- order, equality and hash
    ipf = ctx.off('ip_addr_s', 'sin_family')
    def compare(fn, fam, v4, v6, alen=16):
        S = ctx.run(fn); a, b = ctx.args; seen = set(); fa, fb = initial(a, fam), initial(b, fam)
        for s in S:
            fa, fb = rep(s, initial(a, fam)), rep(s, initial(b, fam))
            F = s.final.facts; d = sub(mk('zext', fa, 16), mk('zext', fb, 16)); mc = only(s.flat(), 'memcmp')
            eq = same(F, d, ZERO) or same(F, fa, fb)
            if not eq:
                seen.add('family'); r = s.ret
                ok = differs(F, d, ZERO) or differs(F, fa, fb)
                for w, x, y in ((-1, fa, fb), (1, fb, fa)):
                    f = dict(F)
                    try:
                        assume(f, t_ult(x, y), True); assume(f, t_slt(sub(mk('zext', x, 16), mk('zext', y, 16)), ZERO), True)
                    except Infeasible: continue
                    ok = ok and sign(f, resolve(f, r)) == w
                ctx.ob('order-family', fn, ok and not mc, 'the family comes first', s)
            elif same(F, fa, C(INET)) or same(F, fb, C(INET)): seen.add('v4'); ctx.ob('order-word', fn, not mc, 'an IPv4 address is one word', s); order(ctx, 'order-word', fn, s, initial(a, v4), initial(b, v4))
            else:
                seen.add('v6'); ok = len(mc) == 1 and mc[0].args[0] is ptradd(a, v6) and mc[0].args[1] is ptradd(b, v6) and s.const(mc[0].args[2]) == alen
                if ctx.ob('order-bytes', fn, ok, 'an IPv6 address is compared in full', s):
                    for w, lo in ((-1, t_slt(mc[0].ret, ZERO)), (1, t_slt(ZERO, mc[0].ret)), (0, t_eq(mc[0].ret, ZERO))):
                        f = dict(F)
                        try: assume(f, lo, True)
                        except Infeasible: continue
                        ctx.ob('order-bytes', fn, sign(f, resolve(f, s.ret)) == w, 'the order is that of the bytes', s)
        ctx.ob('order-cases', fn, seen == {'family', 'v4', 'v6'}, 'found %s' % seen)
    compare('ksocket_addr_compare', FAM, a4, a6)
    compare('ksocket_ipaddr_compare', ipf, 0, 0)
    fn = 'rbtree_int_cmp'; S = ctx.run(fn); a, b = ctx.args; x, y = initial(a, 0), initial(b, 0)
    for s in S:
        F = s.final.facts; x, y = rep(s, initial(a, 0)), rep(s, initial(b, 0))
        for w, c in ((-1, t_slt(x, y)), (1, t_slt(y, x)), (0, t_eq(x, y))):
            f = dict(F)
            try:
                assume(f, c, True)
                for c2 in (t_slt(x, y), t_slt(y, x), t_eq(x, y)):
                    if c2 is not c: assume(f, c2, False)
            except Infeasible: continue
            ctx.ob('order-int', fn, nowrap(s.ret) and sign(f, resolve(f, s.ret)) == w, 'integers are ordered without overflow', s)
    def hashing(fn, fam, v4, v6):
        """what the hash reads is what the comparison compares"""
        S = ctx.run(fn, record_loads=True, snap_st=True); a = ctx.args[0]; seen = set()
        for s in S:
            F = s.final.facts; f = initial(a, fam); v = same(F, f, C(INET)); kind = 'v4' if v else 'v6'; seen.add(kind)
            lds = [e for e in flat2(s.events) if e.kind == 'ld' and ptr_root(e.args[0]) is a and not (e.args[0] is a and e.args[1] == fam)]
            ok = bool(lds) and (v or differs(F, f, C(INET)))
            for e in lds:
                root, k = ptrlin(ptradd(e.args[0], e.args[1])); lo = v4 if v else v6; hi = v4 + 4 if v else v6 + 16
                fx = e.snap.facts
                ok = ok and root is a and lin_parts(k)[0] >= lo and (isc(k) and lo <= cv(k) and cv(k) + 4 <= hi or not isc(k) and not v and upto(fx, k, C(hi - 4)))
            ctx.ob('hash-reads', fn, ok, 'equal addresses have equal hashes: only the words that are compared are hashed', s)
        ctx.ob('hash-cases', fn, seen == {'v4', 'v6'}, 'found %s' % seen)
    def upto(F, k, hi):
        r = ev_cond(F, t_slt(hi, k)); return r is False or r is None and bounded(F, k, cv(hi))
    def bounded(F, k, hi):
        c, d = lin_parts(k)
        if len(d) != 1: return False
        (x, n), = d.items(); return n > 0 and ev_cond(F, t_slt(C((hi - c) // n), x)) is False
    hashing('ksocket_addr_hash', FAM, a4, a6)
    for w in ('verif_ip_hash', 'verif_ip_equal', 'verif_ip_less'):
        if w not in ctx.p.byname: raise AnalysisError('the IP address class was not found')
    hashing('verif_ip_hash', ipf, 0, 0)
    for fn in ('verif_ip_equal', 'verif_ip_less'):
        S = ctx.run(fn); a, b = ctx.args; fa, fb = initial(a, ipf), initial(b, ipf); seen = set(); less = 'less' in fn
        for s in S:
            fa, fb = rep(s, initial(a, ipf)), rep(s, initial(b, ipf))
            F = s.final.facts; mc = only(s.flat(), 'memcmp')
            def holds(f): return bool(cv(s.ret)) if isc(s.ret) else truth(f, s.ret)
            for fc, rel in ((t_ult(fa, fb), 'lt'), (t_ult(fb, fa), 'gt'), (t_eq(fa, fb), 'eq')):
                f0 = dict(F)
                try:
                    assume(f0, fc, True)
                    if rel != 'eq': assume(f0, t_eq(fa, fb), False); assume(f0, t_slt(mk('zext', fa, 16), mk('zext', fb, 16)), rel == 'lt'); assume(f0, t_eq(mk('zext', fa, 16), mk('zext', fb, 16)), False)
                    else:
                        for g in (t_ult(fa, fb), t_ult(fb, fa), t_slt(mk('zext', fa, 16), mk('zext', fb, 16)), t_slt(mk('zext', fb, 16), mk('zext', fa, 16))): assume(f0, g, False)
                        assume(f0, t_eq(mk('zext', fa, 16), mk('zext', fb, 16)), True)
                except Infeasible: continue
                if rel != 'eq': seen.add(rel); ctx.ob('ip-family', fn, holds(f0) is (less and rel == 'lt'), 'the family comes first', s); continue
                if same(f0, fa, C(INET)):
                    seen.add('v4'); x, y = rep(s, initial(a, 0)), rep(s, initial(b, 0))
                    for cond, k in ((t_ult(x, y), -1), (t_ult(y, x), 1), (t_eq(x, y), 0)):
                        f = dict(f0)
                        try:
                            for c2 in (t_ult(x, y), t_ult(y, x), t_eq(x, y)): assume(f, c2, c2 is cond)
                        except Infeasible: continue
                        ctx.ob('ip-word', fn, holds(f) is (k == (-1 if less else 0)), 'an IPv4 address is one word', s)
                elif differs(f0, fa, C(INET)):
                    seen.add('v6'); ok = len(mc) == 1 and {mc[0].args[0], mc[0].args[1]} == {a, b} and s.const(mc[0].args[2]) == 16
                    if not ctx.ob('ip-bytes', fn, ok, 'an IPv6 address is compared in full', s): continue
                    sw = mc[0].args[0] is b
                    for cond, k in ((t_slt(mc[0].ret, ZERO), -1), (t_slt(ZERO, mc[0].ret), 1), (t_eq(mc[0].ret, ZERO), 0)):
                        f = dict(f0)
                        try: assume(f, cond, True)
                        except Infeasible: continue
                        if sw: k = -k
                        ctx.ob('ip-bytes', fn, holds(f) is (k == (-1 if less else 0)), 'the order is that of the bytes', s)
        ctx.ob('ip-cases', fn, seen >= {'lt', 'gt', 'v4', 'v6'}, 'found %s' % seen)
    # ---- conversions
    fn = 'ksocket_ipaddr'; S = ctx.run(fn); a, to = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; ev = s.flat(); v = same(F, initial(a, FAM), C(INET)); seen.add(v); mc = [e for e in ev if e.kind == 'memcpy']
        ok = final(ctx, s, to, ipf, 2) is initial(a, FAM)
        if v: ok = ok and (final(ctx, s, to, 0, 4) is initial(a, a4) or [1 for e in mc if e.args[0] is to and e.args[1] is ptradd(a, a4) and s.const(e.args[2]) == 4])
        else: ok = ok and len(mc) == 1 and mc[0].args[0] is to and mc[0].args[1] is ptradd(a, a6) and s.const(mc[0].args[2]) == 16
        ctx.ob('ip-of-address', fn, ok, 'the family and the address are taken over', s)
    ctx.ob('ip-cases', fn, seen >= {True}, 'found %s' % seen)
    fn = 'ksocket_unix_addr'; S = ctx.run(fn); pth, un = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; ev = s.flat(); r = s.const(s.ret); sl = only(ev, 'strlen'); cp = [e for e in ev if is_call(e, 'strncpy', 'strcpy') or e.kind == 'memcpy']
        fits = lt(F, sl[0].ret, C(ROOM)) if len(sl) == 1 else None
        if fits is None and len(sl) == 1: fits = ev_cond(F, t_ult(sl[0].ret, C(ROOM)))
        if not ctx.ob('unix-fits', fn, fits is not None and (r == 0) == fits, 'a path is refused exactly if it does not fit with its end', s): continue
        seen.add(fits)
        if fits: ctx.ob('unix-path', fn, len(cp) == 1 and cp[0].args[0] is ptradd(un, path_off) and cp[0].args[1] is pth and s.const(final(ctx, s, un, 0, 2)) == UNIX, 'the path and the family are stored', s)
        else: ctx.ob('unix-path', fn, not [e for e in cp if ptr_root(e.args[0]) is un], 'a refused path is not copied', s)
    ctx.ob('unix-cases', fn, seen == {True, False}, 'found %s' % seen)
    # ---- numeric names
    fl, fa_, ai_family, ai_addr, ai_len = fld(ctx, 'addrinfo', 'ai_flags', 'ai_family', 'ai_family', 'ai_addr', 'ai_addrlen')
    def copied(fn, s, ai, port, to):
        """the first answer is copied within the room there is, with the port"""
        ev = s.flat(); F = s.final.facts; mc = [e for e in ev if e.kind == 'memcpy' and e.args[0] is to]; ht = only(ev, 'htons')
        ok = len(mc) == 1 and reads(mc[0].args[1], ai, ai_addr)
        if not ctx.ob('answer-copied', fn, ok, 'the answer is copied', s): return
        n = mc[0].args[2]; ln = [t for t in n.syms if reads(t, ai, ai_len)]
        c = s.const(n); islen = lambda x: any(reads(t, ai, ai_len) for t in x.syms)
        ok = c == SA and atleast(F, islen, SA) if c is not None else bool(ln) and not n.op == 'lin' and atmost(F, n, islen, SA)
        ctx.ob('answer-room', fn, ok, 'no more than the address has room for, and no less than there is', s)
        src = mc[0].args[1]; v6 = any(same(F, t, C(INET6)) for t in F if reads(t, ai, ai_family)); po = p6 if v6 else p4
        i = index_of(ev, mc[0]); st = [e for e in ev[:i] if e.kind == 'st' and e.args[0] is src and e.args[1] == po]
        after = [e for e in ev[i:] if e.kind == 'st' and e.args[0] is to and e.args[1] == po]
        w = st + after
        ctx.ob('answer-port', fn, len(ht) == 1 and len(w) == 1 and w[0].args[2] is ht[0].ret and (ht[0].args[0] is port or same(F, ht[0].args[0], port)), 'the port is stored in network order', s)
    def cmps(F):
        for t in F:
            if t.op == 'ult' and truth(F, t) is not None: yield t.args[0], t.args[1], truth(F, t)
    def atleast(F, is_it, k):
        return any(v and isc(x) and cv(x) >= k - 1 and is_it(y) or not v and isc(y) and cv(y) >= k and is_it(x) for x, y, v in cmps(F))
    def atmost(F, n, is_it, k):
        return interval(F, n)[1] <= k and interval(F, n)[0] >= 0 or any(v and isc(y) and cv(y) <= k + 1 and is_it(x) or not v and isc(x) and cv(x) <= k and is_it(y) for x, y, v in cmps(F)) or any(is_it(t) and interval(F, t)[0] >= 0 and interval(F, t)[1] <= k for t in F)
    fn = 'ksocket_addrinfo_sockaddr'; S = ctx.run(fn); ai, port, to = ctx.args
    for s in S: copied(fn, s, ai, port, to)
    fn = 'ksocket_getaddr'; S = ctx.run(fn); host, port, af, afl, to = ctx.args; seen = set()
    for s in S:
        ev = s.flat(); F = s.final.facts; g = only(ev, 'getaddrinfo'); fr = only(ev, 'freeaddrinfo'); r = bool(s.const(s.ret))
        if not ctx.ob('ask-once', fn, len(g) == 1 and g[0].args[0] is host, 'the name is asked for once', s): continue
        h = g[0].args[2]; ctx.ob('ask-hints', fn, at(ctx, g[0], h, fl, 4) is afl and at(ctx, g[0], h, ai_family, 4) is af, 'with the family and flags given', s)
        res = [t for t in F if decode(t) == (g[0].args[3], 0)]; none = any(isnull(F, t) for t in res); failed = differs(F, g[0].ret, ZERO)
        seen.add(r)
        if failed or none: ctx.ob('ask-failed', fn, not r and not fr and not [e for e in ev if e.kind == 'memcpy' and e.args[0] is to], 'without an answer the address is not touched', s); continue
        ctx.ob('ask-answer', fn, r and same(F, g[0].ret, ZERO) is True and len(fr) == 1 and decode(fr[0].args[0]) == (g[0].args[3], 0), 'the answer is freed once', s)
        if fr:
            copied(fn, s, fr[0].args[0], port, to)
            i = index_of(ev, fr[0]); ctx.ob('ask-freed-last', fn, not [e for e in ev[i:] if e.kind == 'memcpy'] and not [e for e in ev if e.kind == 'uaf'], 'the answer is not used after it was freed', s)
    ctx.ob('ask-cases', fn, seen == {True, False}, 'found %s' % seen)
    fn = 'ksocket_get_ipaddr'; S = ctx.run(fn, opaque=('ksocket_getaddr', 'ksocket_ipaddr')); host, ip = ctx.args
    for s in S:
        F = s.final.facts; g = calls(s, 'ksocket_getaddr'); c = calls(s, 'ksocket_ipaddr'); r = bool(s.const(s.ret)); ok = len(g) == 1 and g[0].args[0] is host and s.const(g[0].args[2]) == 0 and (s.const(g[0].args[3]) or 0) & 4 == 4    # any family, no look-up
        t = truth(F, g[0].ret) if ok else None
        ctx.ob('ip-of-name', fn, ok and t is not None and r == t and len(c) == int(t) and all(e.args[0] is g[0].args[4] and e.args[1] is ip for e in c), 'a numeric name gives its address', s)
    fn = 'ksocket_sockaddr_ip'; S = ctx.run(fn); a, ip, n = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; g = only(s.flat(), 'getnameinfo'); r = bool(s.const(s.ret)); ok = len(g) == 1 and g[0].args[0] is a and s.const(g[0].args[1]) == (V4 if same(F, initial(a, FAM), C(INET)) else UN if same(F, initial(a, FAM), C(UNIX)) else V6) and g[0].args[2] is ip and g[0].args[3] is n and s.const(g[0].args[6]) is not None
        seen.add(r); ctx.ob('name-of-ip', fn, ok and (same(F, g[0].ret, ZERO) if r else differs(F, g[0].ret, ZERO)) is True and (r or s.const(final(ctx, s, ip, 0, 1)) == 0), 'the name is written within its room, or an empty one and failure', s)
    ctx.ob('name-cases', fn, seen == {True, False}, 'found %s' % seen)
    fn = 'ksocket_ipaddr_ip'; S = ctx.run(fn, opaque=('ksocket_sockaddr_ip',)); ia, ip, n = ctx.args; seen = set()
    for s in S:
        g = calls(s, 'ksocket_sockaddr_ip'); ok = len(g) == 1 and g[0].args[1] is ip and g[0].args[2] is n and s.ret is g[0].ret; a = ok and g[0].args[0]
        v6 = same(s.final.facts, initial(ia, ipf), C(INET6)); seen.add(v6)
        ok = ok and at(ctx, g[0], a, FAM, 2) is initial(ia, ipf) and [(e.args[0], e.args[1], s.const(e.args[2])) for e in s.flat() if e.kind == 'memcpy'] in ([(ptradd(a, a6 if v6 else a4), ia, 16 if v6 else 4)],)
        ctx.ob('name-of-ip', fn, ok, 'the family and the address are those given', s)
    ctx.ob('name-cases', fn, True in seen and len(seen) == 2, 'found %s' % seen)
    fn = 'ksocket_ipaddr_and'; S = [s for s in ctx.run(fn, cut=5) if s.kind != 'cut']; x, y, r = ctx.args; seen = set()
    for s in S:
        v4 = same(s.final.facts, initial(x, ipf), C(INET)); seen.add(v4); w = range(1 if v4 else 4)
        v = [final(ctx, s, r, 4 * i, 4) for i in w]
        ctx.ob('ip-mask', fn, final(ctx, s, r, ipf, 2) is initial(x, ipf) and v == [t_bit('and', initial(x, 4 * i), initial(y, 4 * i), 32) for i in w], 'the masked address is of the same family and masked in full', s)
    ctx.ob('ip-cases', fn, True in seen and len(seen) == 2, 'found %s' % seen)
