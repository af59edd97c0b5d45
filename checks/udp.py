"""Datagram sockets: what is asked of the system, and what comes back to the caller."""
from fw import *
import ir, absint
from sync import fld
from tls import only
from conn import errno_is
from pool import isheap

def datagrams(ctx):
    FD, = fld(ctx, 'kselectable_s', 'fd'); DATA, = fld(ctx, 'kselectable_s', 'data'); ADDR, UDP, ST = fld(ctx, 'kconnection_s', 'addr', 'udp', 'st'); BS, = fld(ctx, 'kgl_base_selectable_s', 'selector')
    FLG, = fld(ctx, 'kgl_base_selectable_s', 'st_flags')
    V = ir.macro_values(['STF_UDP', 'STF_RREADY', 'KSOCKET_ONLY_IPV6', 'KSOCKET_IP_PKTINFO', 'AF_INET', 'AF_INET6', 'IPPROTO_IP', 'IPPROTO_IPV6', 'IP_PKTINFO', 'IPV6_PKTINFO', 'IPV6_RECVPKTINFO', 'IP_ADD_MEMBERSHIP', 'ST_ERR_NOMEM', 'EAGAIN', 'EINTR', 'ENOMEM', 'INVALID_SOCKET'], ['"kudp.h"', '"kselectable.h"', '"kconnection.h"', '"ksocket.h"', '<netinet/in.h>', '<errno.h>'])
    def famlen(p, a, ln):
        """the length goes with the address family: IPv4 16, IPv6 28; a longer one only for another family"""
        F = p.final.facts; n = p.const(ln); fam = [t for t in F if t.op in ('sym', 'and') and decode(t) == (a, 0)]
        lo, hi = interval(F, fam[0]) if fam else (-absint.INF, absint.INF)
        if lo == hi == 2: return n == 16
        if lo == hi == 10: return n == 28
        return n is not None and n >= 28
    # ---- creation
    fn = 'kudp_new2'; fl, sel = sym('arg:flags'), sym('arg:st'); OPQ = ('ksocket_new_udp', 'selectable_bind', 'kconnection_destroy', 'kconnection_internal_new'); seen = set()
    for six in (0, 1):
        for info in (0, 1):
            flags = (V['KSOCKET_ONLY_IPV6'] if six else 0) | (V['KSOCKET_IP_PKTINFO'] if info else 0)
            for p in ctx.run(fn, args=[C(flags), sel], opaque=OPQ, pure=OPQ):
                ev = p.flat(); F = p.final.facts; mk_, so, bi, de = (only(ev, n) for n in ('kconnection_internal_new', 'ksocket_new_udp', 'selectable_bind', 'kconnection_destroy'))
                ok = len(mk_) == 1 and len(so) == 1 and p.const(so[0].args[0]) == V['AF_INET6' if six else 'AF_INET'] and p.const(so[0].args[1]) == flags
                if not ctx.ob('new-socket', fn, ok, 'the socket has the family asked for', p): continue
                c, fd = mk_[0].ret, so[0].ret; bad = truth(F, t_eq(fd, C(V['INVALID_SOCKET'])))
                if p.const(p.ret) == 0:
                    seen.add((six, info, 'no')); ctx.ob('new-failed', fn, bad is True and len(de) == 1 and de[0].args[0] is c and not bi, 'without socket there is no connection', p); continue
                seen.add((six, info, 'yes')); so_ = {(p.const(e.args[1]), p.const(e.args[2])): e for e in only(ev, 'setsockopt')}; u = final(ctx, p, c, UDP)
                ok = bad is False and p.ret is c and not de and len(bi) == 1 and bi[0].args[0] is ptradd(c, ST) and bi[0].args[1] is sel and final(ctx, p, c, ST + FD, 4) is fd
                f_ = final(ctx, p, c, ST + FLG, 4)
                ctx.ob('new', fn, ok and f_.op == 'or' and any(isc(a) and cv(a) & V['STF_UDP'] for a in f_.args[:2]), 'the connection owns the socket, is a datagram connection and belongs to the loop', p)
                if info:
                    w = (V['IPPROTO_IPV6'], V['IPV6_RECVPKTINFO']) if six else (V['IPPROTO_IP'], V['IP_PKTINFO']); e = so_.get(w)
                    ctx.ob('new-recvaddr', fn, e is not None and e.args[0] is fd and (p.const(at(ctx, e, e.args[3], 0, 4)) or 0) != 0 and p.const(e.args[4]) == 4, 'the address a datagram was sent to is requested for the family of the socket', p)
                    ctx.ob('new-recvaddr', fn, isheap(u) and any(m.kind == 'memset' and m.args[0] is u and p.const(m.args[1]) == 0 and (p.const(m.args[2]) or 0) >= ctx.p.sizeof('kudp_extend_s') for m in ev), 'there is blank room for that address', p)
                else: ctx.ob('new-recvaddr', fn, not so_ and not [e for e in ev if e.kind == 'st' and e.args[0] is c and e.args[1] == UDP and not isnull(F, e.args[2])], 'nothing is requested otherwise', p)
    ctx.ob('new-cases', fn, seen == {(a, b, r) for a in (0, 1) for b in (0, 1) for r in ('yes', 'no')}, 'found %s' % sorted(seen))
    # ---- sending and binding
    for fn, sysc in (('kudp_bind', 'bind'), ('kudp_send_to', 'sendto')):
        cs = set()
        for p in ctx.run(fn):
            uc = ctx.args[0]; a = ctx.args[1]; F = p.final.facts; e = only(p.flat(), sysc)
            if not ctx.ob('send', fn, len(e) == 1 and isfd_(ctx, e[0].args[0], uc, ST + FD), '%s is called once for the socket' % sysc, p): continue
            e = e[0]; ap, ln = (e.args[1], e.args[2]) if sysc == 'bind' else (e.args[4], e.args[5])
            ctx.ob('send-addr', fn, ap is a and famlen(p, a, ln), 'the address is given with the length of its family, not %s' % show(ln), p)
            if sysc == 'sendto': ctx.ob('send-data', fn, e.args[1] is ctx.args[2] and e.args[2] is ctx.args[3] and p.const(e.args[3]) == 0, 'the whole package is sent', p)
            ok = follows(F, e.ret, p.ret, cs)
            ctx.ob('send-result', fn, ok, 'success is reported exactly when the system accepted it', p)
        ctx.ob('send-cases', fn, cs == {0, 1}, 'found %s' % cs)
    for p in ctx.run('kudp_send'):
        uc, a, ln, d, n = ctx.args; e = only(p.flat(), 'sendto')
        ctx.ob('send', 'kudp_send', len(e) == 1 and isfd_(ctx, e[0].args[0], uc, ST + FD) and e[0].args[1] is d and e[0].args[2] is n and p.const(e[0].args[3]) == 0 and e[0].args[4] is a and e[0].args[5] is ln and p.ret is e[0].ret, 'the package goes to the address given and the result of the system is returned', p)
    fn = 'kudp_add_multicast'; cs = set()
    for p in ctx.run(fn):
        uc, g = ctx.args; e = only(p.flat(), 'setsockopt'); F = p.final.facts; ia = only(p.flat(), 'inet_addr')
        if not ctx.ob('multicast', fn, len(e) == 1 and isfd_(ctx, e[0].args[0], uc, ST + FD) and p.const(e[0].args[1]) == V['IPPROTO_IP'] and p.const(e[0].args[2]) == V['IP_ADD_MEMBERSHIP'] and p.const(e[0].args[4]) == 8, 'the socket joins a group', p): continue
        b = e[0].args[3]; good = follows(F, e[0].ret, p.ret, cs)
        ctx.ob('multicast', fn, len(ia) == 1 and ia[0].args[0] is g and at(ctx, e[0], b, 0, 4) is ia[0].ret and any_if(p, at(ctx, e[0], b, 4, 4)) and good, 'the group is the one given, on any interface, and success is reported exactly when the system accepted it', p)
    ctx.ob('multicast-cases', fn, cs == {0, 1}, 'found %s' % cs)
    # ---- receiving
    for cfg in ('epoll', 'ndebug'):
        ctx.cfg = cfg; fn = 'selectable_recvmsg'; cs = set(); tag = '' if cfg == 'epoll' else '@' + cfg
        NL, = fld(ctx, 'msghdr', 'msg_namelen'); NM, IO, IL, CT, CL = fld(ctx, 'msghdr', 'msg_name', 'msg_iov', 'msg_iovlen', 'msg_control', 'msg_controllen'); BUF = ctx.off('kselectable_s', 'e') + ctx.off('kgl_event', 'buffer')
        for p in ctx.run(fn, record_loads=True):
            st = ctx.args[0]; c = st; F = p.final.facts; ev = p.flat(); e = only(ev, 'recvmsg')
            if not ctx.ob('recv', fn + tag, len(e) == 1 and decode(e[0].args[0]) == (st, FD) and p.ret is e[0].ret, 'one datagram is taken from the socket and its length returned', p): continue
            m = e[0].args[1]; g = lambda o, n=8: at(ctx, e[0], m, o, n); u = g(CT)
            name = ptradd(st, ADDR - ST); buf = initial(st, BUF)
            ctx.ob('recv-peer', fn + tag, g(NM) is name and peerlen(ctx, p, st, ADDR - ST, g(NL, 4)), "the sender's address is kept, whole, with the connection", p)
            i, n = decode(g(IO)), decode(g(IL))
            ctx.ob('recv-buffer', fn + tag, i is not None and n is not None and decode(i[0]) == (st, BUF) and i[1] == 0 and decode(n[0]) == (st, BUF) and n[1] == 8, 'the datagram goes to the buffers of the reader', p)
            has = truth(F, t_eq(initial(st, UDP - ST), ZERO)); rec = initial(st, UDP - ST)
            if has is False:
                cs.add('info'); z = [x for x in ev if x.kind == 'memset' and decode(x.args[0]) == (st, UDP - ST) and p.const(x.args[1]) == 0 and index_of(ev, x) < index_of(ev, e[0])]
                cl = p.const(g(CL)); ctx.ob('recv-info', fn + tag, decode(u) == (st, UDP - ST) and cl is not None and 32 <= cl <= ctx.p.sizeof('kudp_extend_s') and len(z) >= 1 and (p.const(z[-1].args[2]) or 0) >= cl, 'the address it was sent to is kept, without a rest of the one before', p)
            else:
                cs.add('none'); ctx.ob('recv-info', fn + tag, p.const(g(CL)) == 0, 'nothing else is asked for', p)
        ctx.ob('recv-cases', fn + tag, cs == {'info', 'none'}, 'found %s' % cs)
        fn = 'selectable_udp_read_event'; cs = set()
        for p in ctx.run(fn, opaque=('selectable_recvmsg',), pure=('selectable_recvmsg',)):
            st, res, buf, arg = ctx.args; F = p.final.facts; ev = p.flat(); e = only(ev, 'selectable_recvmsg'); ic = [x for x in ev if x.kind == 'icall']
            if not ctx.ob('event', fn + tag, len(e) == 1 and e[0].args[0] is st and len(ic) == 1 and p.ret is ic[0].ret, 'one datagram, one answer', p): continue
            got, a = e[0].ret, ic[0]; neg = truth(F, t_slt(got, ZERO))
            if neg is False:
                cs.add('data'); ctx.ob('event-data', fn + tag, a.x is res and decode(a.args[0]) == (st, DATA) and a.args[1] is arg and a.args[2] is got, 'the reader is told the length of the datagram, an empty one included', p); continue
            if str(a.name).endswith('.read'):
                cs.add('again'); f_ = at(ctx, a, st, FLG, 4)
                again = [errno_is(F, V['EAGAIN']), errno_is(F, V['EINTR'])]
                ctx.ob('event-again', fn + tag, neg is True and True in again and decode(a.args[0]) == (st, BS) and a.args[1] is st and a.args[2] is res and a.args[3] is buf and a.args[4] is arg and f_.op == 'and' and any(isc(x) and not cv(x) & V['STF_RREADY'] and cv(x) & 0xffff == 0xffff & ~V['STF_RREADY'] for x in f_.args[:2]), 'nothing there: the reader waits again, unchanged', p)
            else:
                cs.add('error'); again = [errno_is(F, V['EAGAIN']), errno_is(F, V['EINTR'])]; n = p.const(a.args[2])
                ctx.ob('event-error', fn + tag, neg is True and a.x is res and decode(a.args[0]) == (st, DATA) and a.args[1] is arg and n is not None and n < 0 and (again == [False, False] or any(errno_is(F, x) is True for x in range(1, 134) if x not in (V['EAGAIN'], V['EINTR']))), 'any other error is told to the reader', p)
        ctx.ob('event-cases', fn + tag, cs == {'data', 'again', 'error'}, 'found %s' % cs)
    ctx.cfg = 'epoll'
    # ---- the address a datagram was sent to
    fn = 'kudp_get_recvaddr'; cs = set(); CLEN = 16
    for p in ctx.run(fn):
        uc, a = ctx.args; F = p.final.facts; ev = p.flat(); u = initial(uc, UDP); r = p.const(p.ret); cp = [e for e in ev if e.kind == 'memcpy']; w = [e for e in ev if e.kind == 'st' and e.args[0] is a]
        nou = truth(F, t_eq(u, ZERO)); f4 = fam(F, a)
        if r == 0:
            lvl, ty = (interval(F, t) for t in (initial(u, 8), initial(u, 12)))
            four = f4 == 2
            want = (V['IPPROTO_IP'], V['IP_PKTINFO'], 4, 24, 4) if four else (V['IPPROTO_IPV6'], V['IPV6_PKTINFO'], 8, 16, 16); cs.add('four' if four else 'six')
            src = [pdiff_of(e.args[1], uc, UDP) for e in cp]
            ok = nou is False and f4 is not None and lvl == (want[0],) * 2 and ty == (want[1],) * 2 and len(cp) == 1 and ptr_split(cp[0].args[0]) == ptr_split(ptradd(a, want[2])) and p.const(cp[0].args[2]) == want[4] and src == [want[3]]
            ctx.ob('recvaddr', fn, ok, 'the address comes from the information kept for its family', p)
        else: cs.add('no'); ctx.ob('recvaddr-none', fn, r == -1 and not cp and not w, 'without information nothing is given', p)
    ctx.ob('recvaddr-cases', fn, cs == {'four', 'six', 'no'}, 'found %s' % cs)
    return locals()

def any_if(p, t):
    """the 'any interface' address, in network order"""
    return p.const(t) == 0 or any(is_call(e, 'htonl') and e.ret is t and p.const(e.args[0]) == 0 for e in p.flat())
def follows(F, sys, ret, cs):
    """ret says 'yes' exactly when the system's answer is not negative"""
    ok = True
    for neg in (False, True):
        f = dict(F)
        try: assume(f, t_slt(sys, ZERO), neg)
        except absint.Infeasible: continue
        r = truth(f, ret); cs.add(None if r is None else int(r)); ok = ok and r is (not neg)
    return ok
def isfd_(ctx, t, uc, off): return decode(t) == (uc, off)
def fam(F, a):
    """2: the family of address a is IPv4, 0: it is not, None: not looked at"""
    for t in F:
        b = truth(F, t_eq(initial(a, 0), C(2)))
        return None if b is None else 2 if b else 0
    return None
def peerlen(ctx, p, st, off, ln):
    """enough room for the family the sender's address is expected to have"""
    F = p.final.facts; n = p.const(ln); f = initial(st, off); lo, hi = interval(F, f)
    if n is None: return False
    return n == 16 if lo == hi == 2 else n == 28 if lo == hi == 10 else n >= 28
def pdiff_of(t, uc, UDP):
    d = pdiff(t, initial(uc, UDP)); return cv(d) if d is not None and isc(d) else None
