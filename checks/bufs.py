"""Byte buffers: what is written is what is read, in order, once, and never outside a buffer."""
from fw import *
import ir
from sync import fld
from tls import only, flat2
from pool import poly, is_eq, is_ult, isheap, psub, mul
import absint

def peq(a, b): return a is b or poly(a) == poly(b)
def le(F, a, b):
    """a <= b (signed)"""
    if peq(a, b): return True
    d = sub(b, a)
    return ev_cond(F, t_slt(d, ZERO)) is False or ev_cond(F, t_slt(b, a)) is False
def nonneg(F, a): return ev_cond(F, t_slt(a, ZERO)) is False
def rounds(ctx, events):
    """every iteration of every loop at this level: (loop event, events, back event, {slot: (old, new)}, later iteration?)"""
    for e in events:
        if e.kind != 'loop': continue
        for g in e.inst.seglist:
            f = [x for x in flat2(g)]; bk = [x for x in f if x.kind == 'back']
            if not bk: continue
            v = slotvals(ctx, e, bk[-1])
            yield e, [x for x in f if x.kind != 'back'], bk[-1], v, any(o is e.inst.wsym[k] for k, (o, n) in v.items())
def advanced(v, t):
    """t as the next iteration computes it"""
    return subst(t, {o: n for o, n in v.values()})
def begun(e, t):
    """t as the first iteration computes it"""
    m = {}
    for slot, ups in e.inst.upd.items():
        w = e.inst.wsym[slot]; st = [o for o, n in ups if o is not w]
        if st: m[w] = st[0]
    return subst(t, m)

class Step:
    def __init__(s, args, ret): s.args = args; s.ret = ret; s.kind = 'step'
def then(ev, a, b): return isinstance(a, Step) or index_of(ev, a) < index_of(ev, b)
def buffers(ctx):
    HEAD, WB, RH, WH, TOT, CHUNK = fld(ctx, 'krw_buffer', 'head', 'write_hot_buf', 'read_hot', 'write_hot', 'total_len', 'chunk_size'); RWS = ctx.p.sizeof('krw_buffer')
    BN, BD, BU = fld(ctx, 'kbuf_s', 'next', 'data', 'used'); BS = ctx.p.sizeof('kbuf_s')
    IB, IL = fld(ctx, 'iovec', 'iov_base', 'iov_len'); IS = ctx.p.sizeof('iovec')
    KB, KS, KU = fld(ctx, 'ks_buffer', 'buf', 'buf_size', 'used'); KSS = ctx.p.sizeof('ks_buffer')
    real = lambda ev: [e for e in ev if e.kind == 'st' and not locals_of(e.args[0])]
    def unchanged(ctx, s, b, offs, sz={}): return all(final(ctx, s, b, o, z) is initial(b, o) for o, z in offs)
    F4 = {TOT: 4, CHUNK: 4}
    def fin(s, b, o): return final(ctx, s, b, o, F4.get(o, 8))
    # ---- chunks written
    fn = 'krw_get_write_buffer'; S = ctx.run(fn); rw, ln = ctx.args; seen = set()
    i_ = lambda o: initial(rw, o)
    for s in S:
        F = s.final.facts; ev = s.flat(); L = final(ctx, s, ln, 0, 4); tail = fin(s, rw, WB); m = only(ev, 'malloc'); fresh = isheap(tail)
        ctx.ob('write-none-freed', fn, not only(ev, 'free'), 'no data is freed by writing', s)
        ctx.ob('write-total', fn, fin(s, rw, TOT) is i_(TOT) and fin(s, rw, CHUNK) is i_(CHUNK), 'asking for room counts nothing', s)
        empty = isnull(F, i_(WB)); data = final(ctx, s, tail, BD); used = final(ctx, s, tail, BU, 4)
        if not fresh:
            seen.add('reuse')
            ok = not m and not [e for e in real(ev) if e.args[0] is not ln] and tail is i_(WB) and nonnull(F, tail) and s.ret is i_(WH) and nonnull(F, s.ret) and is_eq(F, L, sub(i_(CHUNK), initial(tail, BU))) 
            ctx.ob('write-room', fn, ok and (lt(F, ZERO, L) or differs(F, L, ZERO)), 'the room offered is the rest of the last chunk', s); continue
        ok = isheap(data) and s.ret is data and fin(s, rw, WH) is data and s.const(used) == 0 and s.const(final(ctx, s, tail, BN)) == 0 and any(e.ret is data and is_eq(F, e.args[0], i_(CHUNK)) for e in m) and is_eq(F, L, i_(CHUNK)) and any(e.ret is tail and s.const(e.args[0]) >= BS for e in m)
        ctx.ob('write-fresh', fn, ok, 'a fresh chunk is empty, the last one, and offered whole', s)
        H = fin(s, rw, HEAD)
        if empty:
            if len(m) > 2: continue          # only a chunk size of 0 asks for a second chunk at once
            seen.add('first'); ok = H is tail and fin(s, rw, RH) is data
            ctx.ob('write-first', fn, ok, 'the first chunk is where reading starts', s)
        else:
            seen.add('next'); ok = H is i_(HEAD) and fin(s, rw, RH) is i_(RH) and final(ctx, s, i_(WB), BN) is tail and not [e for e in real(ev) if e.args[0] is i_(WB) and e.args[1] != BN]
            ctx.ob('write-appended', fn, ok, 'a fresh chunk follows the last one, reading goes on where it was', s)
            ok = isnull(F, i_(WH)) or is_eq(F, i_(CHUNK), initial(i_(WB), BU)) or eqs_of(s.final, i_(CHUNK), initial(i_(WB), BU))
            ctx.ob('write-needed', fn, ok, 'a fresh chunk is taken only when the last one has no room', s)
    ctx.ob('write-cases', fn, seen == {'reuse', 'first', 'next'}, 'found %s' % seen)
    fn = 'krw_write_success'; S = ctx.run(fn); rw, got = ctx.args
    for s in S:
        b = i_(WB); ok = peq(final(ctx, s, b, BU, 4), add(initial(b, BU), got)) and peq(fin(s, rw, TOT), add(i_(TOT), got)) and peq(fin(s, rw, WH), add(i_(WH), got)) and fin(s, rw, WB) is b and fin(s, rw, HEAD) is i_(HEAD) and fin(s, rw, RH) is i_(RH)
        ctx.ob('wrote', fn, ok, 'exactly what was written is counted, in the chunk and in total', s)
    ctx.ob('wrote-some', fn, len(S) > 0, 'reachable')
    def pieces(fn, total, sizes, S_rw):
        """run a copying function with rooms (or pieces) of the given sizes on offer: [(path, bytes copied, calls)]"""
        rooms = [sym('al', 'room%d' % i) for i in range(len(sizes))]; buf = sym('al', 'user'); rw = sym('al', 'buffer')
        def get(E, st, fr, i, args, work):
            k, used = st.user.get('at', (0, 0)); call = i['i']
            if args[0] is not rw: raise AnalysisError('%s asks another buffer for room' % fn)
            if k >= len(rooms): fr.env[call] = ZERO; E.emit(st, 'call', 'none', args, ZERO, i); return None
            b, o = ptr_split(args[1]); st.wmem()[(b, cv(o) if not isinstance(o, int) else o)] = (C(sizes[k] - used), 4, None)
            fr.env[call] = ptradd(rooms[k], used); E.emit(st, 'call', 'offer', args, fr.env[call], i, x=sizes[k] - used); return None
        def put(E, st, fr, i, args, work):
            k, used = st.user.get('at', (0, 0)); n = args[1]; E.emit(st, 'call', 'count', args, None, i)
            if args[0] is not rw: raise AnalysisError('%s counts for another buffer' % fn)
            if isc(n):
                used += cv(n)
                if k < len(sizes) and used >= sizes[k]: k, used = k + 1, 0
            st.user = dict(st.user, at=(k, used))
            if i.get('i') is not None: fr.env[i['i']] = C(int(k < len(sizes)))
            return None
        S = ctx.e.run(fn, Cfg(cut=sum(sizes) + total + 3, models={GW: get, GR: get, WS: put, RS: put}), setup=lambda E, st: [assume(st.facts, t_eq(x, ZERO), False) for x in rooms + [buf, rw]], args=[rw, buf, C(total)]); ctx.npaths += len(S)
        return buf, rooms, [s for s in S if s.kind != 'cut'], len(S)
    def copied(fn, src_is_arg):
        """every byte is copied once, in order, between the user's memory and what was offered, and counted"""
        for total in range(5):
            for sizes in ((), (1,), (3,), (6,), (2, 3), (1, 1, 1), (1, 3), (3, 1, 2)):
                if src_is_arg and sum(sizes) < total: continue          # rooms never run out
                buf, rooms, S, every = pieces(fn, total, sizes, None); inst = '%s:%d bytes,pieces of %s' % (fn, total, ','.join(map(str, sizes)) or 'nothing')
                ctx.ob('copy-ends', inst, len(S) == every and len(S) > 0, 'copying comes to an end')
                avail = [(r, j) for r, z in zip(rooms, sizes) for j in range(z)]; want = min(total, len(avail))
                for s in S:
                    moves = []; counted = []; bad = False
                    for e in s.events:
                        if e.kind == 'memcpy':
                            d, sr, n = e.args[0], e.args[1], s.const(e.args[2])
                            if n is None or n < 0: bad = True; break
                            (db, do), (sb, so) = ptr_split(d), ptr_split(sr)
                            do, so = [x if isinstance(x, int) else cv(x) if isc(x) else None for x in (do, so)]
                            if do is None or so is None: bad = True; break
                            for j in range(n): moves.append(((sb, so + j), (db, do + j)))
                        elif is_call(e, 'count'): counted.append(s.const(e.args[1]))
                    exp = [((buf, i), avail[i]) if src_is_arg else (avail[i], (buf, i)) for i in range(want)]
                    ctx.ob('copy-order', inst, not bad and moves == exp, 'each byte is copied once, in order, to or from what was offered', s)
                    ctx.ob('copy-counted', inst, None not in counted and sum(counted) == want and all(c >= 0 for c in counted), 'what is counted is what was copied', s)
                    if not src_is_arg: ctx.ob('read-sum', inst, s.const(s.ret) == want, 'the number returned is the number of bytes copied', s)
    def poly_syms(F):
        for t in F:
            if t.op == 'lin':
                for x, c in lin_parts(t)[1].items(): yield x
    GW, WS, GR, RS = 'krw_get_write_buffer', 'krw_write_success', 'krw_get_read_buffer', 'krw_read_success'
    copied('krw_write_str', True)
    for fn, w in (('krw_write_int', 'krw_write_str'), ('krw_write_int64', 'krw_write_str'), ('ks_write_int', 'ks_write_str'), ('ks_write_int64', 'ks_write_str')):
        wide = '64' in fn
        for s in ctx.run(fn, opaque=(w,)):
            ev = s.flat(); pr = only(ev, 'snprintf'); wr = only(ev, w); rw, val = ctx.args
            ok = len(pr) == len(wr) == 1 and pr[0].args[3] is val and wr[0].args[0] is rw and wr[0].args[1] is pr[0].args[0] and wr[0].args[2] is pr[0].ret
            z = s.const(pr[0].args[1]) if pr else None
            ok = ok and z is not None and (21 if wide else 12) <= z <= absint.ALLOCSZ.get(pr[0].args[0], 0) and text(ctx, pr[0].args[2]) in (('%ld', '%li') if wide else ('%d', '%i'))
            ctx.ob('number', fn, ok, 'a number is written whole, as decimal text', s)
    # ---- chunks given by the user
    for fn in ('krw_append', 'krw_insert'):
        S = ctx.run(fn); rw, b = ctx.args; seen = set(); H, W = initial(rw, HEAD), initial(rw, WB)
        for s in S:
            F = s.final.facts; ev = s.flat(); empty = isnull(F, H) or isnull(F, W); app = fn == 'krw_append'
            ok = peq(fin(s, rw, TOT), add(initial(rw, TOT), initial(b, BU))) and fin(s, rw, CHUNK) is initial(rw, CHUNK) and final(ctx, s, b, BD) is initial(b, BD) and final(ctx, s, b, BU, 4) is initial(b, BU) and not only(ev, 'free')
            ctx.ob('given-total', fn, ok, 'all of a given chunk is counted', s)
            if app or empty:
                ok = fin(s, rw, WB) is b and s.const(final(ctx, s, b, BN)) == 0 and s.const(fin(s, rw, WH)) == 0
                ctx.ob('given-last', fn, ok, 'a given chunk becomes the last and is never written into', s)
                ok = fin(s, rw, HEAD) is b and fin(s, rw, RH) is initial(b, BD) if empty else final(ctx, s, W, BN) is b and fin(s, rw, HEAD) is H and fin(s, rw, RH) is initial(rw, RH)
                ctx.ob('given-joined', fn, ok, 'it is read after everything before it', s); seen.add('empty' if empty else 'behind'); continue
            seen.add('before')
            ok = fin(s, rw, HEAD) is b and fin(s, rw, RH) is initial(b, BD) and eqv(s.final, final(ctx, s, b, BN), H) and eqv(s.final, fin(s, rw, WB), W)
            ctx.ob('given-first', fn, ok, 'an inserted chunk is read first, then what was first before', s)
            # the old head starts over at its data: what of it had been read must be gone
            r = sub(initial(rw, RH), initial(H, BD)); cp = [e for e in ev if e.kind == 'memcpy']; u1 = final(ctx, s, rep_of(s.final, H), BU, 4)
            if (le(F, r, ZERO) or is_eq(F, r, ZERO) or eqs_of(s.final, initial(rw, RH), initial(H, BD))) and not cp: ok = is_eq(F, u1, initial(H, BU)) and is_eq(F, fin(s, rw, WH), initial(rw, WH)); seen.add('unread')
            else:
                ok = len(cp) == 1 and eqs_of(s.final, cp[0].args[0], initial(H, BD)) and eqv(s.final, cp[0].args[1], initial(rw, RH)) and eqs_of(s.final, cp[0].args[2], sub(initial(H, BU), r)) and eqs_of(s.final, u1, sub(initial(H, BU), r)); seen.add('read')
                w0, w1 = initial(rw, WH), fin(s, rw, WH); moved = eqs_of(s.final, w1, sub(w0, r))
                ok = ok and (moved if (H is W or eqv(s.final, H, W)) and nonnull(F, w0) else w1 is w0 or (isnull(F, w0) and s.const(w1) == 0))
            ctx.ob('given-unread', fn, ok, 'what had been read of the old first chunk is not read again, what had not is kept', s)
        ctx.ob('given-cases', fn, seen == ({'empty', 'behind'} if fn == 'krw_append' else {'empty', 'before', 'unread', 'read'}), 'found %s' % seen)
    # ---- reading
    fn = 'krw_get_read_buffers'; S = ctx.run(fn, backedge=True, snap_st=True); rw, iov, cnt = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; ev = s.flat(); W = [e for e in ev if e.kind == 'st' and e.x and e.x[0] == 'iovec']
        if s.const(s.ret) == 0 and not W: ctx.ob('read-none', fn, isnull(F, initial(rw, RH)) and not real(ev), 'nothing to read is reported only for an empty buffer', s); seen.add('none'); continue
        H = fin(s, rw, HEAD); hot = fin(s, rw, RH)
        for e, g, b, v, later in rounds(ctx, s.events):
            fr = only(g, 'free')
            if fr:
                h0, h1 = slotv(v, (rw, HEAD)); r0, r1 = slotv(v, (rw, RH)); G = b.snap.facts; seen.add('skip')
                ok = h0 is not None and r0 is not None and {x.args[0] for x in fr} == {h0, initial(h0, BD)} and len(fr) == 2 and h1 is initial(h0, BN) and r1 is initial(h1, BD) and nonnull(G, h1)
                ok = ok and (is_eq(G, r0, add(initial(h0, BD), initial(h0, BU))) or eqs_of(b.snap, r0, add(initial(h0, BD), initial(h0, BU))))
                ctx.ob('read-skip', fn, ok, 'only a chunk read to its end, with one behind it, is dropped', s); continue
            w = [x for x in g if x.kind == 'st' and x.x and x.x[0] == 'iovec']
            if not w: continue
            seen.add('more'); bs = [x for x in w if x.x[1] == IB]; ls = [x for x in w if x.x[1] == IL]
            X = decode(bs[0].args[2]) if len(bs) == 1 else None
            ok = len(bs) == len(ls) == 1 and X is not None and X[1] == BD and decode(ls[0].args[2]) == (X[0], BU) and nonnull(b.snap.facts, X[0])
            if not ctx.ob('read-entry', fn, ok, 'each further entry is one whole chunk', s): continue
            adr = [ptradd(q.args[0], q.args[1] - q.x[1]) for q in (bs[0], ls[0])]; idx = sub(addr_int(adr[0]), addr_int(iov))
            ok = peq(addr_int(adr[0]), addr_int(adr[1])) and (not later or peq(sub(addr_int(advanced(v, adr[0])), addr_int(adr[0])), C(IS))) and peq(begun(e, idx), C(IS))
            ok = ok and any(lt(b.snap.facts, o, cnt) and peq(mulc(o, IS), idx) for o in [x for x, _ in v.values()] + [ONE])
            ctx.ob('read-index', fn, ok, 'entries are filled one after the other within the array given', s)
            nx = subst(X[0], {o: n for o, n in v.values()})
            ok = nx is sym('m', X[0], BN, None) or decode(nx) == (X[0], BN) or same_next(v, X[0], nx, BN)
            ok = ok and (begun(e, X[0]) is initial(H, BN) or decode(begun(e, X[0])) == (H, BN))
            ctx.ob('read-order', fn, ok, 'chunks appear in their order, none left out', s)
        top = [x for x in s.events if x.kind == 'st' and x.x and x.x[0] == 'iovec' and x.args[0] is iov]
        ok = any(x.args[1] == IB and x.args[2] is hot for x in top) and any(x.args[1] == IL and peq(x.args[2], sub(initial(H, BU), sub(hot, initial(H, BD)))) for x in top) and len(top) == 2
        ctx.ob('read-first', fn, ok, 'reading goes on where it stopped, to the end of that chunk', s)
        ok = s.const(s.ret) == 1 or any(s.ret is w for e in s.events if e.kind == 'loop' for w in e.inst.wsym.values())
        ok = ok and (le(F, cnt, s.ret) or any(isnull(F, t) and decode(t) is not None and decode(t)[1] == BN for t in F) or any(isnull(F, w) for e in s.events if e.kind == 'loop' for w in e.inst.wsym.values()))
        ctx.ob('read-count', fn, ok, 'every chunk is offered as long as there are entries', s)
    ctx.ob('read-cases', fn, {'none', 'more'} <= seen, 'found %s' % seen)
    for fn, g in (('krw_get_read_buffer', 'krw_get_read_buffers'), ('ks_get_read_buffer', 'ks_get_read_buffers')):
        S = ctx.run(fn, opaque=(g,)); rw, ln = ctx.args; seen = set()
        for s in S:
            F = s.final.facts; c = only(s.flat(), g)
            ok = len(c) == 1 and c[0].args[0] is rw and s.const(c[0].args[2]) == 1
            if ok and isnull(F, c[0].ret): ok = s.const(s.ret) == 0; seen.add(0)
            elif ok: ok = decode(s.ret) == (c[0].args[1], IB) and decode(final(ctx, s, ln, 0, 4)) == (c[0].args[1], IL); seen.add(1)
            ctx.ob('read-one', fn, ok, 'the first piece to be read and its length', s)
        ctx.ob('read-one-cases', fn, seen == {0, 1}, 'found %s' % seen)
    fn = RS; S = ctx.run(fn, backedge=True, snap_st=True); rw, got = ctx.args; seen = set()
    def consumed(s, ev, snap, h0, r0, t0, g0, h1, r1, t1, g1, last):
        F = snap.facts; fr = [x.args[0] for x in only(ev, 'free')]; left = sub(initial(h0, BU), sub(r0, initial(h0, BD))); n = sub(t0, t1)
        E = lambda a, b: is_eq(F, a, b) or eqs_of(snap, a, b)
        if last:      # the buffer starts over: everything that was left of the chunk was read
            ctx.ob('consume-dropped', fn, sorted(x.id for x in fr) == sorted((h0.id, initial(h0, BD).id)) and isnull(F, initial(h0, BN)), 'the last chunk is dropped once, with its data', s); return
        ctx.ob('consume-count', fn, peq(sub(g0, g1), n) and le(F, n, g0) and (le(F, n, left) or E(n, left)), 'what is counted as read is what was passed over, within the chunk', s)
        if fr:
            seen.add('drop')
            ok = sorted(x.id for x in fr) == sorted((h0.id, initial(h0, BD).id)) and E(n, left) and h1 is initial(h0, BN) and r1 is initial(h1, BD) and nonnull(F, h1)
            ctx.ob('consume-drop', fn, ok, 'a chunk is dropped once, when read to its end; reading goes on with the next', s)
        else:
            seen.add('part'); ok = h1 is h0 and E(r1, add(r0, n))
            ctx.ob('consume-part', fn, ok, 'reading goes on behind what was read', s)
    for s in S:
        F = s.final.facts; ev = [e for e in s.events if e.kind != 'loop']
        st = {HEAD: initial(rw, HEAD), RH: initial(rw, RH), TOT: initial(rw, TOT)}
        for e, g, b, v, later in rounds(ctx, s.events):
            q = {o: slotv(v, (rw, o)) for o in (HEAD, RH, TOT)}; k = [(o, n) for key, (o, n) in v.items() if key[0] == 'e' and peq(begun(e, o), got)]
            for o in q:
                if q[o][0] is None: q[o] = (st[o], at(ctx, b, rw, o, F4.get(o, 8)))
            if not ctx.ob('consume-step', fn, bool(k), 'the loop is understood', s): continue
            consumed(s, g, b.snap, q[HEAD][0], q[RH][0], q[TOT][0], k[0][0], q[HEAD][1], q[RH][1], q[TOT][1], k[0][1], False)
        lp = [e for e in s.events if e.kind == 'loop']
        if s.const(s.ret) == 0:
            seen.add('end'); ok = all(s.const(fin(s, rw, o)) == 0 for o in (HEAD, WB, RH, WH, TOT)) and fin(s, rw, CHUNK) is initial(rw, CHUNK)
            ctx.ob('consume-end', fn, ok, 'a buffer read to its end is empty and usable', s)
            h0 = initial(rw, HEAD)
            if lp:
                w = lp[0].inst.wsym.get(('m', (rw, HEAD)))
                if w is not None and any(x.args[0] is w for x in only(ev, 'free')): h0 = w
            consumed(s, ev, s.final, h0, st[RH], st[TOT], got, None, None, st[TOT], got, True)
        else:
            ok = s.const(s.ret) == 1 and (not only(ev, 'free')) and (any(peq(begun(lp[0], t), got) and le(F, t, ZERO) for t in lp[0].inst.wsym.values()) if lp else le(F, got, ZERO))
            ctx.ob('consume-all', fn, ok, 'reading ends only when all of it is counted', s)
    ctx.ob('consume-cases', fn, seen == {'drop', 'part', 'end'}, 'found %s' % seen)
    copied('krw_read', False)
    # ---- freeing
    for fn in ('krw_buffer_clean', 'krw_buffer_destroy', 'destroy_kbuf'):
        S = ctx.run(fn, backedge=True, snap_st=True); rw, = ctx.args; n = 0; one = fn == 'destroy_kbuf'
        for s in S:
            F = s.final.facts; top = [e.args[0] for e in s.events if is_call(e, 'free')]
            ctx.ob('free-uaf', fn, not [e for e in s.flat() if e.kind == 'uaf'], 'nothing is read from freed memory', s)
            ctx.ob('free-self', fn, top == ([rw] if fn == 'krw_buffer_destroy' else []), 'the buffer itself goes once, last, exactly when destroyed', s)
            start = rw if one else initial(rw, HEAD); lp = [e for e in s.events if e.kind == 'loop']
            if not lp: ctx.ob('free-all', fn, isnull(F, start), 'every chunk is freed', s); continue
            for e, g, b, v, later in rounds(ctx, s.events):
                n += 1; G = b.snap.facts
                h = [(o, w) for k, (o, w) in v.items() if (begun(e, o) is start or o is start) and decode(w) == (o, BN)]
                fr = [x.args[0] for x in only(g, 'free')]
                ok = len(h) >= 1 and len(fr) == 2 and set(fr) == {initial(h[0][0], BD), h[0][0]} or one and len(h) >= 1 and fr == [h[0][0]] and isnull(G, initial(h[0][0], BD))
                ctx.ob('free-each', fn, ok, 'each chunk is freed once, and so is its data', s)
            ctx.ob('free-all', fn, any(begun(lp[0], w) is start and isnull(F, w) for w in lp[0].inst.wsym.values()), 'every chunk is freed', s)
        ctx.ob('free-some', fn, n > 0, 'the loop is found')
    fn = 'krw_buffer_init'; S = ctx.run(fn); rw, cs = ctx.args
    for s in S: ctx.ob('init', fn, all(s.const(fin(s, rw, o)) == 0 for o in (HEAD, WB, RH, WH, TOT)) and fin(s, rw, CHUNK) is cs, 'a new buffer is empty with the chunk size given', s)
    fn = 'krw_buffer_new'; S = ctx.run(fn); cs = ctx.args[0]
    for s in S:
        if isnull(s.final.facts, s.ret): continue
        ctx.ob('init', fn, isheap(s.ret) and any(e.ret is s.ret and s.const(e.args[0]) == RWS for e in only(s.flat(), 'malloc')) and all(s.const(fin(s, s.ret, o)) == 0 for o in (HEAD, WB, RH, WH, TOT)) and fin(s, s.ret, CHUNK) is cs, 'a new buffer is empty with the chunk size given', s)
    # ---- flat buffers
    for fn in ('ks_buffer_init', 'ks_buffer_new'):
        S = ctx.run(fn); size = ctx.args[-1]
        for s in S:
            b = ctx.args[0] if fn == 'ks_buffer_init' else s.ret; m = only(s.flat(), 'malloc'); D = final(ctx, s, b, KB)
            if fn == 'ks_buffer_new' and isnull(s.final.facts, b): continue
            ok = any(e.ret is D and e.args[0] in (size, t_sext(size, 64)) for e in m) and final(ctx, s, b, KS, 4) is size and s.const(final(ctx, s, b, KU, 4)) == 0 and (fn == 'ks_buffer_init' or any(e.ret is b and s.const(e.args[0]) == KSS for e in m)) and not only(s.flat(), 'free')
            ctx.ob('ks-new', fn, ok, 'a new flat buffer is empty and has the room asked for', s)
    for fn in ('ks_buffer_clean', 'ks_buffer_destroy'):
        S = ctx.run(fn); b = ctx.args[0]
        for s in S: ctx.ob('ks-freed', fn, [e.args[0] for e in only(s.flat(), 'free')] == [initial(b, KB)] + [b] * (fn == 'ks_buffer_destroy') and not [e for e in s.flat() if e.kind == 'uaf'], 'the memory, then the record, is given back once', s)
    fn = 'ks_write_success'; S = ctx.run(fn); b, got = ctx.args
    for s in S: ctx.ob('ks-counted', fn, peq(final(ctx, s, b, KU, 4), add(initial(b, KU), got)) and final(ctx, s, b, KS, 4) is initial(b, KS), 'what was written is counted', s)
    fn = 'ks_buffer_switch_read'; S = ctx.run(fn); b = ctx.args[0]
    for s in S: ctx.ob('ks-switch', fn, final(ctx, s, b, KS, 4) is initial(b, KU) and s.const(final(ctx, s, b, KU, 4)) == 0 and final(ctx, s, b, KB) is initial(b, KB), 'what was written is what there is to read, from its beginning', s)
    fn = 'ks_get_write_buffers'; OW = ('ks_get_write_buffer',); S = ctx.run(fn, opaque=OW); b, iov, cnt = ctx.args
    for s in S:
        g = only(s.flat(), OW[0]); L = final(ctx, s, iov, IL)
        ctx.ob('ks-room', fn, s.const(s.ret) == 1 and len(g) == 1 and g[0].args[0] is b and final(ctx, s, iov, IB) is g[0].ret and decode(L) == (g[0].args[1], 0), 'the room offered is the one of the buffer', s)
    def piece(fn, S, ln, alloc, al=None):
        ok_ = 0
        for s in S:
            m = [e for n in alloc for e in only(s.flat(), n)]
            if isnull(s.final.facts, s.ret): continue
            if not nonnull(s.final.facts, s.ret) and not m: continue
            D = final(ctx, s, s.ret, BD); w = lambda t: t in (ln, t_sext(ln, 64)); sz = 0 if alloc == ('malloc',) else 1
            ok_ += 1; ok = final(ctx, s, s.ret, BU, 4) is ln and len(m) == 2 and any(e.ret is D and w(e.args[sz]) for e in m) and any(e.ret is s.ret and (s.const(e.args[sz]) or 0) >= BS for e in m) and D is not s.ret
            ctx.ob('piece-new', fn, ok, 'a new piece has room for its length and is counted full', s)
        ctx.ob('piece-new', fn, ok_ > 0, 'reachable')
    S = ctx.run('new_kbuf'); piece('new_kbuf', S, ctx.args[0], ('malloc',))
    for fn, al in (('new_pool_kbuf', ('kgl_pnalloc',)), ('new_pool_kbuf_align', ('kgl_pnalloc', 'kgl_pmemalign'))):
        S = ctx.run(fn, opaque=al, pure=al); piece(fn, S, ctx.args[1], al)
        for s in S: ctx.ob('piece-new', fn, all(e.args[0] is ctx.args[0] for n in al for e in only(s.flat(), n)), 'a piece comes from the pool given', s)
    def grown(fn, s, b, rule):
        """the buffer moved: -> new data or None"""
        F = s.final.facts; ev = s.flat(); m = only(ev, 'malloc'); fr = only(ev, 'free'); D = final(ctx, s, b, KB); Z = final(ctx, s, b, KS, 4)
        mv = [e for e in ev if e.kind == 'memcpy' and e.args[0] in [x.ret for x in m]]
        re = only(ev, 'realloc')
        if re and not m and not fr:       # one call that does it all
            m = [Step(e.args[1:], e.ret) for e in re]
            if not isnull(F, re[0].ret): fr = [Step((e.args[0],), None) for e in re]; mv = [Step((e.ret, e.args[0], initial(b, KU)), None) for e in re]
        return D, Z, m, fr, mv
    fn = 'ks_write_str'; S = ctx.run(fn, snap_st=True); b, str_, n = ctx.args; seen = set(); D0, Z0, U0 = initial(b, KB), initial(b, KS), initial(b, KU)
    for s in S:
        F = s.final.facts; D, Z, m, fr, mv = grown(fn, s, b, 'ks'); cp = [e for e in s.flat() if e.kind == 'memcpy' and e not in mv or e.kind == 'memcpy' and e.args[1] is str_]
        mv = [e for e in mv if e not in cp]
        if s.const(s.ret) == 0: ctx.ob('ks-failed', fn, len(m) == 1 and isnull(F, m[0].ret) and not real(s.flat()) and not cp and not fr, 'without memory the buffer is unchanged', s); seen.add('failed'); continue
        ok = s.const(s.ret) == 1 and len(cp) == 1 and peq(addr_int(cp[0].args[0]), add(addr_int(D), U0)) and cp[0].args[1] is str_ and cp[0].args[2] is n and peq(final(ctx, s, b, KU, 4), add(U0, n))
        ctx.ob('ks-written', fn, ok, 'bytes are put behind those already there and counted', s)
        if m:
            seen.add('grown'); ok = len(m) == 1 and D is m[0].ret and nonnull(F, D) and is_eq(F, Z, m[0].args[0]) and len(mv) == 1 and mv[0].args[1] is D0 and (mv[0].args[2] is U0 or mv[0].args[2] is Z0) and [x.args[0] for x in fr] == [D0] and then(s.flat(), mv[0], fr[0])
            ok = ok and atleast(F, Z, add(U0, n))
            ctx.ob('ks-grown', fn, ok, 'a buffer that grows keeps its bytes, is large enough and gives the old memory back once', s)
        else: seen.add('fits'); ctx.ob('ks-fits', fn, D is D0 and Z is Z0 and not fr and le(F, add(U0, n), Z0), 'bytes are written only where they fit', s)
    ctx.ob('ks-cases', fn, seen == {'failed', 'grown', 'fits'}, 'found %s' % seen)
    fn = 'ks_get_write_buffer'; S = ctx.run(fn, backedge=True, snap_st=True); b, ln = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; D, Z, m, fr, mv = grown(fn, s, b, 'ks'); L = final(ctx, s, ln, 0, 4)
        ok = peq(addr_int(s.ret), add(addr_int(D), U0)) and is_eq(F, L, sub(Z, U0)) and lt(F, ZERO, L) and final(ctx, s, b, KU, 4) is U0
        ctx.ob('ks-room', fn, ok, 'the room offered lies behind the bytes there and is not empty', s); seen.add('loop' if m else 'fits')
        R = [(g, b_, v) for e, g, b_, v, later in rounds(ctx, s.events)]
        one = []
        if m and not R: one = [(s.flat(), s.final, D0, D, Z)]
        for g, b_, v in R:
            d = slotv(v, (b, KB)); z = slotv(v, (b, KS)); one.append((g, b_.snap, d[0] if d[0] is not None else D0, d[1], z[1]))
        for g, snap, d0, d1, z1 in one:
            mm = only(g, 'malloc'); mv = [x for x in g if x.kind == 'memcpy']; fr = only(g, 'free')
            ok = len(mm) == 1 and d1 is mm[0].ret and z1 is not None and is_eq(snap.facts, mm[0].args[0], z1) and len(mv) == 1 and mv[0].args[0] is d1 and mv[0].args[1] is d0 and mv[0].args[2] is U0 and [x.args[0] for x in fr] == [d0] and index_of(g, mv[0]) < index_of(g, fr[0])
            ctx.ob('ks-regrown', fn, ok, 'a buffer that grows keeps its bytes and gives the old memory back once', s)
    ctx.ob('ks-room-cases', fn, seen == {'loop', 'fits'}, 'found %s' % seen)
    fn = 'ks_save_point'; S = ctx.run(fn, snap_st=True); b, hot = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; D, Z, m, fr, mv = grown(fn, s, b, 'ks'); U = final(ctx, s, b, KU, 4); cp = [e for e in s.flat() if e.kind == 'memcpy']; E = lambda a, c: is_eq(F, a, c) or eqs_of(s.final, a, c)
        done = sub(hot, D0)
        if m:
            ok = len(m) == 1 and D is m[0].ret and is_eq(F, Z, m[0].args[0]) and len(mv) == 1 and E(mv[0].args[1], D0) and (E(mv[0].args[2], U0)) and len(fr) == 1 and E(fr[0].args[0], D0) and then(s.flat(), mv[0], fr[0]) and E(U, U0) and E(hot, D0) and atleast(F, Z, Z0)
            ctx.ob('ks-save-grow', fn, ok, 'a full buffer nothing was taken from grows and keeps its bytes', s); seen.add('grow'); continue
        ok = eqv(s.final, D, D0) and Z is Z0 and not fr
        if E(hot, D0) and not cp: ok = ok and E(U, U0); seen.add('same')
        else:
            left = sub(U0, done); ok = ok and is_eq(F, U, left)
            if cp: ok = ok and len(cp) == 1 and cp[0].args[0] is D0 and cp[0].args[1] is hot and is_eq(F, cp[0].args[2], left); seen.add('moved')
            else: ok = ok and is_eq(F, left, ZERO); seen.add('none')
        ctx.ob('ks-save', fn, ok, 'the bytes not taken yet move to the front, and only they stay', s)
    ctx.ob('ks-save-cases', fn, seen >= {'grow', 'same', 'moved'}, 'found %s' % seen)
    fn = 'ks_get_read_buffers'
    for s in ctx.run(fn):
        b, iov, cnt = ctx.args; ok = s.const(s.ret) == 1 and peq(addr_int(final(ctx, s, iov, IB)), add(D0_(b, KB), initial(b, KU))) and peq(final(ctx, s, iov, IL), sub(initial(b, KS), initial(b, KU)))
        ctx.ob('ks-read', fn, ok, 'reading goes on where it stopped, to the end', s)
    fn = 'ks_read_success'
    for s in ctx.run(fn):
        b, got = ctx.args; F = s.final.facts; u = add(initial(b, KU), got)
        ok = peq(final(ctx, s, b, KU, 4), u)
        for val, G in both(F, s.ret):
            ok = ok and (lt(G, u, initial(b, KS)) or lt(G, ZERO, sub(initial(b, KS), u))) is (True if val else False)
        ctx.ob('ks-consumed', fn, ok, 'what was read is counted; true exactly while bytes are left', s)
    # ---- skipping what was already sent
    fn = 'kgl_iovec_seek'; S = ctx.run(fn, backedge=True, snap_st=True); v0, bc, off = ctx.args; seek(ctx, fn, S, v0, off, IB, IL, lambda x: ptradd(x, IS), None, bc)
    fn = 'kbuf_seek'; S = ctx.run(fn, backedge=True, snap_st=True); v0, off, hb = ctx.args; seek(ctx, fn, S, v0, off, BD, BU, lambda x: initial(x, BN), hb, None, BN)
def D0_(b, KB): return addr_int(initial(b, KB))
def seek(ctx, fn, S, v0, off, DATA, LEN, nxt, hb, bc, BN=None):
    seen = set()
    for s in S:
        F = s.final.facts; lp = [e for e in s.events if e.kind == 'loop']; cur, rest = v0, off; cnt = initial(bc, 0) if bc is not None else None
        for e, g, b, v, later in rounds(ctx, s.events):
            seen.add('step'); G = b.snap.facts
            c = [(o, n) for k, (o, n) in v.items() if begun(e, o) is v0 or o is v0]; r = [(o, n) for k, (o, n) in v.items() if begun(e, o) is off or o is off]
            ok = len(c) == 1 and len(r) == 1 and c[0][1] is nxt(c[0][0]) and peq(r[0][1], sub(r[0][0], initial(c[0][0], LEN))) and not [x for x in g if x.kind == 'st' and not locals_of(x.args[0]) and x.args[0] is not bc]
            ok = ok and le(G, initial(c[0][0], LEN), r[0][0]) and lt(G, ZERO, r[0][0])
            if bc is not None:
                q = slotv(v, (bc, 0)); ok = ok and q[0] is not None and peq(q[1], sub(q[0], ONE))
            ctx.ob('seek-step', fn, ok, 'a piece is skipped only if all of it was passed over', s)
        if lp:
            cur = next((w for w in lp[0].inst.wsym.values() if begun(lp[0], w) is v0), None); rest = next((w for w in lp[0].inst.wsym.values() if begun(lp[0], w) is off), None)
            if bc is not None: cnt = lp[0].inst.wsym.get(('m', (bc, 0)))
        if not ctx.ob('seek-loop', fn, cur is not None and rest is not None, 'the loop is understood', s): continue
        if bc is not None: ctx.ob('seek-count', fn, final(ctx, s, bc, 0, 4) is cnt, 'the number of pieces left is exact', s)
        out = hb if hb is not None else cur; st = [e for e in s.events if e.kind == 'st' and not locals_of(e.args[0]) and e.args[0] is not bc]
        if st:
            seen.add('cut'); ok = s.ret is out and lt(F, rest, initial(cur, LEN)) and lt(F, ZERO, rest) and peq(addr_int(final(ctx, s, out, DATA)), add(addr_int(initial(cur, DATA)), rest)) and peq(final(ctx, s, out, LEN, 8 if hb is None else 4), sub(initial(cur, LEN), rest))
            if hb is not None: ok = ok and final(ctx, s, out, BN) is initial(cur, BN) and all(e.args[0] is hb for e in st)
            ctx.ob('seek-cut', fn, ok, 'a piece passed over in part starts behind that part and ends where it did', s)
        else:
            seen.add('whole'); ctx.ob('seek-whole', fn, s.ret is cur and le(F, rest, ZERO), 'otherwise the rest starts with a whole piece', s)
    ctx.ob('seek-cases', fn, seen == {'step', 'cut', 'whole'}, 'found %s' % seen)
def rep_of(snap, t):
    for _ in range(8):
        n = snap.eqs.get(t, t)
        if n is t: return t
        t = n
    return t
def slotv(v, key):
    r = v.get(('m', key)); return r if r is not None else (None, None)
def same_next(v, x, nx, off):
    d = decode(nx); return d is not None and d == (x, off)
def eqs_of(snap, a, b):
    from pool import subst_eqs
    return is_eq(snap.facts, subst_eqs(snap, a), subst_eqs(snap, b))
def addr_int(p):
    r, k = ptrlin(p)
    return add(r, k) if not (isc(k) and cv(k) == 0) else r
def atleast(F, z, n):
    """z >= n: n rounded up, a multiple of it, or known"""
    if le(F, n, z): return True
    if z.op == 'and' and isc(z.args[1]) and cv(z.args[1]) < 0:
        m = -cv(z.args[1]); return m & (m - 1) == 0 and le(F, add(n, C(m - 1)), z.args[0])
    d = sub(z, n); return peq(d, n) 
def text(ctx, t):
    """contents of a string literal"""
    for k, g in ctx.p.globals.items():
        if t.op == 'sym' and t.args[0] == 'g' and t.args[1] == k or show(t).lstrip('@') == k:
            i = g.get('init')
            if i and isinstance(i[0][1], dict): return i[0][1].get('s', '').rstrip('\0')
    return None
