"""Asynchronous files of fibers; sleep and thread calls."""
from fw import *
from sync import fld, calls, is_next
from tls import only
from fiber import CUR, TLS, is_tls, is_cur, one
from sockio import L, module, segs_of, uniq
from fiberio import WAITS, WAKE, CFGS, waits, suspended, result, wakes, onesided, nextval

IO_SUBMIT, IO_GETEVENTS = 209, 208       # x86-64 system call numbers
def sysno(ctx):
    m = ir.macro_values(['SYS_io_submit', 'SYS_io_getevents', 'IOCB_CMD_PREAD', 'IOCB_CMD_PWRITE', 'IOCB_FLAG_RESFD'], ['<sys/syscall.h>', '<linux/aio_abi.h>'])
    e = dict(IOCB_CMD_PREAD=0, IOCB_CMD_PWRITE=1)
    for k, v in e.items():
        if k not in m or m[k] is None: m[k] = v
    return m
class F_:
    def __init__(self, ctx):
        st = ctx.off('kasync_file_s', 'st'); l = L(ctx)
        self.st = st; self.l = l
        self.sel = st + l.sel; self.fd = st + l.fd; self.data = st + l.data
        self.rarg = st + ctx.off('kselectable_s', 'e'); self.rres = self.rarg + ctx.off('kgl_event', 'result')
        self.offset = self.doff = None
def foffs(ctx, cfgless=True):
    """offsets of the file position and of the direct-I/O fields, from the accessors"""
    S = ctx.run('kfiber_file_tell', exact=True); f = ctx.args[0]
    d = decode(S[0].ret)
    if d is None or d[0] is not f: raise AnalysisError('kfiber_file_tell does not read the file position')
    return d[1]
def files(ctx):
    m = sysno(ctx)
    for cfg in CFGS:
        ctx.cfg = cfg; tag = '' if cfg == 'epoll' else '@release'
        l = L(ctx); FF = F_(ctx); POS = foffs(ctx); mod = module(ctx); AL = initial(mk('g', 'kgl_aio_align_size'), 0)
        DIR = FF.st + ctx.off('kselectable_s', 'direct_io'); DOFF = FF.st + ctx.off('kselectable_s', 'direct_io_offset'); DLEN = FF.st + ctx.off('kselectable_s', 'direct_io_orig_length')
        # ---- starting: one request, with exactly the file's handle, the caller's buffer, length and the current position
        for slot, opc in (('aio_read', m['IOCB_CMD_PREAD']), ('aio_write', m['IOCB_CMD_PWRITE'])):
            fn = mod.get(slot)
            if not ctx.ob('aio-entry', slot + tag, fn is not None, 'no back-end function'): continue
            S = ctx.run(fn); f, res, buf, ln, arg = ctx.args; seen = set()
            for s in S:
                F = s.final.facts
                sc = [e for e in s.flat() if is_call(e, 'syscall')]
                r = truth(F, s.ret)
                if not ctx.ob('aio-submit', fn + tag, len(sc) == 1 and s.const(sc[0].args[0]) == m['SYS_io_submit'] and s.const(sc[0].args[2]) == 1, 'exactly one request is queued to the kernel', s): continue
                e = sc[0]; seen.add(r)
                ctx.ob('aio-status', fn + tag, r is (True if same(F, e.ret, ONE) else False), 'the start succeeds exactly if the kernel took the request', s)
                cb = at(ctx, e, e.args[3], 0, 8)
                I = lambda name, size: at(ctx, e, cb, ctx.off('iocb', name), size)
                direct = direct_of(F, f, DIR)
                ok = I('aio_fildes', 4) is initial(f, FF.fd) and s.const(I('aio_lio_opcode', 2)) == opc and I('aio_buf', 8) is buf and I('aio_data', 8) is f
                ctx.ob('aio-request', fn + tag, ok, 'the request names the file, the operation, the caller\'s buffer and the file itself', s)
                ok = at(ctx, e, f, FF.rarg, 8) is arg and at(ctx, e, f, FF.rres, 8) is res
                ctx.ob('aio-callback', fn + tag, ok, 'the completion must find its own callback and argument', s)
                # completion goes to the descriptor of the same loop's request context
                rf = decode(I('aio_resfd', 4)); cx = decode(e.args[1])
                ok = rf is not None and cx is not None and rf[0] is cx[0] and s.const(I('aio_flags', 4)) == m['IOCB_FLAG_RESFD'] and decode(rf[0]) is not None and decode(decode(rf[0])[0]) == (f, FF.sel)
                ctx.ob('aio-notify', fn + tag, ok, 'the kernel must report to the file\'s own loop', s)
                pos = initial(f, POS); koff = I('aio_offset', 8); klen = I('aio_nbytes', 8)
                d = at(ctx, e, f, DOFF, 2)
                if not direct:
                    ctx.ob('aio-range', fn + tag, same(F, koff, pos) and same(F, klen, ln), 'the request covers exactly the bytes asked for, at the file\'s position', s)
                    ctx.ob('aio-skip', fn + tag, s.const(d) == 0, 'nothing is skipped in an ordinary read', s)
                else:
                    seen.add('direct')
                    sk = strip(sub(pos, koff))
                    if slot == 'aio_write': ok = s.const(d) == 0 and same(F, koff, pos) and same(F, klen, ln)
                    else: ok = strip(d) is sk and (sk is sub(pos, floors(pos, AL)) or sk is t_bit('and', pos, sub(AL, ONE), 64)) and any(strip(klen) is c or klen is AL and same(F, c, ZERO) for c in ceils(ln, AL))
                    ctx.ob('aio-range', fn + tag, ok, 'a direct request starts at the aligned position before the file\'s position, and the difference is skipped', s)
                    ctx.ob('aio-skip', fn + tag, at(ctx, e, f, DLEN, 4) is ln, 'the length asked for is remembered to clip the result', s)
            for s in ctx.run(fn, exact=True):
                for e in s.flat():
                    if not is_call(e, 'syscall') or direct_of(s.final.facts, f, DIR): continue
                    cb = at(ctx, e, e.args[3], 0, 8); koff = at(ctx, e, cb, ctx.off('iocb', 'aio_offset'), 8)
                    ctx.ob('aio-wide', fn + tag, same(s.final.facts, koff, initial(f, POS)), 'the position is passed on in full width', s)
            ctx.ob('aio-cases', fn + tag, {True, False} <= seen and 'direct' in seen, 'found %s' % seen)
        # ---- opening / binding
        fn = mod.get('aio_open'); S = ctx.run(fn); sel, f, fd = ctx.args
        for s in S: ctx.ob('aio-open', fn + tag, final(ctx, s, f, FF.fd, 4) is fd and final(ctx, s, f, FF.sel) is sel, 'the file belongs to the loop and the handle it was opened with', s)
        fn = 'kfiber_file_bind'; S = ctx.run(fn, opaque=(TLS,)); fp = ctx.args[0]; seen = set()
        for s in S:
            op = [e for e in s.flat() if e.kind == 'icall' and str(e.name).endswith('kgl_selector_module.aio_open')]
            if isnull(s.final.facts, s.ret) or s.const(s.ret) == 0: seen.add('fail'); ok = not op
            else:
                seen.add('ok'); fl = final(ctx, s, s.ret, FF.st + l.flg, 2)
                ok = len(op) == 1 and is_tls(op[0].args[0]) and op[0].args[1] is s.ret and op[0].args[2] is fp and fresh_obj(s.ret) and [e for e in s.flat() if e.kind == 'memset' and e.args[0] is s.ret]
            ctx.ob('file-bind', fn + tag, bool(ok), 'a bound file is a fresh object on the caller\'s loop with the caller\'s handle', s)
        ctx.ob('aio-cases', fn + tag, seen == {'fail', 'ok'}, 'found %s' % seen)
        fn = 'kfiber_file_open'; S = ctx.run(fn, opaque=('kfopen', 'kfiber_file_bind', TLS)); A = ctx.args; seen = set()
        for s in S:
            o = one(calls(s, 'kfopen')); b = calls(s, 'kfiber_file_bind'); cl = [e for e in s.flat() if is_call(e, 'close')]
            if not ctx.ob('file-open', fn + tag, o is not None and o.args[0] is A[0] and o.args[1] is A[1], 'the file is opened once', s): continue
            if not b: seen.add('no'); ctx.ob('file-open', fn + tag, lt(s.final.facts, o.ret, ZERO) is True and s.const(s.ret) == 0 and not cl, 'only a file that cannot be opened is not bound', s); continue
            ok = len(b) == 1 and b[0].args[0] is o.ret
            if truth(s.final.facts, b[0].ret): seen.add('ok'); ok = ok and not cl and s.ret is b[0].ret
            else: seen.add('leak'); ok = ok and len(cl) == 1 and cl[0].args[0] is o.ret and same(s.final.facts, s.ret, ZERO)
            ctx.ob('file-open', fn + tag, ok, 'a handle that cannot be bound is closed, a bound one stays open', s)
        ctx.ob('aio-cases', fn + tag, seen == {'no', 'ok', 'leak'}, 'found %s' % seen)
        fn = 'kfiber_file_close'; S = ctx.run(fn); f = ctx.args[0]
        for s in S:
            cl = [e for e in s.flat() if is_call(e, 'close')]; fr = [e for e in s.flat() if is_call(e, 'free')]
            ok = len(cl) == 1 and cl[0].args[0] is initial(f, FF.fd) and len(fr) == 1 and fr[0].args[0] is f and index_of(s.flat(), cl[0]) < index_of(s.flat(), fr[0])
            ctx.ob('file-close', fn + tag, ok, 'closing closes the handle and frees the file, once each', s)
        fn = 'kfiber_file_size'; S = ctx.run(fn); f = ctx.args[0]
        for s in S: ctx.ob('file-size', fn + tag, [e.args[0] for e in s.flat() if is_call(e, 'fstat')] == [initial(f, FF.fd)], 'the size is the one of the file\'s own handle', s)
        if 'kasync_file_direct' in ctx.p.funcs:
            fn = 'kasync_file_direct'; V = ir.macro_values(['O_DIRECT', 'F_GETFL', 'F_SETFL'], ['<fcntl.h>']); f = sym('arg:fp'); bit = ctx.p.bitfield('kselectable_s', 'direct_io')[0] % 8; seen = set()
            for on in (0, 1):
                for s in ctx.run(fn, args=[f, C(on)]):
                    F = s.final.facts; fc = [e for e in s.flat() if is_call(e, 'fcntl')]; ok = bool(fc) and all(e.args[0] is initial(f, FF.fd) for e in fc) and s.const(fc[0].args[1]) == V['F_GETFL']; r = s.const(s.ret)
                    b = final(ctx, s, f, DIR, 1); was = initial(f, DIR); seen.add((on, r, len(fc)))
                    if len(fc) == 2:
                        old = fc[0].ret; w = [t_bit('or', old, C(V['O_DIRECT']), z) for z in (32, 64)] if on else [t_bit('and', old, C(~V['O_DIRECT']), z) for z in (32, 64)]
                        ok = ok and s.const(fc[1].args[1]) == V['F_SETFL'] and any(same(F, fc[1].args[2], x) for x in w) and differs(F, old, C(-1)) and same(F, fc[1].ret, ZERO) is bool(r)
                    else: ok = ok and len(fc) == 1 and r == 0 and same(F, fc[0].ret, C(-1))
                    if r: ok = ok and b is not was and s.const(t_bit('and', b, C(1 << bit), 8)) == on << bit
                    else: ok = ok and b is was
                    ctx.ob('file-direct', fn + tag, ok, 'direct I/O is switched for the handle first, and noted exactly if that succeeded', s)
            ctx.ob('aio-cases', fn + tag, seen == {(o, *k) for o in (0, 1) for k in ((0, 1), (0, 2), (1, 2))}, 'found %s' % seen)
        for n, al, want in ((1, 512, 512), (512, 512, 512), (513, 512, 1024), (5000, 4096, 8192), (4096, 4096, 4096)):
            fn = 'aio_alloc_buffer'
            for s in ctx.e.run(fn, Cfg(exact=True), args=[C(n)], setup=lambda E, st: st.wmem().__setitem__((mk('g', 'kgl_aio_align_size'), 0), (C(al), 8, None))):
                ma = [e for e in s.flat() if e.kind == 'call' and e.name in ('memalign', 'aligned_alloc', 'posix_memalign')]; a = ma and [s.const(x) for x in ma[0].args][-2:]
                ctx.ob('file-buffer', '%s, %d by %d%s' % (fn, n, al, tag), len(ma) == 1 and a[0] == al and (a[1] or 0) >= want and s.ret is ma[0].ret, 'a buffer for direct I/O is aligned and holds whole aligned blocks', s)
        S = ctx.run('aio_free_buffer')
        for s in S: ctx.ob('file-buffer', 'aio_free_buffer' + tag, [e.args[0] for e in s.flat() if is_call(e, 'free')] == ctx.args[:1], 'a buffer is freed once', s)
        # ---- the alignment is at least that of every mounted device
        fn = 'init_aio_align_size'; AG, AZ = mk('g', 'kgl_aio_align_size'), 8; ent = sym('al', 'mount')
        for disks in ([], [512], [4096], [4096, 512], [512, 4096], [None, 4096], [0, 4096, 512], [4096, None], [4096, 0]):
            def nxt(E, st, fr, i, args, work):
                k = st.user['k'] = st.user.get('k', -1) + 1; r = ent if k < len(disks) else ZERO; assume(st.facts, t_eq(ent, ZERO), False)
                fr.env[i['i']] = r; E.emit(st, 'call', 'getmntent', args, r, i); return None
            def opn(E, st, fr, i, args, work):
                r = C(-1 if disks[st.user['k']] is None else 50 + st.user['k']); fr.env[i['i']] = r; E.emit(st, 'call', 'open', args, r, i); return None
            def ioc(E, st, fr, i, args, work):
                d = disks[st.user['k']]
                if d: st.wmem()[ptr_split(args[2])] = (C(d), 4, None)
                fr.env[i['i']] = C(0 if d else -1); E.emit(st, 'call', 'ioctl', args, fr.env[i['i']], i); return None
            P = [p for p in ctx.e.run(fn, Cfg(havoc='none', cut=8, models={'getmntent': nxt, 'open': opn, 'open64': opn, 'ioctl': ioc}), args=[], setup=lambda E, st: st.user.__setitem__('k', -1)) if p.kind != 'cut']; got = set(); ctx.entries.add(fn)
            for p in P:
                ev = p.flat(); F = p.final.facts; sm = only(ev, 'setmntent'); v = p.const(final(ctx, p, AG, 0, AZ)); o = [e.ret for e in ev if is_call(e, 'open') and p.const(e.ret) != -1]; c = [e.args[0] for e in ev if is_call(e, 'close')]; en = only(ev, 'endmntent')
                t = len(sm) == 1 and nonnull(F, sm[0].ret); got.add(t)
                if t: ok = v == max([512] + [d or 0 for d in disks]) and sorted(p.const(x) for x in o) == sorted(p.const(x) for x in c) and len(en) == 1 and en[0].args[0] is sm[0].ret
                else: ok = v is not None and v >= 4096 and not en
                ctx.ob('file-align', '%s, devices of %s%s' % (fn, disks, tag), ok, 'direct I/O is aligned for every mounted device and nothing is left open', p)
            ctx.ob('file-align', '%s, devices of %s%s' % (fn, disks, tag), True in got and len(got) == 2, 'does not end')
        # ---- the fiber calls
        cbs = {}
        for fn, slot in (('kfiber_file_read', 'aio_read'), ('kfiber_file_write', 'aio_write')):
            S = ctx.run(fn, opaque=(CUR, TLS) + WAITS); f, buf, ln = ctx.args; seen = set()
            for s in S:
                st = one([e for e in s.flat() if e.kind == 'icall' and str(e.name).endswith('kgl_selector_module.' + slot)])
                if not ctx.ob('file-start', fn + tag, st is not None and st.args[0] is f and st.args[1].op == 'f' and st.args[2] is buf and st.args[3] is ln, 'one operation with the caller\'s buffer and length', s): continue
                cbs.setdefault(st.args[1].args[0], set()).add('rw')
                fib = at(ctx, st, f, FF.data, 8)
                ctx.ob('file-start', fn + tag, is_cur(fib) and st.args[4] is f, 'the operation is started for the calling fiber', s)
                okc = truth(s.final.facts, st.ret); seen.add(okc); w = waits(s)
                if okc is False: ctx.ob('file-start-fail', fn + tag, not w and s.const(s.ret) == -1, 'a start that failed must not be waited for', s)
                else: ctx.ob('file-wait', fn + tag, okc is True and len(w) == 1 and w[0].args[0] is fib and index_of(s.flat(), w[0]) > index_of(s.flat(), st) and s.ret is w[0].ret and (len(w[0].args) < 2 or w[0].args[1] is fib), 'a started operation is waited for once and its result returned', s)
            ctx.ob('aio-cases', fn + tag, seen == {True, False}, 'found %s' % seen)
        fn = 'kfiber_sendfile'; S = ctx.run(fn, opaque=('selectable_sendfile', CUR, TLS) + WAITS); cn, f, ln = ctx.args
        for s in S:
            st = one(calls(s, 'selectable_sendfile'))
            if not ctx.ob('file-start', fn + tag, st is not None and st.args[0] is cn and st.args[1].op == 'f' and at(ctx, st, st.args[2], 0, 8) is f and at(ctx, st, st.args[2], 8, 8) is not None and same(s.final.facts, at(ctx, st, st.args[2], 8, 8), ln) and st.args[3] is f, 'the file is sent on this connection with the caller\'s length', s): continue
            fib = at(ctx, st, f, FF.data, 8); cbs.setdefault(st.args[1].args[0], set()).add('sendfile')
            ctx.ob('file-start', fn + tag, is_cur(fib), 'the operation is started for the calling fiber', s)
            r = suspended(ctx, fn, s, st, fib, lambda w: w.args[1] is f, True, tag)
            result(ctx, fn, s, r, tag)
        # the completion moves the position by what was transferred and wakes the fiber with it
        for cb, kinds in sorted(cbs.items()):
            S = ctx.run(cb, exact=True, opaque=WAKE + (CUR, TLS)); data, arg, got = ctx.args; seen = set()
            for s in S:
                F = s.final.facts; w = [e for e in s.flat() if is_call(e, *WAKE)]
                pos = decode_pos = at(ctx, w[0], arg, POS, 8) if w else None
                who = [data] if kinds == {'rw'} else [initial(arg, FF.data)] + ([data] if 'rw' in kinds and 'sendfile' not in kinds else [])
                ok = len(w) == 1 and w[0].args[0] in who and w[0].args[-1] is got and s.const(s.ret) == ctx.p.enum('kev_fiber_ok')
                ctx.ob('file-wake', cb + tag, ok, 'a completed operation wakes its own fiber once with its own result', s)
                if not w: continue
                mv = lt(F, ZERO, got); seen.add(mv)
                want = add(initial(arg, POS), got) if mv is True else initial(arg, POS) if mv is False else None
                ctx.ob('file-position', cb + tag, want is not None and strip(pos) is strip(want), 'the position moves by exactly what was transferred, and not at all on failure or end of file', s)
            ctx.ob('aio-cases', cb + tag, seen == {True, False}, 'found %s' % seen)
        ctx.ob('aio-cases', 'callbacks' + tag, len(cbs) >= 1 and set().union(*cbs.values()) == {'rw', 'sendfile'}, 'found %s' % cbs)
        # sendfile: from the file's position, at most what was asked for
        n = 0
        for fn in ('selectable_write_event',):
            S = ctx.run(fn, exact=True); st = ctx.args[0]
            for s in S:
                for e in s.flat():
                    if is_call(e, 'sendfile', 'SSL_sendfile'):
                        n += 1; isssl = e.name == 'SSL_sendfile'
                        pf = deref(e.args[1])[0]; bufp = deref(pf)[0] if pf is not None else None
                        if not ctx.ob('sendfile-range', fn + tag, bufp is not None and deref(pf)[1] == 0 and deref(bufp) == (st, FF.rarg - FF.st + ctx.p.sizeof('kgl_event') + ctx.off('kgl_event', 'buffer')), 'the file comes from the operation started on this socket', s): continue
                        off = e.args[2] if isssl else at(ctx, e, e.args[2], 0, 8)
                        ok = decode(e.args[1]) == (pf, FF.fd) and decode(off) == (pf, POS) and (isssl or decode(e.args[0]) == (st, l.fd)) and same(s.final.facts, e.args[3], at(ctx, e, bufp, 8, 8))
                        ctx.ob('sendfile-range', fn + tag, ok, 'the bytes sent start at the file\'s position and are at most what was asked for', s)
        ctx.ob('aio-cases', 'selectable_write_event' + tag, n > 0, 'no transfer found')
        # seek / tell
        fn = 'kfiber_file_seek'; S = ctx.run(fn, exact=True); f, how, off = ctx.args; seen = set()
        for s in S:
            F = s.final.facts; v = final(ctx, s, f, POS)
            for nm in ('seekBegin', 'seekCur'):
                if same(F, how, C(ctx.p.enum(nm))):
                    seen.add(nm); want = off if nm == 'seekBegin' else add(initial(f, POS), off)
                    ctx.ob('seek', fn + tag, v is want and s.const(s.ret) == 0, 'a seek sets the position it was asked for', s); break
            else: seen.add('other'); ctx.ob('seek', fn + tag, v is initial(f, POS) and s.const(s.ret) == -1, 'an unknown seek fails without effect', s)
        ctx.ob('aio-cases', fn + tag, {'seekBegin', 'seekCur'} <= seen, 'found %s' % seen)
        for s in ctx.run('kfiber_file_tell', exact=True): ctx.ob('seek', 'kfiber_file_tell' + tag, s.ret is initial(ctx.args[0], POS), 'tell reports the position', s)
        # ---- completions: every finished request is delivered once
        completions(ctx, FF, m, mod, tag, POS)
        safe(ctx, FF, tag)
        for fn, inner in (('kfiber_file_write_full', 'kfiber_file_write'), ('kfiber_file_read_full', 'kfiber_file_read'), ('kfiber_sendfile_full', 'kfiber_sendfile')): onesided(ctx, fn, inner, tag)
    ctx.cfg = 'epoll'
def strip(t):
    while t.op in ('sext', 'zext', 'trunc'): t = t.args[0]
    return t
def floors(pos, al):
    """pos rounded down to a multiple of al, as a term"""
    m = t_bit('xor', sub(al, ONE), C(-1), 64)
    return t_bit('and', m, pos, 64)
def ceils(ln, al):
    return [t_bit('and', t_bit('xor', sub(al, ONE), C(-1), w), add(ln, sub(al, ONE)), w) for w in (32, 64)]
def direct_of(F, f, DIR):
    """True / False: this path found the file's direct flag set / clear; None: it was not tested"""
    for t in F:
        if any(decode(x) == (f, DIR) for x in [t] + list(t.syms)):
            r = ev_cond(F, t_eq(t, ZERO))
            if r is not None: return not r
    return None
def deref(t):
    d = decode(t)
    return d if d else (None, None)
def completions(ctx, FF, m, mod, tag, POS):
    DIR = FF.st + ctx.off('kselectable_s', 'direct_io'); DOFF = FF.st + ctx.off('kselectable_s', 'direct_io_offset'); DLEN = FF.st + ctx.off('kselectable_s', 'direct_io_orig_length')
    l = FF.l; ACTX = ctx.off('kepoll_aio_selectable', 'aio_ctx'); SETUP = ir.macro_values(['SYS_io_setup'], ['<sys/syscall.h>'])['SYS_io_setup']
    S = ctx.run(mod['init']); hs = set(); eps = ir.macro_values(['EPOLLIN', 'EPOLLET', 'EPOLLONESHOT', 'EPOLL_CTL_ADD'], ['<sys/epoll.h>'])
    for s in S:
        for e in s.flat():
            if is_call(e, 'syscall') and s.const(e.args[0]) == SETUP:
                st = ptradd(e.args[2], -ACTX); h = final(ctx, s, st, FF.rres - FF.st); a = final(ctx, s, st, FF.rarg - FF.st)
                ctx.ob('done-handler', mod['init'] + tag, h.op == 'f' and a is st, 'finished requests have a handler that is given its own context', s)
                if h.op == 'f': hs.add(h.args[0])
                sb, so = ptr_split(st); g = lambda o_, z=8: final(ctx, s, sb, so + o_, z)
                fd = g(l.fd, 4); rg = [x for x in s.flat() if is_call(x, 'epoll_ctl') and x.args[2] is fd]
                ok = len(rg) == 1 and s.const(rg[0].args[1]) == eps['EPOLL_CTL_ADD'] and len([x for x in s.flat() if is_call(x, 'eventfd') and x.ret is fd]) == 1
                if ok:
                    mask = s.const(at(ctx, rg[0], rg[0].args[3], 0, 4)); ptr = at(ctx, rg[0], rg[0].args[3], 4, 8)
                    ok = mask is not None and mask & eps['EPOLLIN'] and not mask & (eps['EPOLLET'] | eps['EPOLLONESHOT']) and ptr_split(ptr) == (sb, so)
                ctx.ob('done-watched', mod['init'] + tag, bool(ok), 'the descriptor that tells of finished requests is watched, level triggered, naming its own socket', s)
                fl = s.const(g(l.flg, 4))
                ok = fl is not None and fl & l.STF_READ and fl & l.STF_REV and not fl & (l.STF_WRITE | l.STF_ET) and g(l.sel) is ctx.args[0] and isnull(s.final.facts, g(l.buf[0]))
                ctx.ob('done-pending', mod['init'] + tag, bool(ok), 'the handler of finished requests is always pending on its loop', s)
    if not ctx.ob('done-handler', 'loop' + tag, len(hs) == 1, 'found %s' % sorted(hs)): return
    fn = hs.pop(); EL = ctx.sizeof_io if hasattr(ctx, 'sizeof_io') else 32
    # with no count of finished requests nothing is fetched
    for n in (-1,):
        def rdf(E, st, fr, i, a, work): fr.env[i['i']] = C(n); E.emit(st, 'call', 'read', a, C(n), i); return None
        for p in ctx.e.run(fn, Cfg(cut=1, havoc='none', models={'read': rdf}), args=[sym('arg:data'), sym('arg:arg'), ZERO]):
            ctx.npaths += 1; ctx.ob('done-fetch', fn + tag, p.kind != 'cut' and not [e for e in p.flat() if e.kind == 'icall' or e.kind == 'call' and e.name == 'syscall'], 'a failed read of the count (%d) delivers nothing' % n, p)
    S = ctx.run(fn, backedge=True); A = ctx.args[1]; kinds = set(); nin = nout = 0
    if not ctx.ob('done-fetch', fn + tag, any(is_call(x, 'syscall') and cv(x.args[0]) == m['SYS_io_getevents'] for s in S for x in s.flat()), 'the handler fetches the finished requests'): return
    DT, RES = ctx.off('io_event', 'data'), ctx.off('io_event', 'res'); EL = ctx.p.sizeof('io_event')
    for s in S:
        rd = [e for e in s.flat() if is_call(e, 'read')]
        ok = len(rd) == 1 and rd[0].args[0] is initial(A, l.fd) and s.const(rd[0].args[2]) == 8
        ctx.ob('done-count', fn + tag, ok, 'the number of finished requests is taken once from the kernel', s)
    for s, (e, flat_, g, b) in uniqs(S):
        sc = [x for x in flat_ if is_call(x, 'syscall')]; ic = [x for x in flat_ if x.kind == 'icall']
        if b is None: continue
        F = b.snap.facts
        if sc:                       # one round of fetching
            nout += 1; x = sc[0]
            ok = len(sc) == 1 and cv(x.args[0]) == m['SYS_io_getevents'] and deref(x.args[1])[1] == ACTX and ptr_root(deref(x.args[1])[0]) is A
            ctx.ob('done-fetch', fn + tag, ok, 'finished requests are fetched from the loop\'s own request context', s)
        elif ic:
            nin += 1; x = ic[0]
            if not ctx.ob('done-once', fn + tag, len(ic) == 1, 'one completion per finished request', s): continue
            fl, o = deref(x.x) if x.x is not None else (None, None)
            ok = o == FF.rres and fl is not None and decode(x.args[0]) == (fl, FF.data) and decode(x.args[1]) == (fl, FF.rarg)
            if not ctx.ob('done-callback', fn + tag, ok, 'the completion callback of the request\'s own file runs with its own data and argument', s): continue
            cell = deref(fl)         # where the file came from: the event array
            if not ctx.ob('done-callback', fn + tag, cell[0] is not None, 'the file is the one named by the finished request', s): continue
            ev = ptradd(cell[0], cell[1] - DT)
            res = lambda t: decode(strip(t)) is not None and ptr_same(ptradd(*decode(strip(t))), ptradd(ev, RES))
            F = x_facts(s, g, x) or F
            d = direct_of(F, fl, DIR); got = x.args[2]; skipv = [y for y in got.syms if decode(y) == (fl, DOFF)]
            rt = next((t for t in list(F) + [got] for t in [strip(t)] if res(t)), None)
            if d is False: kinds.add('plain'); ctx.ob('done-result', fn + tag, res(got), 'an ordinary operation reports the kernel\'s result', s)
            elif d is True:
                if isc(got) and cv(got) < 0: kinds.add('error'); ok = rt is not None and lt(F, rt, ZERO) is True
                elif isc(got) and cv(got) == 0: kinds.add('eof'); ok = rt is not None and lt(F, rt, ZERO) is False
                elif decode(got) == (fl, DLEN): kinds.add('clip'); ok = True
                else:
                    kinds.add('part'); p_ = [t for t in got.args[1]] if got.op == 'lin' else []
                    ok = len(p_) == 2 and got.args[0] == 0 and any(c == 1 and res(t) for t, c in p_) and any(c == -1 and decode(strip(t)) == (fl, DOFF) for t, c in p_) and lt(F, initial_of(got, fl, DLEN, F), got) is not True
                ctx.ob('done-result', fn + tag, bool(ok), 'a direct read reports only bytes at and behind the position asked for, at most the length asked for, end of file as 0 and errors as errors', s)
            else: ctx.ob('done-result', fn + tag, False, 'the kind of the file must be considered', s)
    ctx.ob('aio-cases', fn + tag, kinds == {'plain', 'error', 'eof', 'clip', 'part'} and nin > 0 and nout > 0, 'found %s' % sorted(kinds))
    # every finished request is delivered once: the loops unrolled over scripted fetches
    rooms = []
    for k, script in ((0, []), (1, [1]), (2, [2]), (3, [3]), (2, [1, 1]), (3, [1, 2]), (3, [2, 1]), (2, [0, 2]), (2, [-1, 1, 0, 1]), (None, [1]), (1 << 20, [1]), (1 << 32, [1])):
        full = (rooms[0] + 1 if rooms else 257) if k is None else k
        RV = [sym('arg:res%d' % i) for i in range(9)]; fl = [sym('al', 'f%d' % i) for i in range(sum(max(x, 0) for x in script))]; bad = []
        def rdm(E, st, fr, i, a, work):
            st.wmem()[ptr_split(a[1])] = (C(full), 8, None); st.user['n'] = (0, 0, full)
            fr.env[i['i']] = C(8); E.emit(st, 'call', 'read', a, C(8), i)
        def sysm(E, st, fr, i, a, work):
            if cv(a[0]) != m['SYS_io_getevents']: r = sym('sys', i['i'])
            else:
                q, pos, left = st.user.get('n', (0, 0, 0)); want = cv(a[3]) if isc(a[3]) else None
                room = ALLOCSZ.get(ptr_root(a[4]), 0) // EL
                rooms.append(room)
                if not (isc(a[5]) and cv(a[5]) == 0) and [cv(x) if isc(x) else None for x in (E.load(st, a[5], 8, None), E.load(st, ptradd(a[5], 8), 8, None))] != [0, 0]: bad.append('a fetch may hold up the loop')
                if want is None or want > min(left, room): bad.append('%s asked for, %d outstanding, room for %d' % (want, left, room))
                r = min(script[q], want or 0) if q < len(script) else 0
                for j in range(max(r, 0)):
                    if pos + j < len(fl):
                        b_, o_ = ptr_split(ptradd(a[4], j * EL)); st.wmem()[(b_, o_ + DT)] = (fl[pos + j], 8, None); st.wmem()[(b_, o_ + RES)] = (RV[pos + j], 8, None)
                st.user['n'] = (q + 1, pos + max(r, 0), left - max(r, 0)); r = C(r)
            fr.env[i['i']] = r; E.emit(st, 'call', 'syscall', a, r, i)
        def su(E, st):
            for x in fl: assume(st.facts, t_eq(x, ZERO), False); st.wmem()[(x, DIR)] = (ZERO, 2, None)
        P = ctx.e.run(fn, Cfg(cut=6, havoc='none', models={'read': rdm, 'syscall': sysm}), setup=su, args=list(ctx.args)); ctx.npaths += len(P)
        ctx.ob('done-fetch', fn + tag, not bad, 'no more is asked for than is outstanding and the array holds: ' + '; '.join(bad[:1]))
        if k is None or k > 9: continue
        ctx.ob('done-all', fn + tag, bool(P) and all(p.kind != 'cut' for p in P), 'with %d finished requests, fetched as %s, the handler ends' % (k, script))
        for p in P:
            ic = [e for e in p.flat() if e.kind == 'icall' and e.x is not None]; got = [deref(e.x)[0] for e in ic]
            ctx.ob('done-result', fn + tag, all(strip(e.args[2]) is RV[fl.index(g)] for e, g in zip(ic, got) if g in fl), 'each file gets the result of its own request', p)
            ctx.ob('done-all', fn + tag, len(got) == len(fl) and all(sum(1 for g in got if g is f) == 1 for f in fl), 'every finished request (%d fetched as %s) is delivered once before the handler returns' % (k, script), p)
def uniqs(S):
    seen = set()
    for s in S:
        for q in segs_of(s.events):
            if id(q[2]) in seen: continue
            seen.add(id(q[2])); yield s, q
def ptr_same(a, b): return ptr_split(a) == ptr_split(b) or pdiff(a, b) is ZERO
def x_facts(s, g, x): return x.snap.facts if x.snap is not None else None
def initial_of(t, f, off, F):
    for k in list(F) + [t]:
        for y in [k] + list(k.syms):
            if decode(y) == (f, off): return y
    return initial(f, off)
def safe(ctx, FF, tag):
    """calls for a file of another loop: run by a fiber on the file's loop and waited for"""
    for fn, inner in (('kfiber_file_safe_write_full', 'kfiber_file_write_full'), ('kfiber_file_safe_read', 'kfiber_file_read')):
        S = ctx.run(fn, opaque=(inner, 'kfiber_create2', 'kfiber_join', CUR, TLS)); f, buf, ln = ctx.args; seen = set(); fns = set(); plen = {}
        for s in S:
            F = s.final.facts; c = calls(s, 'kfiber_create2'); d = calls(s, inner); j = calls(s, 'kfiber_join')
            if d:
                seen.add('own'); own = any(eqv(d[0].snap, initial(f, FF.sel), y) for y in selof(ctx, s, F))
                ctx.ob('safe-own', fn + tag, own and len(d) == 1 and not c and d[0].args == (f, buf, ln) and (s.ret is d[0].ret or truth(F, s.ret) == truth(F, d[0].ret)), 'a file of the own loop is used directly', s); continue
            if not ctx.ob('safe-other', fn + tag, len(c) == 1 and c[0].args[0] is initial(f, FF.sel) and c[0].args[1].op == 'f', 'a file of another loop is used by one fiber on that loop', s): continue
            fns.add(c[0].args[1].args[0]); pp = c[0].args[2]
            ok = at(ctx, c[0], pp, 0) is f and at(ctx, c[0], pp, 8) is buf
            lp = at(ctx, c[0], pp, 16)
            ok = ok and (lp is ln or at(ctx, c[0], lp, 0, 4) is ln)
            ctx.ob('safe-other', fn + tag, ok, 'it is given the caller\'s file, buffer and length', s)
            if same(F, c[0].ret, ZERO):
                seen.add('join'); ok = len(j) == 1 and decode(j[0].args[0]) is not None and decode(j[0].args[0])[0] is c[0].args[5]
                rv = ctx.e.load_snap(s.final, j[0].args[1], 4, None) if j else None
                ok = ok and (s.ret is rv or strip(s.ret) is t_not(t_eq(rv, ZERO)) or truth(F, s.ret) is not None and truth(F, s.ret) == truth(F, rv))
                ctx.ob('safe-join', fn + tag, bool(ok), 'the caller waits for it and returns its result', s)
            else:
                seen.add('fail'); ctx.ob('safe-fail', fn + tag, not j and s.const(s.ret) == (-1 if 'read' in fn else 0), 'a failed start is reported as a failure', s)
        ctx.ob('aio-cases', fn + tag, seen == {'own', 'join', 'fail'} and len(fns) == 1, 'found %s' % seen)
        for h in fns:
            S = ctx.run(h, opaque=(inner,)); p = ctx.args[0]
            for s in S:
                d = one(calls(s, inner))
                ok = d is not None and decode(d.args[0]) == (p, 0) and decode(d.args[1]) == (p, 8) and (decode(d.args[2]) == (p, 16) or decode(decode(d.args[2])[0]) == (p, 16)) and (s.ret is d.ret or strip(s.ret) is d.ret or truth(s.final.facts, s.ret) == truth(s.final.facts, d.ret))
                ctx.ob('safe-other', h + tag, ok, 'the helper performs the operation it was given', s)
def selof(ctx, s, F):
    """terms for the running fiber's loop on this path"""
    SEL = ctx.off('kgl_base_selectable', 'selector')
    out = [e.ret for e in s.flat() if is_call(e, TLS)] + [initial(e.ret, SEL) for e in s.flat() if is_call(e, CUR)]
    return out

# ------------------------------------------------------------------ sleep, thread calls
def blocking(ctx):
    for cfg in CFGS:
        ctx.cfg = cfg; tag = '' if cfg == 'epoll' else '@release'
        START, ARG, RV, SEL = [ctx.off('_kfiber', n) for n in ('start', 'arg', 'retval')] + [ctx.off('kgl_base_selectable', 'selector')]
        fn = 'kfiber_msleep'; S = ctx.run(fn, opaque=('kselector_add_timer', CUR, TLS) + WAITS); ms = ctx.args[0]; seen = set(); cbs = set()
        for s in S:
            t = one(calls(s, 'kselector_add_timer')); w = waits(s)
            ok = t is not None and is_tls(t.args[0]) and t.args[1].op == 'f' and is_cur(t.args[2]) and same(s.final.facts, t.args[3], ms)
            if not ctx.ob('sleep-timer', fn + tag, ok, 'a sleep is one timer on the own loop that wakes the calling fiber after the given time', s): continue
            cbs.add(t.args[1].args[0])
            if same(s.final.facts, t.ret, ZERO): seen.add('slept'); ctx.ob('sleep-wait', fn + tag, len(w) == 1 and w[0].args[0] is t.args[2] and index_of(s.flat(), w[0]) > index_of(s.flat(), t) and s.const(s.ret) == 0, 'the fiber sleeps until its timer wakes it', s)
            else: seen.add('refused'); ctx.ob('sleep-wait', fn + tag, not w and s.ret is t.ret, 'a sleep that cannot be timed fails without waiting', s)
        ctx.ob('call-cases', fn + tag, seen == {'slept', 'refused'} and len(cbs) == 1, 'found %s' % seen)
        for cb in cbs: wakes(ctx, cb, lambda a: a[1], lambda a: a[2])
        fn = 'kfiber_thread_call'; S = ctx.run(fn, opaque=('kthread_pool_start', CUR, TLS) + WAITS); start, arg, argc, ret = ctx.args; seen = set(); thr = set(); tags = set()
        for s in S:
            p = one(calls(s, 'kthread_pool_start')); w = waits(s); F = s.final.facts
            if not ctx.ob('call-start', fn + tag, p is not None and p.args[0].op == 'f' and is_cur(p.args[1]), 'one call is handed to the thread pool', s): continue
            f = p.args[1]; thr.add(p.args[0].args[0])
            ctx.ob('call-args', fn + tag, at(ctx, p, f, START) is start and at(ctx, p, f, ARG) is arg and at(ctx, p, f, RV, 4) is argc, 'the pool thread finds the caller\'s function and arguments', s)
            out = [e for e in s.flat() if e.kind == 'st' and e.args[0] is ret]
            if truth(F, p.ret) is True:
                seen.add('ret' if out else 'void')
                ok = len(w) == 1 and w[0].args[0] is f and index_of(s.flat(), w[0]) > index_of(s.flat(), p) and s.const(s.ret) == 0
                ctx.ob('call-wait', fn + tag, ok, 'the fiber waits once for the call', s)
                for x in w:
                    if len(x.args) > 1 and x.name == '__kfiber_wait': tags.add('arg' if x.args[1] is arg else 'fiber' if x.args[1] is f else 'null' if isnull(F, x.args[1]) else repr(x.args[1]))
                if w: ctx.ob('call-result', fn + tag, (len(out) == 1 and out[0].args[2] is w[0].ret) if out else isnull(F, ret), 'the result of the call reaches the caller', s)
            else: seen.add('refused'); ctx.ob('call-refused', fn + tag, truth(F, p.ret) is False and not w and not out and s.const(s.ret) == -1, 'a call that cannot be handed over fails without waiting', s)
        ctx.ob('call-cases', fn + tag, seen == {'ret', 'void', 'refused'} and len(thr) == 1, 'found %s' % seen)
        for h in thr:
            S = ctx.run(h, opaque=('kfiber_wakeup2', 'kfiber_wakeup_ts', CUR, TLS)); f = ctx.args[0]
            for s in S:
                ic = [e for e in s.flat() if e.kind == 'icall']; wk = [e for e in s.flat() if is_call(e, 'kfiber_wakeup2', 'kfiber_wakeup_ts')]
                ok = len(ic) == 1 and decode(ic[0].x) == (f, START) and decode(ic[0].args[0]) == (f, ARG) and decode(ic[0].args[1]) == (f, RV)
                ctx.ob('call-run', h + tag, ok, 'the function runs exactly once, with the arguments it was given', s)
                wa = wk[0].args if wk else (); who = wa[1] if wk and wk[0].name == 'kfiber_wakeup2' else wa[0] if wk else None
                ok = ok and len(wk) == 1 and who is f and wa[-1] is ic[0].ret and index_of(s.flat(), wk[0]) > index_of(s.flat(), ic[0]) and (wk[0].name != 'kfiber_wakeup2' or decode(wa[0]) == (f, SEL))
                o = wa[-2] if len(wa) > 2 else None
                if ok and tags: ok = tags == {'arg' if decode(o) == (f, ARG) else 'fiber' if o is f else 'null' if isnull(s.final.facts, o) else repr(o)}
                ctx.ob('call-done', h + tag, ok, 'the calling fiber is resumed once, on its own loop, with the function\'s result', s)
    ctx.cfg = 'epoll'
