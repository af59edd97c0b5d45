"""The small parts everything else stands on: counters, shared text, chains, plain files."""
from fw import *
import ir, absint
from sync import fld
from tls import only
from pool import isheap
from bufs import peq

def counters_(ctx):
    """one indivisible step of the right size, and the value it promises"""
    var, val, cmp_ = sym('arg:var'), sym('arg:value'), sym('arg:compare')
    W = {'': 4, '16': 2, '64': 8}
    def obs(fn, w, want, answer):
        """want: change of the variable as a term, or ('set', term); answer: what is returned ('new', 'old', None)"""
        for p in ctx.run(fn, args=[var, val]):
            at_ = [e for e in p.flat() if e.kind == 'atomic']; plain = [e for e in p.flat() if e.kind == 'st' and e.args[0] is var]
            ok = len(at_) == 1 and not plain
            if ok:
                e = at_[0]; d = None
                ok = e.args[0] is var and cv(e.args[1]) == 0 and cv(e.args[-1]) == w
                if e.name == 'add': d = e.args[2]
                elif e.name == 'sub': d = sub(ZERO, e.args[2])
                if want[0] == 'add': ok = ok and d is not None and peq(d, want[1])
                else: ok = ok and e.name == 'xchg' and e.args[2] is want[1]
                old = e.ret
                if answer == 'old': ok = ok and p.ret is old
                elif answer == 'new': ok = ok and d is not None and peq(p.ret, add(old, d))
            ctx.ob('counter', fn, ok, 'the counter is changed in one indivisible step', p)
    for sx in ('', '16', '64'):
        w = W[sx]
        obs('katom_inc' + sx, w, ('add', C(1)), 'new'); obs('katom_dec' + sx, w, ('add', C(-1)), 'new'); obs('katom_set' + sx, w, ('set', val), 'old')
        if sx != '16': obs('katom_get' + sx, w, ('add', ZERO), 'old'); obs('katom_add' + sx, w, ('add', val), 'old'); obs('katom_sub' + sx, w, ('add', sub(ZERO, val)), 'old')
        fn = 'katom_cas' + sx; cs = set()
        for p in ctx.run(fn, args=[var, cmp_, val]):
            at_ = [e for e in p.flat() if e.kind == 'atomic']; plain = [e for e in p.flat() if e.kind == 'st' and e.args[0] is var]; r = p.const(p.ret); cs.add(r)
            ok = len(at_) == 1 and not plain and at_[0].args[0] is var and cv(at_[0].args[1]) == 0 and cv(at_[0].args[-1]) == w and at_[0].args[2] is cmp_ and at_[0].args[3] is val and at_[0].name in ('cas', 'cas-fail') and r == (1 if at_[0].name == 'cas' else 0)
            ctx.ob('counter-cas', fn, ok, 'the exchange is one indivisible step and says whether it happened', p)
        ctx.ob('counter-cas', fn, cs == {0, 1}, 'found %s' % cs)

def text(ctx):
    T = 'kgl_ref_str_t'; DATA, LEN, REF = fld(ctx, T, 'data', 'len', 'ref'); s_ = sym('arg:s')
    for fn in ('kstring_refs', 'kstring_release'):
        cs = set()
        for cfg in ('epoll', 'ndebug'):
            ctx.cfg = cfg
            for p in ctx.run(fn, args=[s_], record_loads=True):
                F = p.final.facts; ev = p.flat(); fr = only(ev, 'free'); ch = [e for e in ev if e.kind == 'atomic' and e.args[0] is s_ and cv(e.args[1]) == REF and not (e.name == 'add' and isc(e.args[2]) and cv(e.args[2]) == 0)]
                no = truth(F, t_eq(s_, ZERO)); plain = [e for e in ev if e.kind == 'st' and e.args[0] is s_]
                if no is not False: cs.add('none'); ctx.ob('text-none', fn, no is True and not ch and not fr and (fn == 'kstring_release' or isnull(F, p.ret)), 'no text, nothing to do', p); continue
                def d(e): return cv(e.args[2]) * (1 if e.name == 'add' else -1) if e.name in ('add', 'sub') and isc(e.args[2]) else None
                if fn == 'kstring_refs':
                    cs.add('some'); ctx.ob('text-refs', fn, [d(e) for e in ch] == [1] and not plain and not fr and p.ret is s_, 'one more holder', p); continue
                ok = len(ch) == 1 and d(ch[0]) == -1 and cv(ch[0].args[-1]) == 4 and not plain
                if not ctx.ob('text-release', fn, ok, 'one holder less, in one indivisible step', p): continue
                last = truth(F, t_eq(ch[0].ret, ONE)); dat = [e for e in fr if decode(e.args[0]) == (s_, DATA)]; me = [e for e in fr if e.args[0] is s_]
                cs.add(last)
                if last is True:
                    nod = truth(F, t_eq(initial(s_, DATA), ZERO))
                    ctx.ob('text-free', fn, len(me) == 1 and (len(dat) == 1 or nod is True and not dat) and len(fr) == len(me) + len(dat) and not [e for e in ev[index_of(ev, me[0]) + 1:] if e.kind in ('ld', 'st', 'atomic') and ptr_root(e.args[0]) is s_], 'the last holder gives back the text and its record, once', p)
                else: ctx.ob('text-free', fn, last is False and not fr, 'with other holders left nothing is given back', p)
        ctx.ob('text-cases', fn, cs == ({'none', 'some'} if fn == 'kstring_refs' else {'none', True, False}), 'found %s' % cs)
    ctx.cfg = 'epoll'
    for fn in ('convert_refs_string', 'kstring_from', 'kstring_from2'):
        cs = set()
        for p in ctx.run(fn):
            F = p.final.facts; ev = p.flat(); a = ctx.args; dup = [e for e in ev if e.kind == 'call' and e.name in ('strndup', 'strdup')]; ln = only(ev, 'strlen'); r = p.ret
            if fn == 'kstring_from' and truth(F, t_eq(a[0], ZERO)) is True: cs.add('none'); ctx.ob('text-none', fn, isnull(F, r) and not dup, 'no text, no record', p); continue
            if not isheap(r): ctx.ob('text-new', fn, isnull(F, r), 'a record of its own', p); continue
            cs.add('some'); n = a[1] if fn != 'kstring_from' else ln[0].ret if ln else None; data = final(ctx, p, r, DATA)
            own = data is a[0] if fn == 'convert_refs_string' else len(dup) == 1 and dup[0].args[0] is a[0] and data is dup[0].ret and (dup[0].name == 'strdup' and fn == 'kstring_from' or dup[0].name == 'strndup' and dup[0].args[1] is n)
            if fn == 'kstring_from2' and own and len(ln) == 1 and ln[0].args[0] is dup[0].ret: n = ln[0].ret          # the length of the copy: a text without zero byte
            l_ = final(ctx, p, r, LEN, 4); fits = l_ is n or peq(l_, n) if n is not None else dup and dup[0].name == 'strdup'
            ctx.ob('text-new', fn, own and p.const(final(ctx, p, r, REF, 4)) == 1 and bool(fits), 'a new record has one holder, its text and its length', p)
        ctx.ob('text-cases', fn, 'some' in cs and (fn != 'kstring_from' or 'none' in cs), 'found %s' % cs)

def chains(ctx):
    PREV, NEXT = fld(ctx, 'kgl_list_s', 'prev', 'next'); FN, = fld(ctx, 'kgl_forward_list_s', 'next')
    H = sym('al', 'head'); X = sym('al', 'new'); N = [sym('al', 'n%d' % i) for i in range(4)]
    def ring(k, double=True):
        def f(E, st):
            m = st.wmem(); r = [H] + N[:k]
            for i, n in enumerate(r):
                if double: m[(n, PREV)] = (r[i - 1], 8, None); m[(n, NEXT)] = (r[(i + 1) % len(r)], 8, None)
                else: m[(n, FN)] = (r[(i + 1) % len(r)], 8, None)
                assume(st.facts, t_eq(n, ZERO), False)
            assume(st.facts, t_eq(X, ZERO), False)
        return f
    def walk(p, off, lim=8):
        out = []; n = final(ctx, p, H, off)
        while n is not H and len(out) < lim: out.append(n); n = final(ctx, p, n, off)
        return out
    def run(fn, k, args, double=True, **kw):
        S = ctx.e.run(fn, Cfg(cut=8, havoc='none', **kw), setup=ring(k, double), args=args); ctx.npaths += len(S); ctx.entries.add(fn)
        if not S: raise AnalysisError('%s has no path' % fn)
        return S
    def both_ways(p, want): return p.kind != 'cut' and walk(p, NEXT) == want and walk(p, PREV) == want[::-1]
    for k in range(4):
        for i in range(k + 1):
            before = ([*N[:k], H])[i]
            for p in run('verif_klist_insert', k, [before, X]): ctx.ob('chain-insert', 'klist_insert', both_ways(p, N[:i] + [X] + N[i:k]), 'the new link stands in front of the given one', p)
        for p in run('verif_klist_append', k, [H, X]): ctx.ob('chain-append', 'klist_append', both_ways(p, N[:k] + [X]), 'the new link stands last', p)
        for i in range(k):
            for p in run('verif_klist_remove', k, [N[i]]): ctx.ob('chain-remove', 'klist_remove', both_ways(p, N[:i] + N[i + 1:k]), 'exactly the given link leaves', p)
        for p in run('verif_klist_empty', k, [H]): ctx.ob('chain-empty', 'klist_empty', p.const(p.ret) == int(k == 0), 'a chain is empty when nothing is linked', p)
        for fn, want in (('verif_klist_foreach', N[:k]), ('verif_klist_rforeach', N[:k][::-1])):
            for p in run(fn, k, [H, sym('arg:f')]): ctx.ob('chain-walk', fn[6:], p.kind != 'cut' and [e.args[0] for e in p.flat() if e.kind == 'icall'] == want, 'each link is visited once, in order', p)
        for p in run('verif_klist_init', k, [H]): ctx.ob('chain-init', 'klist_init', both_ways(p, []), 'a new chain is empty', p)
        # one way
        for p in run('kforward_list_append', k, [H, X], False): ctx.ob('forward-append', 'kforward_list_append', walk(p, FN) == [X] + N[:k], 'the new link stands first', p)
        for p in run('kforward_list_empty', k, [H], False): ctx.ob('forward-empty', 'kforward_list_empty', p.const(p.ret) == int(k == 0), 'a chain is empty when nothing is linked', p)
        for p in run('kforward_list_init', k, [H], False): ctx.ob('forward-init', 'kforward_list_init', walk(p, FN) == [], 'a new chain is empty', p)
        for i in range(k + 1):
            t = ([*N[:k], X])[i]
            for p in run('kfoward_list_remove', k, [H, t], False): ctx.ob('forward-remove', 'kfoward_list_remove', p.kind != 'cut' and walk(p, FN) == [n for n in N[:k] if n is not t] and p.const(p.ret) == int(i < k), 'the given link leaves if it is there, nothing else', p)

def blocks(ctx):
    counters_(ctx); text(ctx); chains(ctx)
    # the total of a list of buffers
    B, LN = fld(ctx, 'iovec', 'iov_base', 'iov_len'); b = sym('al', 'bufs'); fn = 'kgl_get_bufs_size'
    for k in range(4):
        def su(E, st):
            for j in range(k): st.wmem()[(b, 16 * j + LN)] = (sym('len%d' % j), 8, None)
        for p in ctx.e.run(fn, Cfg(cut=8, havoc='none'), setup=su, args=[b, C(k)]):
            want = ZERO
            for j in range(k): want = add(want, sym('len%d' % j))
            ctx.ob('bufs-size', fn, p.kind != 'cut' and peq(p.ret, want), 'every buffer of the list counts once', p)
    return locals()

def files(ctx):
    V = ir.macro_values(['O_RDONLY', 'O_WRONLY', 'O_RDWR', 'O_CREAT', 'O_TRUNC', 'O_APPEND', 'O_CLOEXEC', 'O_NOFOLLOW', 'O_DSYNC', 'O_NOATIME', 'O_LARGEFILE', 'SEEK_SET', 'SEEK_CUR', 'SEEK_END', 'S_IFMT', 'S_IFREG', 'KFILE_TEMP_MODEL', 'KFILE_ASYNC', 'KFILE_NOFOLLOW', 'KFILE_DSYNC', 'KFILE_SEQUENTIAL', 'KFILE_NOATIME'], ['<fcntl.h>', '<sys/stat.h>', '<unistd.h>', '"kfile.h"'])
    E_ = ctx.p.enum; path = sym('arg:path')
    modes = {'fileRead': V['O_RDONLY'], 'fileAppend': V['O_WRONLY'] | V['O_APPEND'] | V['O_CREAT'], 'fileModify': V['O_WRONLY'] | V['O_CREAT'], 'fileWrite': V['O_WRONLY'] | V['O_CREAT'] | V['O_TRUNC'], 'fileReadWrite': V['O_RDWR'], 'fileWriteRead': V['O_RDWR'] | V['O_CREAT'] | V['O_TRUNC']}
    opt = {'KFILE_NOFOLLOW': 'O_NOFOLLOW', 'KFILE_DSYNC': 'O_DSYNC', 'KFILE_NOATIME': 'O_NOATIME'}
    fn = 'kfopen'; flags = ['KFILE_TEMP_MODEL', 'KFILE_ASYNC', 'KFILE_NOFOLLOW', 'KFILE_DSYNC', 'KFILE_SEQUENTIAL', 'KFILE_NOATIME']
    for m, w in modes.items():
        for bits in range(64):
            on = [f for j, f in enumerate(flags) if bits >> j & 1]; v = sum(V[f] for f in on); want = w | V['O_CLOEXEC']
            for f in on: want |= V[opt[f]] if f in opt else 0
            for p in ctx.run(fn, args=[path, C(E_(m)), C(v)]):
                o = [e for e in p.flat() if e.kind == 'call' and e.name in ('open', 'open64', 'openat')]
                a = o[0].args[1:] if o and o[0].name == 'openat' else o[0].args if o else ()
                ok = len(o) == 1 and a[0] is path and p.const(a[1]) is not None and p.const(a[1]) & ~V['O_LARGEFILE'] == want & ~V['O_LARGEFILE'] and (not want & V['O_CREAT'] or len(a) > 2 and p.const(a[2]) == 0o644) and p.ret is o[0].ret
                ctx.ob('open', fn, ok, '%s with %s opens as asked: %s' % (m, ' '.join(on) or 'no option', oct(p.const(a[1])) if o and p.const(a[1]) is not None else '?'), p)
    fn = 'kfseek'; fp, n = sym('arg:fp'), sym('arg:len')
    for m, w in (('seekBegin', 'SEEK_SET'), ('seekEnd', 'SEEK_END'), ('seekCur', 'SEEK_CUR')):
        for p in ctx.run(fn, args=[fp, n, C(E_(m))], exact=True):
            o = [e for e in p.flat() if e.kind == 'call' and e.name in ('lseek', 'lseek64')]; F = p.final.facts
            if not ctx.ob('seek', fn, len(o) == 1 and o[0].args[0] is fp and o[0].args[1] is n and p.const(o[0].args[2]) == V[w], 'the place is counted from where asked', p): continue
            for bad in (False, True):
                f = dict(F)
                try: assume(f, t_eq(o[0].ret, C(-1)), bad)
                except absint.Infeasible: continue
                ctx.ob('seek-result', fn, truth(f, p.ret) is (not bad), 'success is reported exactly when the system went there', p)
    # what the system knows about a file
    SZ, MT, MD = fld(ctx, 'stat', 'st_size', 'st_mtim', 'st_mode')
    for fn, off, calls_ in (('kfsize', SZ, ('fstat', 'fstat64')), ('kftime', MT, ('fstat', 'fstat64')), ('kfile_last_modified', MT, ('lstat', 'lstat64'))):
        cs = set()
        for p in ctx.run(fn):
            h = ctx.args[0]; F = p.final.facts; o = [e for e in p.flat() if e.kind == 'call' and e.name in calls_]
            if not ctx.ob('stat', fn, len(o) == 1 and o[0].args[0] is h, 'the system is asked once about the file', p): continue
            b = o[0].args[1]; good = truth(F, t_eq(o[0].ret, ZERO)); d = decode(p.ret)
            if d == (b, off):
                md = [t for t in F if t.op == 'and' and isc(t.args[1]) and cv(t.args[1]) == V['S_IFMT'] and decode(t.args[0]) == (b, MD)]
                cs.add('yes'); ctx.ob('stat-answer', fn, good is True and (fn != 'kfile_last_modified' or any(interval(F, t) == (V['S_IFREG'],) * 2 for t in md)), 'the answer is the one of the system, when it knows', p)
            else: cs.add('no'); ctx.ob('stat-answer', fn, p.const(p.ret) == 0 and (good is False or fn == 'kfile_last_modified'), 'otherwise the answer is zero', p)
        ctx.ob('stat-cases', fn, cs == {'yes', 'no'}, 'found %s' % cs)
    fn = 'kfutime'
    for p in ctx.run(fn, cut=4, havoc='none'):
        if p.kind == 'cut': continue
        h, t = ctx.args; F = p.final.facts; o = only(p.flat(), 'futimens')
        ok = len(o) == 1 and o[0].args[0] is h and all(at(ctx, o[0], o[0].args[1], k) is t for k in (0, 16)) and all(p.const(at(ctx, o[0], o[0].args[1], k)) == 0 for k in (8, 24))
        ctx.ob('utime', fn, ok, 'both times are set to the second asked for', p)
        for bad in (False, True):
            f = dict(F)
            if not o: break
            try: assume(f, t_eq(o[0].ret, ZERO), not bad)
            except absint.Infeasible: continue
            ctx.ob('utime-result', fn, truth(f, p.ret) is (not bad), 'success is reported exactly when the system did it', p)
    # reading a whole piece
    fn = 'kfread_all'; buf = sym('al', 'buf'); ctx.entries.add(fn); seen = set()
    def outcomes(left):
        """every sequence of answers the reads for `left` bytes can get: pieces, then all of it, or a read that gives nothing"""
        if left <= 0: yield (); return
        for r in range(-1, left + 1):
            if r <= 0: yield (r,)
            else: yield from ((r,) + q for q in outcomes(left - r))
    for n in range(-1, 5):
        for rs in outcomes(n):
            def read(E, st, fr, i, args, work):
                k = st.user.get('reads', 0); r = C(rs[k]) if k < len(rs) else C(-1)
                fr.env[i['i']] = r; st.user = dict(st.user, reads=k + 1); E.emit(st, 'call', 'read', args, r, i)
            P = ctx.e.run(fn, Cfg(cut=n + 4, havoc='none', models={'read': read}), args=[fp, buf, C(n)], setup=lambda E, st: assume(st.facts, t_eq(buf, ZERO), False)); ctx.npaths += len(P); m = 0
            for p in P:
                m += 1; rd = only(p.flat(), 'read'); done = 0; ok = p.kind != 'cut' and len(rd) == len(rs)
                for r, e in zip(rs, rd):
                    d = pdiff(e.args[1], buf); ok = ok and e.args[0] is fp and d is not None and p.const(d) == done and p.const(e.args[2]) == n - done; done += r
                inst = fn + ', %d bytes' % n
                ctx.ob('read-all', inst, ok, 'each read goes on where the one before ended, for what is still missing', p)
                good = not rs or rs[-1] > 0; seen.add(good)
                ctx.ob('read-all-result', inst, p.kind != 'cut' and truth(p.final.facts, p.ret) is good, 'success is reported exactly when everything has been read', p)
            ctx.ob('read-all-cases', fn, m > 0, 'the reading ends', None)
    ctx.ob('read-all-cases', fn, seen == {True, False}, 'found %s' % seen)
    return locals()
