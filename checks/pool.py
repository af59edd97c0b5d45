"""Memory pools and growing arrays: every piece inside its block, everything given back exactly once."""
from fw import *
import ir, itertools
from sync import fld, calls
from tls import only, flat2

ALLOC = ('malloc', 'calloc', 'realloc', 'memalign', 'posix_memalign', 'aligned_alloc', 'valloc', 'strdup')
def exhausted(ctx):
    """memory running out at every possible point of every call that takes memory"""
    LAST, END, NEXT = fld(ctx, 'kgl_pool_data_t', 'last', 'end', 'next')
    MAX, CURRENT, LARGE, CLEAN = fld(ctx, 'kgl_pool_s', 'max', 'current', 'large', 'cleanup')
    AE, AN, AS, AA, AP = fld(ctx, 'kgl_array_t', 'elts', 'nelts', 'size', 'nalloc', 'pool')
    pool, arr, elts, h, dat = (sym('al', x) for x in ('pool', 'array', 'elements', 'handler', 'data'))
    mem = [sym('al', 'memory%d' % i) for i in range(4)]
    def su(E, st):
        m = st.wmem()
        for x in [pool, arr, elts, h, dat] + mem: assume(st.facts, t_eq(x, ZERO), False)
        for o in range(0, ctx.p.sizeof('kgl_pool_s'), 8): m[(pool, o)] = (ZERO, 8, None)
        m[(pool, LAST)] = m[(pool, END)] = (ptradd(pool, 1024), 8, None); m[(pool, CURRENT)] = (pool, 8, None); m[(pool, MAX)] = (C(900), 8, None)
        for o, v in ((AE, elts), (AN, C(3)), (AS, C(8)), (AA, C(3)), (AP, pool)): m[(arr, o)] = (v, 8, None)
    ENT = (('kgl_create_pool', [C(2048)]), ('kgl_palloc', [pool, C(16)]), ('kgl_palloc', [pool, C(4000)]), ('kgl_pnalloc', [pool, C(9)]), ('kgl_pnalloc', [pool, C(4000)]), ('kgl_pmemalign', [pool, C(512), C(512)]),
           ('kgl_array_create', [pool, C(4), C(8)]), ('kgl_array_create', [pool, C(900), C(8)]), ('kgl_array_push', [arr]), ('kgl_array_push_n', [arr, C(2)]), ('kgl_array_push_n', [arr, C(900)]), ('kgl_cleanup_add', [pool, h, dat]), ('kgl_cleanup_insert', [pool, h]))
    for fn, args in ENT:
        if fn not in ctx.p.funcs: continue
        for script in itertools.product((1, 0), repeat=3):
            def al(name):
                def f(E, st, fr, i, a, work):
                    k = st.user.get('k', 0); ok = script[min(k, 2)]; r = mem[min(k, 3)] if ok else ZERO
                    st.user = dict(st.user, k=k + 1); fr.env[i['i']] = r
                    if name == 'posix_memalign': st.wmem()[ptr_split(a[0])] = (r, 8, None); fr.env[i['i']] = ZERO if ok else C(12)
                    E.emit(st, 'call', 'take', a, r, i); return None
                return f
            P = ctx.e.run(fn, Cfg(cut=4, havoc='none', models={n: al(n) for n in ALLOC}), setup=su, args=args); ctx.npaths += len(P); ctx.entries.add(fn); nd = list(ctx.e.nullderefs); n = 0
            what = 'asked for %s, memory %s' % (', '.join(show(a) for a in args if isc(a)) or 'room', '/'.join('found' if x else 'missing' for x in script))
            for p in P:
                if p.kind == 'cut' or any(isnull(p.final.facts, x) for x in p.final.facts if x.syms and set(x.syms) & set(mem + [pool])): continue      # a piece at address 0
                n += 1; ev = p.flat(); t = [e for e in ev if e.name == 'take']; lost = [e for e in t if e.ret is ZERO]; none = p.const(p.ret) == 0
                ctx.ob('exhausted', fn, none == bool(lost), '%s: the answer is %s' % (what, 'nothing' if none else 'a piece of memory'), p)
                if not lost: continue
                for e in t:
                    if e.ret is ZERO: continue
                    fr = [x for x in ev if is_call(x, 'free') and x.args[0] is e.ret]; kept = [x for x in ev if x.kind == 'st' and len(x.args) > 2 and x.args[2] is e.ret and ptr_root(x.args[0]) is not e.ret]
                    ctx.ob('exhausted', fn, len(fr) == 1 and not kept or not fr and bool(kept), '%s: memory already taken is neither given back nor kept in the pool' % what, p)
                if fn.startswith('kgl_array_push'): ctx.ob('exhausted', fn, all(final(ctx, p, arr, o) is v or p.const(final(ctx, p, arr, o)) == 3 for o, v in ((AE, elts), (AN, None), (AA, None))), '%s: the array changed' % what, p)
                ctx.ob('exhausted', fn, fn == 'kgl_create_pool' or p.const(final(ctx, p, pool, LARGE)) == 0, '%s: a large piece that is not there is remembered' % what, p)
                if fn.startswith('kgl_cleanup'): ctx.ob('exhausted', fn, p.const(final(ctx, p, pool, CLEAN)) == 0, '%s: a handler was remembered' % what, p)
            ctx.ob('exhausted', fn, n > 0 and not nd, '%s: %s' % (what, 'memory that is not there is used' if nd else 'the call does not end'))

def pools(ctx):
    exhausted(ctx)
    c = sym('al', 'cleanup'); v = sym('al', 'value'); CDATA = ctx.off('kgl_cleanup_s', 'data')
    for p in ctx.run('kgl_cleanup_set_data', args=[c, v]): ctx.ob('cleanup-data', 'kgl_cleanup_set_data', final(ctx, p, c, CDATA) is v and len(list(stores(p.events))) == 1, 'the data of a clean-up handler is replaced, nothing else', p)
    for p in ctx.run('kgl_cleanup_get_data', args=[c]): ctx.ob('cleanup-data', 'kgl_cleanup_get_data', p.ret is initial(c, CDATA), 'the data of a clean-up handler is what was given', p)
    LAST, END, NEXT = fld(ctx, 'kgl_pool_data_t', 'last', 'end', 'next'); PD = ctx.p.sizeof('kgl_pool_data_t'); PS = ctx.p.sizeof('kgl_pool_s')
    MAX, CURRENT, LARGE, CLEAN = fld(ctx, 'kgl_pool_s', 'max', 'current', 'large', 'cleanup')
    LN, LA = fld(ctx, 'kgl_pool_large_s', 'next', 'alloc'); LS = ctx.p.sizeof('kgl_pool_large_s')
    CH, CD, CN = fld(ctx, 'kgl_cleanup_s', 'handler', 'data', 'next'); CS = ctx.p.sizeof('kgl_cleanup_s')
    AE, AN, AS, AA, AP = fld(ctx, 'kgl_array_t', 'elts', 'nelts', 'size', 'nalloc', 'pool'); ASZ = ctx.p.sizeof('kgl_array_t')
    def walkers(s, off):
        """{walking symbol: start} of the loops that follow field off"""
        return {w: st for e, st, w in traversals(s.events, off)}
    def chain(x, W, head, off, depth=0):
        """x is an element of the list that starts with the value(s) head and is linked through off"""
        if depth > 8: return False
        if any(x is h for h in head) or decode(x) in head: return True
        if x in W: return chain(W[x], W, head, off, depth + 1)
        d = decode(x)
        return d is not None and d[1] == off and chain(d[0], W, head, off, depth + 1)
    def num(t):
        """an aligned address inside a fresh block is a constant offset"""
        if t.op == 'and' and isc(t.args[1]):
            a, m = t.args[0], cv(t.args[1]); k, d = lin_parts(a)
            if len(d) == 1:
                (h, n), = d.items() if isinstance(d, dict) else d
                if n == 1 and isheap(h) and -m <= 16: return h, k & m
        b, o = ptr_split(t)
        if isheap(b): return b, o
        k, d = lin_parts(t)
        if len(d) == 1:
            (h, n), = d.items() if isinstance(d, dict) else d
            if n == 1 and isheap(h): return h, k
        return None
    def aligned(t):
        n = num(t)
        if n is not None: return n[1] % 8 == 0
        if t.op == 'and' and isc(t.args[1]): return cv(t.args[1]) % 8 == 0 and cv(t.args[1]) < 0
        return False
    def takes(s): return [e for e in s.flat() if e.kind == 'st' and e.x and e.x[0] == 'kgl_pool_data_t' and e.x[1] == LAST]
    def fits(F, b, start, n):
        end = initial(b, END)
        if is_ult(F, end, add(start, n)) is False or ev_cond(F, t_slt(end, add(start, n))) is False: return True
        if not (start is initial(b, LAST) or ev_cond(F, t_ult(end, start)) is False or ev_cond(F, t_slt(end, start)) is False): return False
        return is_ult(F, sub(end, start), n) is False or ev_cond(F, t_slt(sub(end, start), n)) is False
    def taken(rule, fn, s, pool, n, want, e, algn):
        """the single step e of a block's free space gives `want`, n bytes"""
        F = s.final.facts; b, o = e.args[0], e.args[1]; start = sub(e.args[2], n) if not isc(n) or e.args[2].op != 'gep' else ptradd(e.args[2], -cv(n))
        ok = same_addr(start, want) 
        ctx.ob(rule + '-result', fn, ok, 'the piece returned is the one that was taken from the block', s)
        if algn: ctx.ob(rule + '-aligned', fn, aligned(want), 'the piece is aligned for any word', s)
        if isheap(b):
            mk_ = [c for c in only(s.flat(), 'memalign') if c.ret is b]; at0 = num(want)
            ok = len(mk_) == 1 and s.const(mk_[0].args[0]) in (16, 32, 64) and same_addr(mk_[0].args[1], sub(initial(pool, END), pool)) and at0 is not None and at0[0] is b and PD <= at0[1] <= PS
            ok = ok and (isc(n) and cv(n) <= LS or is_ult(F, initial(pool, MAX), n) is False)
            ctx.ob(rule + '-block', fn, ok, 'a fresh block is as large as the first and has room for the piece behind its header', s)
            ok = same_addr(sub(final(ctx, s, b, END), b), sub(initial(pool, END), pool)) and same(F, final(ctx, s, b, NEXT), ZERO)
            ctx.ob(rule + '-header', fn, ok, 'the fresh block ends where its memory ends and is the last of the chain', s)
            lk = [x for x in s.flat() if x.kind == 'st' and x.args[2] is b and x.x and x.x[0] == 'kgl_pool_data_t' and x.x[1] == NEXT]; W = walkers(s, NEXT)
            ok = len(lk) == 1 and isnull(F, initial(lk[0].args[0], lk[0].args[1])) and chain(ptradd(lk[0].args[0], lk[0].args[1] - NEXT), W, (pool, (pool, CURRENT)), NEXT)
            ctx.ob(rule + '-linked', fn, ok, 'the fresh block is appended to the chain, cutting off nothing', s); return 'block'
        ok = chain(ptradd(b, o - LAST), walkers(s, NEXT), (pool, (pool, CURRENT)), NEXT) and fits(F, ptradd(b, o - LAST), start, n)
        ok = ok and (start is initial(b, o) or aligned(start) and rests_on(start, initial(b, o)))
        ctx.ob(rule + '-fits', fn, ok, 'the piece lies behind what was taken before and ends within the block', s)
        return 'piece'
    def rests_on(t, x):
        """t is x rounded up"""
        if t.op != 'and': return False
        k, d = lin_parts(t.args[0]); m = -cv(t.args[1]); it = list(d.items() if isinstance(d, dict) else d)
        return len(it) == 1 and it[0] == (x, 1) and k == m - 1
    def same_addr(a, b):
        if a is None or b is None: return a is b
        if a is b: return True
        return poly(a) == poly(b)
    def current_ok(fn, s, pool):
        for e in s.flat():
            if e.kind == 'st' and e.args[0] is pool and e.args[1] == CURRENT:
                v = e.args[2]
                ctx.ob('current', fn, (v is pool or chain(v, walkers(s, NEXT), (pool, (pool, CURRENT)), NEXT) or isheap(v)) and (v is pool or nonnull(e.snap.facts, v)), 'the block searched first is always one of the pool', s)
    def record(fn, s, pool, mem):
        """mem is noted in the pool as a large piece: -> kind"""
        F = s.final.facts; st = [e for e in s.flat() if e.kind == 'st' and e.args[2] is mem and e.x and e.x[0] == 'kgl_pool_large_s']
        if not ctx.ob('large-noted', fn, len(st) == 1 and st[0].x[1] == LA, 'memory of its own is noted once in the pool', s): return None
        r = ptradd(st[0].args[0], st[0].args[1] - LA); heads = [e for e in s.flat() if e.kind == 'st' and e.args[0] is pool and e.args[1] == LARGE]
        if not takes(s):
            ok = not heads and isnull(F, initial(st[0].args[0], st[0].args[1])) and chain(r, walkers(s, LN), ((pool, LARGE),), LN)
            ctx.ob('large-reused', fn, ok, 'only an empty note of the pool is used again', s); return 'reuse'
        t = takes(s)
        if not ctx.ob('large-note', fn, len(t) == 1, 'one new note', s): return None
        taken('note', fn, s, pool, C(LS), r, t[0], True)
        ok = len(heads) == 1 and heads[0].args[2] is r and final(ctx, s, r, LN) is initial(pool, LARGE)
        ok = ok or len(heads) == 1 and same_addr(heads[0].args[2], r) and any(e.kind == 'st' and same_addr(ptradd(e.args[0], e.args[1]), ptradd(r, LN)) and e.args[2] is initial(pool, LARGE) for e in s.flat())
        ctx.ob('large-pushed', fn, ok, 'a new note joins the others', s); return 'note'
    # ---- taking memory
    for fn in ('kgl_palloc', 'kgl_pnalloc', 'kgl_pmemalign'):
        S = ctx.run(fn, snap_st=True); pool, size = ctx.args[:2]; seen = set()
        for s in S:
            ev = s.flat(); F = s.final.facts; T = takes(s); m = only(ev, 'malloc') if fn != 'kgl_pmemalign' else [e for e in only(ev, 'memalign') if e.args[1] is size]
            if any(isnull(F, t) for e in T for t in (sub(e.args[2], size), sub(e.args[2], C(LS)))): continue   # a piece at address 0
            current_ok(fn, s, pool); fr = only(ev, 'free')
            if s.const(s.ret) == 0 or isnull(F, s.ret):
                ok = all(isnull(F, e.ret) or any(f.args[0] is e.ret for f in fr) for e in m) and len(fr) <= 1 and all(isnull(F, e.ret) or e in m or T and any(x.kind == 'st' and x.args[2] is e.ret and x.x and x.x[1] == NEXT for x in ev) for e in only(ev, 'memalign'))
                ok = ok and (not T or not [e for e in ev if e.kind == 'st' and e.args[0] is pool and e.args[1] == LARGE] and not [e for e in ev if e.kind == 'st' and e.args[2] in [x.ret for x in m]])
                ctx.ob('take-failed', fn, ok and bool(m or only(ev, 'memalign')), 'memory that could not be had or noted is not kept', s); seen.add('failed'); continue
            ctx.ob('take-free', fn, not fr, 'nothing is freed by a successful request', s)
            if m:
                ok = len(m) == 1 and s.ret is m[0].ret and (m[0].args[0] is size if fn != 'kgl_pmemalign' else m[0].args[0] is ctx.args[2])
                ctx.ob('take-large', fn, ok, 'a large request gets memory of its own, of the size (and alignment) asked for', s); seen.add(record(fn, s, pool, m[0].ret)); continue
            if fn == 'kgl_pmemalign': ctx.ob('take-large', fn, False, 'aligned memory is memory of its own', s); continue
            if not ctx.ob('take-once', fn, len(T) == 1, 'one piece per request', s): continue
            seen.add(taken('take', fn, s, pool, size, s.ret, T[0], fn == 'kgl_palloc'))
        want = {'kgl_pmemalign': {'failed', 'note'}}.get(fn, {'failed', 'piece', 'block', 'note'})
        ctx.ob('take-cases', fn, want <= seen, 'found %s' % seen)
    # ---- a new pool
    fn = 'kgl_create_pool'; S = ctx.run(fn); size, = ctx.args; seen = set()
    pg = [sym('m', g, 0, None) for g in ()]
    for s in S:
        ev = s.flat(); F = s.final.facts; m = only(ev, 'memalign')
        if not ctx.ob('create', fn, len(m) == 1 and m[0].args[1] is size and s.const(m[0].args[0]) >= 8, 'a pool is one block of the size asked for', s): continue
        p = m[0].ret
        if isnull(F, p): ctx.ob('create-failed', fn, s.const(s.ret) == 0, 'no memory, no pool', s); seen.add(0); continue
        seen.add(1); g = lambda o: final(ctx, s, p, o); mx = final(ctx, s, p, MAX)
        ok = s.ret is p and num(g(LAST)) == (p, PS) and same_addr(sub(g(END), p), size) and s.const(g(NEXT)) == 0 and g(CURRENT) is p and s.const(g(LARGE)) == 0 and s.const(g(CLEAN)) == 0
        ctx.ob('create-state', fn, ok, 'a new pool is empty and ends where its memory ends', s)
        room = sub(size, C(PS)); ok = same_addr(mx, room) or ev_cond(F, t_ult(mx, room)) is True or ev_cond(F, t_ult(room, mx)) is False
        ctx.ob('create-max', fn, ok, 'what is taken from blocks always fits an empty block', s)
    ctx.ob('create-cases', fn, seen == {0, 1}, 'found %s' % seen)
    # ---- giving back
    def walk(s, fn, rule, off, head, what):
        """loops over the list (pool, head): [(loop, start, w)]"""
        return [(e, st, w) for e, st, w in traversals(s.events, off) if decode(st) == head]
    for fn in ('kgl_destroy_pool', 'kgl_reset_pool'):
        destroy = 'destroy' in fn; S = ctx.run(fn, snap_st=True, backedge=True); pool, = ctx.args; seen = set()
        for s in S:
            F = s.final.facts; ev = s.flat()
            if isnull(F, pool): continue
            for kind, off, head, fld_ in (('cleanup', CN, CLEAN, CH), ('large', LN, LARGE, LA)):
                L = walk(s, fn, kind, off, (pool, head), kind)
                act = lambda g: [e for e in g if e.kind == 'icall'] if kind == 'cleanup' else [e for e in g if is_call(e, 'free') and e.args and decode(e.args[0]) is not None and decode(e.args[0])[1] == LA]
                if not L:
                    tops = [t for t in F if decode(t) == (pool, head) and isnull(F, t)]
                    ctx.ob(kind + '-all', fn, bool(tops) and not act(ev), 'all of them are visited (%s)' % kind, s); continue
                seen.add(kind)
                (loop, start, w) = L[0]
                ctx.ob(kind + '-all', fn, len(L) == 1 and isnull(F, w) or any(decode(t) in ((w, off), (start, off)) and isnull(F, t) for t in F), 'all of them are visited once (%s)' % kind, s)
                some = False
                for g in loop.inst.seglist:
                    A = act(flat2(g)); some = some or bool(A)
                    ok = len(A) <= 1 and all(decode(e.x if kind == 'cleanup' else e.args[0]) in ((w, fld_), (start, fld_)) for e in A)
                    if kind == 'cleanup': ok = ok and all(decode(e.args[0]) in ((w, CD), (start, CD)) and decode(e.args[0])[0] is decode(e.x)[0] and nonnull(e.snap.facts, e.x) for e in A)
                    if not A: ok = any(decode(t) in ((w, fld_), (start, fld_)) and isnull(gf(g, F), t) for t in gf(g, F))
                    ctx.ob(kind + '-each', fn, ok, 'each is handled once with its own data, only an empty one is skipped (%s)' % kind, s)
                ctx.ob(kind + '-some', fn, some, '%s are handled at all' % kind, s)
            ic = [i for i, e in enumerate(ev) if e.kind == 'icall']; fr = [(i, e) for i, e in enumerate(ev) if is_call(e, 'free')]
            ctx.ob('order', fn, not ic or not fr or max(ic) < fr[0][0], 'clean-up runs before any memory goes', s)
            big = [i for i, e in fr if decode(e.args[0]) is not None and decode(e.args[0])[1] == LA]; blk = [(i, e) for i, e in fr if i not in big]
            ctx.ob('order-large', fn, not big or not blk or max(big) < blk[0][0], 'notes are read before their blocks go', s)
            ctx.ob('no-uaf', fn, not [e for e in ev if e.kind == 'uaf'], 'nothing is read from freed memory', s)
            if not destroy:
                ctx.ob('reset-keeps', fn, not blk, 'blocks are kept', s)
                ok = all(s.const(final(ctx, s, pool, o)) == 0 for o in (LARGE, CLEAN)) and final(ctx, s, pool, CURRENT) is pool
                ctx.ob('reset-state', fn, ok, 'nothing of the past is remembered', s)
                B = [(e, st, w) for e, st, w in traversals(s.events, NEXT) if st is pool or decode(st) == (pool, NEXT)]
                done = {e.args[0] for e in ev if e.kind == 'st' and e.x and e.x[0] == 'kgl_pool_data_t' and e.x[1] == LAST and isc(sub(e.args[2], e.args[0])) and (PS if e.args[0] is pool else PD) <= cv(sub(e.args[2], e.args[0])) <= PS}
                sts = {e.args[0] for e in ev if e.kind == 'st' and e.x and e.x[0] == 'kgl_pool_data_t' and e.x[1] == LAST}
                ok = pool in done and done == sts
                if B:
                    seen.add('blocks')
                    l, st, w = B[0]; ok = ok and (isnull(F, w) or any(decode(t) == (w, NEXT) and isnull(F, t) for t in F)) and all(any(e.kind == 'st' and e.args[0] in (w, st, pool) and e.x and e.x[1] == LAST and e.x[0] == 'kgl_pool_data_t' for e in flat2(g)) for g in l.inst.seglist)
                else: ok = ok and any(decode(t) == (pool, NEXT) and isnull(F, t) for t in F)
                ctx.ob('reset-blocks', fn, ok, 'every block is empty again behind its header', s)
                continue
            # blocks: pool, pool->next, ... each freed once
            loops = [e for e in s.events if e.kind == 'loop' and any(is_call(x, 'free') and not (decode(x.args[0]) is not None and decode(x.args[0])[1] == LA) for g in e.inst.seglist for x in flat2(g))]
            top = [e for e in s.events if is_call(e, 'free')]
            if not loops:
                ctx.ob('blocks', fn, [e.args[0] for e in top] == [pool] and any(decode(t) == (pool, NEXT) and isnull(F, t) for t in F), 'a pool of one block frees that one', s); continue
            seen.add('blocks')
            l = loops[0]; SL = {w: (st, news) for slot, st, w, news in _slots_(l)}; ok = len(loops) == 1
            P = [(w, st, news) for w, (st, news) in SL.items() if st is pool]
            if ok and P:
                w, st, news = P[0]; look = None
                for w2, (st2, n2) in SL.items():
                    if decode(st2) == (pool, NEXT) and all(n is w2 or decode(n) in ((w2, NEXT), (st2, NEXT)) for n in n2): look = w2
                step = all(n is w or decode(n) in ((w, NEXT), (pool, NEXT)) or look is not None and (n is look or n is SL[look][0]) for n in news)
                each = all([x.args[0] for x in flat2(g) if is_call(x, 'free')] in ([w], [pool]) for g in l.inst.seglist)
                tail = [e.args[0] for e in top]
                fin = not tail and isnull(F, w) or tail == [w] and (look is not None and isnull(F, look) or any(decode(t) == (w, NEXT) and isnull(F, t) for t in F))
                ok = step and each and fin
            else: ok = False
            ctx.ob('blocks', fn, ok, 'every block of the chain is freed exactly once', s)
        ctx.ob('giveback-cases', fn, {'cleanup', 'large', 'blocks'} <= seen, 'found %s' % seen)
    fn = 'kgl_pfree'; S = ctx.run(fn); pool, p = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; ev = s.flat(); fr = only(ev, 'free'); W = walkers(s, LN)
        if isnull(F, p): continue
        r = truth(F, s.ret) if not isc(s.ret) else cv(s.ret) & 1
        if not fr:
            ctx.ob('pfree-none', fn, not r and not list(e for e in ev if e.kind == 'st' and not locals_of(e.args[0])), 'what is not a large piece of the pool is left alone', s); seen.add('none')
            ok = not W and any(decode(t) == (pool, LARGE) and isnull(F, t) for t in F) or any(isnull(F, w) or any(decode(t) == (w, LN) and isnull(F, t) for t in F) for w in W)
            ctx.ob('pfree-all', fn, ok, 'every note is looked at before giving up', s); continue
        d = decode(fr[0].args[0]) or (p if fr[0].args[0] is p else None)
        cell = [e for e in ev if e.kind == 'st' and e.x and e.x == ('kgl_pool_large_s', LA)]
        ok = r and len(fr) == 1 and len(cell) == 1 and s.const(cell[0].args[2]) == 0 and chain(ptradd(cell[0].args[0], cell[0].args[1] - LA), W, ((pool, LARGE),), LN)
        ok = ok and eqv(s.final, p, fr[0].args[0]) and eqv(s.final, initial(cell[0].args[0], cell[0].args[1]), p)
        ctx.ob('pfree', fn, ok, 'the piece is freed once and its note emptied', s); seen.add('freed')
    ctx.ob('pfree-cases', fn, seen == {'none', 'freed'}, 'found %s' % seen)
    # ---- cleanup handlers
    PA = dict(opaque=('kgl_palloc',), pure=('kgl_palloc',))
    for fn in ('kgl_cleanup_add', 'kgl_cleanup_insert'):
        S = ctx.run(fn, **PA); pool, h = ctx.args[:2]; data = ctx.args[2] if len(ctx.args) > 2 else ZERO; seen = set()
        for s in S:
            F = s.final.facts; ev = s.flat(); a = only(ev, 'kgl_palloc'); W = walkers(s, CN); st = [e for e in ev if e.kind == 'st' and not locals_of(e.args[0])]
            if not a:
                ok = fn == 'kgl_cleanup_insert' and not st and nonnull(F, s.ret) and chain(s.ret, W, ((pool, CLEAN),), CN) and eqv(s.final, initial(s.ret, CH), h)
                ctx.ob('cleanup-found', fn, ok, 'only an entry of the pool with the same handler is returned', s); seen.add('found'); continue
            c = a[0].ret
            if fn == 'kgl_cleanup_insert':
                ok = not W and isnull(F, initial(pool, CLEAN)) or any(isnull(F, w) for w in W)
                ctx.ob('cleanup-searched', fn, ok, 'a second entry for a handler is made only after looking at all', s)
            ok = len(a) == 1 and a[0].args[0] is pool and s.const(a[0].args[1]) >= CS
            ctx.ob('cleanup-memory', fn, ok, 'the entry comes from the pool', s)
            if isnull(F, c): ctx.ob('cleanup-failed', fn, not st and s.const(s.ret) == 0, 'no memory, no entry', s); seen.add('failed'); continue
            ok = s.ret is c and final(ctx, s, c, CH) is h and same(F, final(ctx, s, c, CD), data) and final(ctx, s, c, CN) is initial(pool, CLEAN) and final(ctx, s, pool, CLEAN) is c and len(st) == 4
            ctx.ob('cleanup-added', fn, ok, 'the entry joins the others with its handler and data', s); seen.add('added')
        ctx.ob('cleanup-cases', fn, {'failed', 'added'} <= seen and ('found' in seen) == ('insert' in fn), 'found %s' % seen)
    # ---- arrays
    fn = 'kgl_array_create'; S = ctx.run(fn, **PA); pool, n, size = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; ev = s.flat(); a = only(ev, 'kgl_palloc')
        if s.const(s.ret) == 0 or isnull(F, s.ret): ctx.ob('array-failed', fn, any(isnull(F, e.ret) for e in a), 'only missing memory makes it fail', s); seen.add(0); continue
        seen.add(1); r = s.ret; g = lambda o: final(ctx, s, r, o)
        ok = len(a) == 2 and r is a[0].ret and all(e.args[0] is pool for e in a) and s.const(a[0].args[1]) >= ASZ and same_addr(a[1].args[1], mul(n, size)) and g(AE) is a[1].ret and nonnull(F, a[1].ret) and s.const(g(AN)) == 0 and g(AS) is size and g(AA) is n and g(AP) is pool
        ctx.ob('array-new', fn, ok, 'a new array is empty with room for the elements asked for', s)
    ctx.ob('array-cases', fn, seen == {0, 1}, 'found %s' % seen)
    # growing: every way a small array can lie in its block, followed through
    def grow(fn, nalloc, nelts, k, size, last, room):
        """push k elements: (paths, facts about the array before)"""
        a = sym('al', 'array'); P = sym('al', 'block'); el = ptradd(P, 256); top = ptradd(el, size * nalloc + (0 if last else 16)); got = sym('al', 'fresh')
        def setup(E, st):
            for x in (a, P, got): assume(st.facts, t_eq(x, ZERO), False)
            mem = st.wmem()
            for o, v in ((AE, el), (AN, C(nelts)), (AS, C(size)), (AA, C(nalloc)), (AP, P)): mem[(a, o)] = (v, 8, None)
            mem[(P, LAST)] = (top, 8, None); mem[(P, END)] = (ptradd(top, room), 8, None)
        def palloc(E, st, fr, i, args, work):
            r = ZERO if st.user.get('none') else got
            fr.env[i['i']] = r; E.emit(st, 'call', 'kgl_palloc', args, r, i); return None
        for none in (False, True):
            def setup2(E, st, none=none): setup(E, st); st.user = dict(st.user, none=none)
            S = ctx.e.run(fn, Cfg(cut=4, models={'kgl_palloc': palloc}), setup=setup2, args=[a] + ([C(k)] if fn.endswith('_n') else [])); ctx.npaths += len(S)
            yield S, a, P, el, top, got, none
    for fn in ('kgl_array_push', 'kgl_array_push_n'):
        seen = set()
        for nalloc in range(4):
            for nelts in range(nalloc + 1):
                for k in ((1,) if fn == 'kgl_array_push' else (1, 2, 3, 5)):
                    for size in (1, 8):
                        for last in (True, False):
                            for room in (0, size, k * size - 1, k * size, k * size + 1, 64):
                                inst = '%s:%d of %d,%d more' % (fn, nelts, nalloc, k)
                                for S, a, P, el, top, got, none in grow(fn, nalloc, nelts, k, size, last, room):
                                    ctx.ob('push-ends', inst, len(S) > 0 and all(s.kind != 'cut' for s in S), 'adding elements comes to an end')
                                    for s in S:
                                        ev = s.flat(); al = only(ev, 'kgl_palloc'); cp = [e for e in ev if e.kind == 'memcpy']; st = [e for e in ev if e.kind == 'st' and not locals_of(e.args[0])]
                                        g = lambda o: final(ctx, s, a, o); A1 = s.const(g(AA))
                                        if al and none: ctx.ob('push-failed', inst, s.const(s.ret) == 0 and not st and not cp, 'an array that cannot grow is unchanged', s); seen.add('failed'); continue
                                        e1 = g(AE); L1 = final(ctx, s, P, LAST); fits = nelts + k <= nalloc
                                        ok = s.const(g(AN)) == nelts + k and s.const(g(AS)) == size and g(AP) is P and s.ret is ptradd(e1, nelts * size)
                                        ctx.ob('push-element', inst, ok, 'the element(s) right behind the others are returned and counted', s)
                                        if fits:
                                            ctx.ob('push-room', inst, not al and not cp and e1 is el and A1 == nalloc and L1 is top, 'an array with room does not grow', s); seen.add('room')
                                        elif not al:
                                            grown = A1 is not None and A1 >= nelts + k and L1 is ptradd(el, A1 * size) and (A1 - nalloc) * size <= room
                                            ctx.ob('push-in-place', inst, last and grown and e1 is el and not cp, 'an array grows in place only if it is the last of its block and stays inside it', s); seen.add('in-place')
                                        else:
                                            n = s.const(al[0].args[1])
                                            ctx.ob('push-memory', inst, len(al) == 1 and al[0].args[0] is P and e1 is got and A1 is not None and n is not None and n >= A1 * size and L1 is top, 'the array moves to memory of the size it then claims', s)
                                            ctx.ob('push-enough', inst, A1 is not None and A1 >= nelts + k, 'the new memory has room for the old elements and the new', s)
                                            c = sum(s.const(e.args[2]) or 0 for e in cp)
                                            ctx.ob('push-copied', inst, c in (nelts * size, nalloc * size) and len(cp) <= 1 and all(e.args[0] is got and e.args[1] is el for e in cp), 'the old elements move along', s); seen.add('moved')
        ctx.ob('push-cases', fn, seen == {'failed', 'room', 'in-place', 'moved'}, 'found %s' % seen)
    fn = 'kgl_array_destroy'; S = ctx.run(fn); a, = ctx.args; seen = set()
    for s in S:
        F = s.final.facts; P = initial(a, AP); cur = initial(P, LAST); E0 = initial(a, AE); n = mul(initial(a, AS), initial(a, AA))
        for e in s.flat():
            if e.kind != 'st' or locals_of(e.args[0]): continue
            v = e.args[2]; rp = lambda t: subst_eqs(s.final, t)
            r1 = (same_addr(rp(ptr_int(v)), rp(ptr_int(E0))) or same_addr(rp(ptr_int(v)), rp(sub(ptr_int(cur), n)))) and (is_eq(F, add(ptr_int(E0), n), ptr_int(cur)) or is_eq(F, rp(add(ptr_int(E0), n)), rp(ptr_int(cur))))
            r2 = v is a and (is_eq(F, ptradd(a, ASZ), cur) or is_eq(F, rp(ptradd(a, ASZ)), rp(cur)))
            ctx.ob('array-destroy', fn, e.args[0] is P and e.args[1] == LAST and (r1 or r2), 'only memory that was taken last goes back to the block', s); seen.add(1 if r2 else 0); cur = v
    ctx.ob('array-destroy-cases', fn, seen == {0, 1}, 'found %s' % seen)
def isheap(t): return t.op == 'sym' and t.args[0] == 'heap'
def pneg(p): return {m: -c for m, c in p.items()}
def psub(p, q):
    out = dict(p)
    for m, c in q.items(): out[m] = out.get(m, 0) - c
    return {m: c for m, c in out.items() if c}
def is_ult(F, a, b):
    """a < b (unsigned): True, False or None, up to rearrangement"""
    r = ev_cond(F, t_ult(a, b))
    if r is not None: return r
    pa, pb = poly(a), poly(b)
    for t, f in F.items():
        if t.op == 'ult' and f[0] == f[1] and poly(t.args[0]) == pa and poly(t.args[1]) == pb: return bool(f[0])
    return None
def is_eq(F, a, b):
    if a is b or same(F, a, b): return True
    d = psub(poly(a), poly(b))
    return not d or any(f[0] == 0 == f[1] and t.op in ('lin', 'gep') and poly(t) in (d, pneg(d)) for t, f in F.items())
def poly(t):
    """integer term as a polynomial: {monomial (sorted symbols): coefficient}"""
    if isc(t): return {(): cv(t)} if cv(t) else {}
    if t.op in ('lin', 'gep'):
        k, d = lin_parts(t); out = {(): k}
        for x, c in d.items():
            for m, n in (poly(x) if x.op == 'mul' else {(x,): 1}).items(): out[m] = out.get(m, 0) + c * n
    elif t.op == 'mul':
        out = {}
        for m, a in poly(t.args[0]).items():
            for n, b in poly(t.args[1]).items():
                k = tuple(sorted(m + n, key=lambda x: x.id)); out[k] = out.get(k, 0) + a * b
    else: out = {(t,): 1}
    return {m: c for m, c in out.items() if c}
def mul(a, b): return mulc(b, cv(a)) if isc(a) else mulc(a, cv(b)) if isc(b) else mk('mul', *sorted((a, b), key=lambda t: t.id))
def _slots_(l):
    for slot, ups in l.inst.upd.items():
        w = l.inst.wsym[slot]; starts = [o for o, n in ups if o is not w]
        if slot[0] != 'e' or not starts: continue
        yield slot, starts[0], w, {n for o, n in ups if n is not None}
def gf(g, F):
    """facts at the end of a loop iteration"""
    for e in reversed(g):
        if getattr(e, 'snap', None) is not None: return e.snap.facts
    return F
def ptr_int(p): 
    r, k = ptrlin(p)
    return add(r, k) if not (isc(k) and cv(k) == 0) else r
def eq_lt(F, a, b): return ev_cond(F, t_ult(a, b)) is True
def subst_eqs(snap, t):
    for _ in range(4):
        m = {}
        for x, y in snap.eqs.items(): m[x] = y
        n = subst(t, m)
        if n is t: break
        t = n
    for x, f in snap.facts.items():
        if f[0] == f[1] and x.op == 'sym' and isinstance(f[0], int): t = subst(t, {x: C(f[0])})
    return t
