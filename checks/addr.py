"""Name resolution: cached addresses, coalesced lookups, refreshes."""
from fw import *
import ir
from sync import fld, calls, is_next
from fiber import TLS, is_tls
from fiberio import CFGS, waits, suspended, result, wakes, WAITS, CUR, WAKE
from server import ups, reads, locked, touched
from tls import flat2, only
from pool import subst_eqs

TREE = ('rbtree_insert', 'rbtree_find', 'rbtree_remove'); JOB = 'kasync_worker_try_start'; REF, RELS = 'kgl_addr_refs', 'kgl_addr_release'
FRESH, IDLE, MAXN, MAXERR = 30, 3600, 1048576, 10
AI_CANONNAME = 2; PF_INET = 2
def top(s): return [e for e in s.events if e.kind != 'loop']
def taken(ev, a): return [e for e in ev if is_call(e, REF) and e.args[0] is a] + [e for e in ev if e.kind == 'atomic' and e.name == 'add' and ptr_root(e.args[0]) is a]
def given(ev, a): return [e for e in ev if is_call(e, RELS) and e.args[0] is a]
def outside(ev, e):
    """e runs while no lock is held"""
    n = 0
    for x in ev:
        if x is e: return n == 0
        if is_call(x, LOCK): n += 1
        if is_call(x, UNLOCK): n -= 1
    return False

def resolver(ctx):
    N = 'kgl_addr_node_s'; Q = 'kgl_addr_queue_s'
    for cfg in CFGS:
        ctx.cfg = cfg; tag = '' if cfg == 'epoll' else '@release'
        kho, kty = (ctx.off(N, 'key') + x for x in fld(ctx, 'kgl_addr_key', 'hostname', 'addr_type'))
        ltm, lver, err, nod, adr, suc, qu, nx, pv = fld(ctx, N, 'last_time', 'last_verify', 'error_count', 'node', 'addr', 'last_success', 'queue', 'next', 'prev')
        qcb, qsel, qarg, qadr, qnext = fld(ctx, Q, 'cb', 'selector', 'arg', 'addr', 'next')
        aad, arf = fld(ctx, 'kgl_addr', 'addr', 'refs'); ndata = ctx.off('krb_node', 'data')
        OPQ = TREE + (JOB, REF, RELS); PURE = (REF, RELS, 'rbtree_remove', JOB)
        CN = ctx.p.enum('kgl_addr_cname')
        def feasible(S):
            """without paths on which a list in use has a missing link or memory ran out after it was used"""
            return [s for s in S if not any(isnull(s.final.facts, t) for n in linked(top(s), pv, nx) for t in n[1:3]) and not any(e.kind == 'st' and fresh_obj(e.args[0]) and isnull(s.final.facts, e.args[0]) for e in s.flat())]
        # what takes or gives a reference may be unable to do without an address
        strict = {f for f in (REF, RELS) if f in ctx.p.funcs and not ctx.e.run(f, Cfg(), args=[ZERO])}
        # the lock and the counter
        S = ctx.run('kgl_get_addr_cache_count'); lk = [e for s in S for e in s.flat() if is_call(e, LOCK)]
        for s in S:
            errs, end = lock_scan(s.events); ctx.ob('addr-balance', 'kgl_get_addr_cache_count' + tag, not errs and end == {frozenset()}, 'the cache lock is released on every path', s)
        ctx.ob('addr-lock', 'kgl_get_addr_cache_count' + tag, len(lk) == len(S) == 1 and decode(S[0].ret) is not None and decode(S[0].ret)[0].op == 'g', 'the count is read under the cache lock')
        if not lk: continue
        LK = lk[0].args[0]; CNT = decode(S[0].ret)[0]
        ctx.ob('addr-count', 'at start' + tag, at_rest(ctx, CNT, decode(S[0].ret)[1]) is not False, 'before anything was looked up nothing is counted')
        SHARED = (ltm, lver, err, nod, adr, suc, qu, nx, pv); GL = set()
        def discipline(fn, s):
            GL.update(e.args[0].args[0] for e in flat2(s.events) if e.kind == 'st' and e.args[0].op == 'g' and e.args[1] in (nx, pv))
            ev = list(flat2(s.events)); errs, end = lock_scan(s.events)
            ctx.ob('addr-balance', fn + tag, not errs and end == {frozenset()}, 'the cache lock is released on every path', s)
            bad = []; own = {e.args[0] for e in ev if is_call(e, *FREE)}
            def chk(h, e):
                t = is_call(e, *TREE) or e.kind in ('st', 'ld') and (e.args[0] is CNT or isinstance(e.x, tuple) and e.x[0] == '@' and e.x[1] in GL or isinstance(e.x, tuple) and e.x[0] == N and e.x[1] in SHARED and not (e.kind == 'ld' and e.x[1] in (nx, pv)) and not fresh_obj(e.args[0]) and e.args[0] not in own)
                if t and LK not in h: bad.append(e)
                if e.kind == 'icall' and h or is_call(e, 'getaddrinfo') and h: bad.append(e)
            lock_scan(s.events, chk)
            ctx.ob('addr-guarded', fn + tag, not bad, 'the cache is changed only under its lock, and neither a resolver nor a callback runs under it', s)
        # ---- addresses
        fn = 'kgl_addr_new'; S = ctx.run(fn)
        for s in S: ctx.ob('addr-new', fn + tag, fresh_obj(s.ret) and s.const(final(ctx, s, s.ret, arf, 4)) == 1 and final(ctx, s, s.ret, aad) is ctx.args[0], 'a new address has one reference and its result', s)
        fn = REF; S = ctx.run(fn)
        for s in S: ctx.ob('addr-ref', fn + tag, len(ups(s.flat(), ctx.args[0], arf)) == 1 and not [e for e in s.flat() if e.kind in ('st', 'call')], 'a reference is counted atomically', s)
        fn = RELS; S = ctx.run(fn); a = ctx.args[0]; seen = set()
        for s in S:
            ev = s.flat(); F = s.final.facts; d = [e for e in ev if e.kind == 'atomic']
            ok = len(d) == 1 and d[0].args[0] is a and cv(d[0].args[1]) == arf and (d[0].name, s.const(d[0].args[2])) in (('add', -1), ('sub', 1))
            if not ctx.ob('addr-release', fn + tag, ok, 'a reference is given back in one atomic step', s): continue
            fr = only(ev, 'free'); fa = only(ev, 'freeaddrinfo')
            if not same(F, d[0].ret, ONE): seen.add('more'); ctx.ob('addr-kept', fn + tag, differs(F, d[0].ret, ONE) is True and not fr and not fa, 'an address with references left stays', s); continue
            has = [t for t in F if reads(t, a, aad) and nonnull(F, t)]; seen.add(('last', bool(has)))
            ctx.ob('addr-last', fn + tag, len(fr) == 1 and fr[0].args[0] is a and len(fa) == (1 if has else 0) and all(reads(e.args[0], a, aad) for e in fa) and not [e for e in ev if e.kind == 'uaf'], 'the last reference frees the result and the address once', s)
        ctx.ob('addr-cases', fn + tag, seen == {'more', ('last', True), ('last', False)}, 'found %s' % seen)
        # ---- lookups
        lookers, refreshers, notifiers, cmps = set(), set(), set(), set()
        def refresh(fn, s, cn, host, typ):
            """a cached entry older than FRESH seconds is refreshed by one job"""
            ev = top(s); F = s.final.facts; j = [e for e in only(ev, JOB) if e.args[1] is not cn]; tm = only(ev, 'time')
            if len(tm) == 1 and any(x.kind == 'st' and x.args[0] is cn and x.args[1] == ltm and x.args[2] is tm[0].ret for x in ev): pass
            else: ctx.ob('cache-used', fn + tag, False, 'using an entry must note the time', s); return
            age = sub(tm[0].ret, at(ctx, tm[0], cn, lver)); due = lt(F, C(FRESH), age)
            if not ctx.ob('refresh-due', fn + tag, due is not None and len(j) == (1 if due else 0), 'an entry older than %d seconds, and no other, is refreshed once' % FRESH, s): return
            if not due: return 'fresh'
            e = j[0]; k = e.args[1]; h = at(ctx, e, k, kho); sd = [x for x in only(ev, 'strdup') if x.ret is h]
            ok = fresh_obj(k) and len(sd) == 1 and sd[0].args[0] is host and at(ctx, e, k, kty, 4) is typ and at(ctx, e, cn, lver) is tm[0].ret
            ctx.ob('refresh-key', fn + tag, ok, 'a refresh gets a copy of the name and type, and the next one is due later', s)
            if e.args[2].op == 'f': refreshers.add(e.args[2].args[0])
            t = truth(F, e.ret); fr = [x.args[0] for x in only(ev, 'free')]
            ctx.ob('refresh-refused', fn + tag, t is not None and (fr.count(k) == fr.count(h) == (0 if t else 1)) and not [x for x in ev if x.kind == 'uaf'], 'a refused refresh frees its copy once, an accepted one leaves it to the job', s)
            return 'due' if t else 'refused'
        def tomove(fn, s, cn):
            ev = top(s); un = [n for n, _ in unlinked(ev, pv, nx)]; ln = linked(ev, pv, nx)
            lists = {ptr_split(x[2])[0] for x in ln} 
            ctx.ob('cache-order', fn + tag, un == [cn] and len(ln) == 1 and ln[0][0] is cn and all(x.op == 'g' for x in lists), 'a used entry moves to the end of the list', s)
        made = {}   # waiters of this call: record -> loop
        def waiters(fn, s, evs, heads, addr):
            """the list of waiters is told: one posted notice each; returns the loop"""
            loops = [e for e in evs if e.kind == 'loop' and any(is_next(x) for g in e.inst.seglist for x in g)]
            nn = [x for e in evs if e.kind != 'loop' for x in [e] if is_next(x)]
            if not loops:
                ctx.ob('waiters-all', fn + tag, not nn and any(isnull(s.final.facts, h) for h in heads), 'every waiter is told', s); return None
            if not ctx.ob('waiters-all', fn + tag, len(loops) == 1 and not nn, 'the waiters are walked once', s): return None
            le = loops[0]
            ctx.ob('waiters-end', fn + tag, any(isnull(s.final.facts, w) for sl, w in le.inst.wsym.items() if sl[0] == 'e') or any(isnull(s.final.facts, h) for h in heads) or any(isnull(s.final.facts, t) for t in s.final.facts if decode(t) and decode(t)[1] == qnext), 'the walk ends after the last waiter', s)
            ws = {w for st_, start, w, news in _starts(le) if start in heads}
            for g in le.inst.seglist:
                n = [e for e in g if is_next(e)]
                if not n: ctx.ob('waiter-told', fn + tag, not [e for e in g if e.kind == 'st'], 'every waiter is told', s); continue
                o = n[0].args[3]
                ok = len(n) == 1 and (o in heads or o in ws) and reads(n[0].args[0], o, qsel) | any(reads(n[0].args[0], h, qsel) for h in heads) | (fresh_obj(o) and n[0].args[0] is made.get(o)) and n[0].args[2].op == 'f'
                ctx.ob('waiter-told', fn + tag, ok, 'a waiter is told once, on its own loop', s)
                if n[0].args[2].op == 'f': notifiers.add(n[0].args[2].args[0])
                i = index_of(g, n[0]); sa = [e for e in g[:i] if e.kind == 'st' and e.args[0] is o and e.args[1] == qadr]
                ok = len(sa) == 1 and (sa[0].args[2] is addr or addr is ZERO and s.const(sa[0].args[2]) == 0)
                ctx.ob('waiter-address', fn + tag, ok, 'a waiter gets the address found, or none', s)
                if addr is not ZERO:
                    tk = taken(g, addr); ctx.ob('waiter-holds', fn + tag, len(tk) == 1 and index_of(g, tk[0]) < i and not given(g, addr), 'a waiter gets a reference of its own', s)
                else: ctx.ob('waiter-holds', fn + tag, not [e for e in g if is_call(e, REF, RELS)], 'no address, no reference', s)
                nxt = [e for e in g[:i] if e.kind == 'ld' and e.args[0] is o and e.args[1] == qnext]
                ctx.ob('waiter-next', fn + tag, bool(nxt) and not [e for e in g[i + 1:] if e.kind in ('ld', 'st') and e.args[0] is o], 'a waiter that was told is left alone', s)
            for st_, start, w, news in _starts(le):
                if start in heads: ctx.ob('waiters-walk', fn + tag, all(decode(n) is not None and decode(n)[1] == qnext and decode(n)[0] in (set(heads) | ws) or s.const(n) == 0 for n in news), 'the walk follows the list', s)
            return le
        def _starts(le):
            for slot, u in le.inst.upd.items():
                if slot[0] != 'e': continue
                w = le.inst.wsym[slot]; st_ = {o for o, n in u if o is not w}
                for x in st_: yield slot, x, w, {n for o, n in u if n is not w}
        def failed(fn, s, evs, cn, node, heads):
            ev = [e for e in evs if e.kind != 'loop']; F = s.final.facts
            rm = only(ev, 'rbtree_remove'); fr = [e.args[0] for e in only(ev, 'free')]
            ok = len(rm) == 1 and (rm[0].args[1] is node or reads(rm[0].args[1], cn, nod)) and fr.count(cn) == 1 and not [e for e in flat2(evs) if e.kind == 'uaf']
            ctx.ob('fail-removed', fn + tag, ok, 'an entry that could not be looked up is removed from the cache and freed once', s)
            hs = [x for x in fr if reads(x, cn, kho) or fresh_obj(x) and x is not cn]
            ctx.ob('fail-name', fn + tag, len(hs) == (0 if ok and isnull(F, [at(ctx, e, cn, kho) for e in only(ev, 'free') if e.args[0] is cn][0]) else 1) and len(fr) == len(hs) + 1, 'its name is freed once', s)
            lk = {id(e) for e in s.flat() if e.kind == 'ld' and e.args[0] is cn and e.args[1] == qu and locked(top(s), LK, e)}
            ctx.ob('fail-waiters', fn + tag, any(id(e) in lk for e in ev), 'the waiters, of which there may be more by now, are taken under the lock', s)
            waiters(fn, s, evs, heads, ZERO)
        fn = 'kgl_find_addr'; S = feasible(ctx.run(fn, opaque=OPQ, pure=PURE, record_loads=True)); host, typ, cb, arg, sel = ctx.args; seen = set()
        for s in S:
            discipline(fn, s); ev = top(s); F = s.final.facts; ins = only(ev, 'rbtree_insert'); c = [e for e in ev if e.kind == 'icall' and e.x is cb]
            ok = len(ins) == 1 and not only(ev, 'rbtree_find')
            if ok:
                kb, ko = ptr_split(ins[0].args[1]); ok = at(ctx, ins[0], ins[0].args[1], kho) is host and at(ctx, ins[0], ins[0].args[1], kty, 4) is typ
            if not ctx.ob('find-key', fn + tag, ok, 'the name and type are looked up once', s): continue
            if ins[0].args[3].op == 'f': cmps.add(ins[0].args[3].args[0])
            node = ins[0].ret; mk_ = [e for e in ev if e.kind == 'st' and e.args[0] is node and e.args[1] == ndata]
            cn = mk_[0].args[2] if mk_ else None
            if cn is None:
                cands = {e.ret for e in ev if e.kind == 'ld' and e.args[0] is node and e.args[1] == ndata}
                if not ctx.ob('find-node', fn + tag, len(cands) == 1, 'the entry found is used', s): continue
                cn = cands.pop()
            q = [e for e in ev if e.kind == 'st' and e.args[0] is cn and e.args[1] == qu and fresh_obj(e.args[2]) and e.args[2] is not cn]
            cached = bool([t for t in F if reads(t, cn, pv) and nonnull(F, t)]) and not mk_
            if cached:
                r = refresh(fn, s, cn, host, typ); tomove(fn, s, cn); seen.add(('cached', r))
                if not ctx.ob('cached-told', fn + tag, len(c) == 1 and not q and s.ret is c[0].ret and c[0].args[0] is arg, 'a cached answer is given at once, exactly once, with the caller\'s argument', s): continue
                a = c[0].args[1]
                if s.const(a) == 0 or isnull(F, a):
                    seen.add('none'); g = [t for t in F if reads(t, cn, adr) and isnull(F, t)]; l = [t for t in F if reads(t, cn, suc) and isnull(F, t)]
                    ctx.ob('cached-none', fn + tag, (bool(g) or reads(a, cn, adr)) and (bool(l) or reads(a, cn, suc)), 'no address is reported only if neither a current nor an earlier one is known', s)
                    ctx.ob('cached-held', fn + tag, not [e for e in ev if is_call(e, REF) and REF in strict or is_call(e, RELS) and RELS in strict or e.kind == 'atomic' and any(ptr_root(e.args[0]) is t for t in g + l + [a])], 'without an address there is no reference', s); continue
                which = adr if reads(a, cn, adr) else suc; seen.add(which)
                ok = reads(a, cn, which) and nonnull(F, a) and (which == adr or any(reads(t, cn, adr) and isnull(F, t) for t in F))
                ctx.ob('cached-answer', fn + tag, ok, 'the current address is given, or the last good one', s)
                tk, gv = taken(ev, a), given(ev, a)
                ok = len(tk) == len(gv) == 1 and locked(ev, LK, tk[0]) and index_of(ev, tk[0]) < index_of(ev, c[0]) < index_of(ev, gv[0])
                ctx.ob('cached-held', fn + tag, ok, 'the address is held from before the lock is released until the callback returns', s); continue
            ok = len(q) == 1 and not c and locked(ev, LK, q[0])
            if not ctx.ob('lookup-wait', fn + tag, ok, 'a caller of a name being looked up waits exactly once, added under the lock', s): continue
            o = q[0].args[2]; un = [e for e in ev if is_call(e, UNLOCK)]; u = un[0]; old = at(ctx, u, o, qnext)
            ok = at(ctx, u, o, qcb) is cb and at(ctx, u, o, qarg) is arg and at(ctx, u, o, qsel) is sel and s.const(at(ctx, u, o, qadr)) == 0 and index_of(ev, q[0]) < index_of(ev, u)
            ctx.ob('waiter-record', fn + tag, ok and (s.const(old) == 0 if mk_ else reads(old, cn, qu)), 'a waiter keeps its callback, argument and loop, before those already waiting', s)
            j = [e for e in only(ev, JOB) if e.args[1] is cn]; oth = [e for e in only(ev, JOB) if e.args[1] is not cn]
            if not mk_:
                seen.add('join'); ok = not only(ev, JOB) and not [e for e in ev if e.kind == 'icall'] and not only(ev, 'getaddrinfo') and not [x for x in unlinked(ev, pv, nx)]
                ctx.ob('lookup-shared', fn + tag, ok, 'a name already being looked up is not looked up again', s); continue
            h = at(ctx, u, cn, kho); sd = [x for x in only(ev, 'strdup') if x.ret is h]
            ok = fresh_obj(cn) and len(sd) == 1 and sd[0].args[0] is host and at(ctx, u, cn, kty, 4) is typ and all(s.const(at(ctx, u, cn, x)) == 0 for x in (adr, suc, pv)) and s.const(at(ctx, u, cn, err, 4)) == 0 and at(ctx, u, cn, nod) is node and any(at(ctx, u, cn, ltm) is t.ret for t in only(ev, 'time')) and any(at(ctx, u, cn, lver) is t.ret for t in only(ev, 'time'))
            ctx.ob('lookup-entry', fn + tag, ok, 'a new entry is pending, has its own copy of the name and no address', s)
            ok = len(j) == 1 and not oth and index_of(ev, j[0]) > index_of(ev, q[0])
            if not ctx.ob('lookup-job', fn + tag, ok, 'a new name is looked up by exactly one job, once its waiter is known', s): continue
            if j[0].args[2].op == 'f': lookers.add(j[0].args[2].args[0])
            t = truth(F, j[0].ret)
            if t: 
                seen.add('started'); later = s.events[s.events.index(j[0]) + 1:]
                ctx.ob('lookup-owned', fn + tag, not [e for e in flat2(later) if e.kind in ('ld', 'st', 'icall') and ptr_root(e.args[0]) is cn or is_next(e) or is_call(e, 'free')], 'an entry handed to the job is left alone', s)
            else:
                seen.add('refused'); ctx.ob('lookup-refused', fn + tag, t is False, 'the outcome is checked', s); made[o] = sel
                failed(fn, s, s.events[s.events.index(j[0]) + 1:], cn, node, [o])
            ctx.ob('find-result', fn + tag, s.const(s.ret) == ctx.p.enum('kev_ok'), 'waiting is not a failure', s)
        want = {('cached', x) for x in ('fresh', 'due', 'refused')} | {'none', adr, suc, 'join', 'started', 'refused'}
        ctx.ob('addr-cases', fn + tag, seen == want and len(lookers) == len(refreshers) == 1, 'found %s %s %s' % (seen, lookers, refreshers))
        # ---- the lookup job
        def hints(fn, s, g, typ):
            """what the resolver is asked for"""
            F = s.final.facts; hp = g.args[2]; fl, fam = at(ctx, g, hp, 0, 4), at(ctx, g, hp, 4, 4); cn_ = same(F, typ, C(CN))
            if cn_ is not True and not differs(F, typ, C(CN)): return ctx.ob('ask-type', fn + tag, False, 'the kind of lookup decides', s)
            ctx.ob('ask-hints', fn + tag, (s.const(fl), s.const(fam)) == ((AI_CANONNAME, PF_INET) if cn_ else (0, 0)), 'a canonical-name lookup asks for it, any other for any address', s)
            return cn_
        def resolved(g, s, ev):
            """the answer of getaddrinfo"""
            r = ptr_split(g.args[3]); return [t for t in s.final.facts if decode(t) == r]
        for fn in sorted(lookers):
            S = feasible(ctx.run(fn, opaque=OPQ, pure=PURE, record_loads=True)); cn, msec = ctx.args[0], ctx.args[1]; seen = set(); hk = set()
            for s in S:
                discipline(fn, s); ev = top(s); F = s.final.facts; g = only(ev, 'getaddrinfo'); un = [e for e in ev if is_call(e, UNLOCK)]
                heads = [e.ret for e in ev if e.kind == 'ld' and e.args[0] is cn and e.args[1] == qu and locked(ev, LK, e)]
                bad = lt(F, msec, ZERO) is True or lt(F, C(10000), msec) is True; good = lt(F, msec, ZERO) is False and lt(F, C(10000), msec) is False
                if not ctx.ob('job-late', fn + tag, len(g) == (1 if good else 0) and (good or bad), 'a lookup that waited too long fails, any other asks the resolver once', s): continue
                if not ctx.ob('job-waiters', fn + tag, bool(heads), 'the waiters are taken under the lock', s): continue
                if bad: seen.add('late'); failed(fn, s, s.events, cn, None, heads); continue
                g = g[0]; hk.add(hints(fn, s, g, initial(cn, kty)))
                ctx.ob('job-name', fn + tag, reads(g.args[0], cn, kho), 'the name asked for is looked up', s)
                ln = linked(ev, pv, nx); st = [e for e in ev if e.kind == 'st' and e.args[0] is CNT]
                ok = len(ln) == 1 and ln[0][0] is cn and ptr_split(ln[0][2])[0].op == 'g' and locked(ev, LK, ln[0][3])
                if not ctx.ob('job-cached', fn + tag, ok and net(ev, CNT, 0) == 1 and not unlinked(ev, pv, nx) and not only(ev, 'rbtree_remove') and not only(ev, 'free'), 'the entry becomes a cached one, counted once', s): continue
                u = un[-1]; i = s.events.index(u)
                ctx.ob('job-waiters', fn + tag, all(index_of(ev, e) < index_of(ev, x) for e in ev if e.kind == 'ld' and e.args[0] is cn and e.args[1] == qu and e.ret in heads for x in ev if x.kind == 'st' and x.args[0] is cn and x.args[1] == nx), 'the waiters are taken before the entry is linked', s)
                a1, a2 = at(ctx, u, cn, adr), at(ctx, u, cn, suc)
                if not fresh_obj(a1):
                    seen.add('nothing'); rs = resolved(g, s, ev)
                    ok = s.const(a1) == 0 and s.const(a2) == 0 and any(isnull(F, t) for t in rs)
                    ctx.ob('job-nothing', fn + tag, ok, 'only an answer without an address is remembered as none', s); waiters(fn, s, s.events[i:], heads, ZERO); continue
                seen.add('found'); r = ptr_split(g.args[3])
                ok = a1 is a2 and decode(at(ctx, u, a1, aad)) == r and s.const(at(ctx, u, a1, arf, 4)) is not None
                ctx.ob('job-found', fn + tag, ok, 'the answer becomes the current and the last good address', s)
                n0 = s.const(at(ctx, u, a1, arf, 4)); tk, gv = taken(ev, a1), given(ev, a1); iu = index_of(ev, u)
                inc = [e for e in tk if e.kind == 'call']
                have = 1 + len(tk) - len(gv); early = 1 + len([e for e in tk if index_of(ev, e) < iu]) - len([e for e in gv if index_of(ev, e) < iu])
                ctx.ob('job-counted', fn + tag, have == 2, 'one reference for the current and one for the last good address stay', s)
                le = waiters(fn, s, s.events[i:], heads, a1)
                late = [e for e in gv if index_of(ev, e) > iu]
                ok = early >= 3 and all(le is None or s.events.index(e) > s.events.index(le) for e in late)
                ctx.ob('job-held', fn + tag, ok, 'the address is held until the last waiter has a reference: the entry may be flushed meanwhile', s)
                after = [e for e in flat2(s.events[i + 1:]) if e.kind in ('ld', 'st') and e.args[0] is cn]
                ctx.ob('job-released', fn + tag, not after, 'an entry that is cached is left alone', s)
            ctx.ob('addr-cases', fn + tag, seen == {'late', 'nothing', 'found'} and hk == {True, False}, 'found %s %s' % (seen, hk))
        # ---- telling one waiter
        ctx.ob('addr-cases', 'waiter' + tag, len(notifiers) == 1, 'one function tells a waiter')
        for fn in sorted(notifiers):
            S = ctx.run(fn, opaque=(REF, RELS), pure=(REF, RELS), record_loads=True); o = ctx.args[1]; seen = set()
            for s in S:
                ev = s.flat(); F = s.final.facts; c = [e for e in ev if e.kind == 'icall']; gv = only(ev, RELS); fr = only(ev, 'free')
                ok = len(c) == 1 and reads(c[0].x, o, qcb) and reads(c[0].args[0], o, qarg)
                if not ctx.ob('tell-once', fn + tag, ok, 'the waiter\'s callback runs once with its own argument', s): continue
                a = c[0].args[1]; none = s.const(a) == 0 or isnull(F, a); seen.add(none)
                ok = any(reads(t, o, qadr) and isnull(F, t) for t in F) if none else reads(a, o, qadr)
                ctx.ob('tell-address', fn + tag, ok, 'it gets the address kept for it', s)
                ok = (not gv) if none else nonnull(F, a) and len(gv) == 1 and index_of(ev, gv[0]) > index_of(ev, c[0]) and (gv[0].args[0] is a or reads(gv[0].args[0], o, qadr))
                ctx.ob('tell-release', fn + tag, ok, 'its reference is given back once, after the callback', s)
                ctx.ob('tell-free', fn + tag, len(fr) == 1 and fr[0].args[0] is o and not [e for e in ev if e.kind == 'uaf'], 'its record is freed once, after its last use', s)
            ctx.ob('addr-cases', fn + tag, seen == {True, False}, 'found %s' % seen)
        # ---- the refresh job
        for fn in sorted(refreshers):
            S = feasible(ctx.run(fn, opaque=OPQ, pure=PURE, record_loads=True)); k = ctx.args[0]; seen = set(); hk = set()
            for s in S:
                discipline(fn, s); ev = top(s); F = s.final.facts; g = only(ev, 'getaddrinfo'); ins = only(ev, 'rbtree_insert'); fr = only(ev, 'free'); fa = only(ev, 'freeaddrinfo')
                ok = len([e for e in fr if e.args[0] is k]) == 1 and len([e for e in fr if reads(e.args[0], k, kho)]) == 1 and len(fr) == 2 and not [e for e in ev if e.kind == 'uaf']
                ctx.ob('refresh-key-freed', fn + tag, ok, 'the copy of the name is freed once, after its last use', s)
                if not ctx.ob('refresh-ask', fn + tag, len(g) == len(ins) == 1 and reads(g[0].args[0], k, kho) and ins[0].args[1] is k, 'the resolver is asked once, for the entry\'s name', s): continue
                if ins[0].args[3].op == 'f': cmps.add(ins[0].args[3].args[0])
                g, ins = g[0], ins[0]; hk.add(hints(fn, s, g, initial(k, kty))); node = ins.ret; r = ptr_split(g.args[3]); un = [e for e in ev if is_call(e, UNLOCK)]; u = un[-1]
                mk_ = [e for e in ev if e.kind == 'st' and e.args[0] is node and e.args[1] == ndata]; fresh = bool(mk_)
                if mk_: cn = mk_[0].args[2]
                else:
                    cands = {e.ret for e in ev if e.kind == 'ld' and e.args[0] is node and e.args[1] == ndata}
                    if not ctx.ob('find-node', fn + tag, len(cands) == 1, 'the entry found is used', s): continue
                    cn = cands.pop()
                res = [t for t in F if decode(t) == r]; got = True if any(nonnull(F, t) for t in res) else False if any(isnull(F, t) for t in res) else None
                if not ctx.ob('refresh-answer', fn + tag, got is not None, 'the answer decides', s): continue
                if not fresh and any(reads(t, cn, pv) and isnull(F, t) for t in F):
                    seen.add(('pending', got)); ok = not [e for e in ev if e.kind == 'st' and e.args[0] is cn] and not given(ev, cn) and not only(ev, REF) and not only(ev, RELS) and len(fa) == (1 if got else 0) and all(decode(e.args[0]) == r for e in fa) and net(ev, CNT, 0) in (0, None)
                    ctx.ob('refresh-pending', fn + tag, ok and not linked(ev, pv, nx) and not unlinked(ev, pv, nx), 'an entry that is being looked up again is left alone and the answer freed', s); continue
                ctx.ob('refresh-known', fn + tag, fresh or any(reads(t, cn, pv) and nonnull(F, t) for t in F), 'only a cached entry is replaced', s)
                un_, ln = [n for n, _ in unlinked(ev, pv, nx)], linked(ev, pv, nx)
                ok = un_ == ([] if fresh else [cn]) and len(ln) == 1 and ln[0][0] is cn and ptr_split(ln[0][2])[0].op == 'g' and net(ev, CNT, 0) == (1 if fresh else 0)
                ctx.ob('refresh-linked', fn + tag, ok, 'the entry is in the list once and counted once', s)
                if fresh:
                    h = at(ctx, u, cn, kho); sd = [x for x in only(ev, 'strdup') if x.ret is h]
                    ctx.ob('refresh-entry', fn + tag, len(sd) == 1 and reads(sd[0].args[0], k, kho) and reads(at(ctx, u, cn, kty, 4), k, kty) and at(ctx, u, cn, nod) is node, 'a flushed entry is made again with its own name', s)
                    tm = {x.ret for x in only(ev, 'time')}
                    ctx.ob('refresh-entry', fn + tag, fresh_obj(cn) and at(ctx, u, cn, ltm) in tm and at(ctx, u, cn, lver) in tm, 'a flushed entry is made again, used and verified just now', s)
                rel = [e.args[0] for e in only(ev, RELS)]
                o1 = [x for x in rel if reads(x, cn, adr)]; o2 = [x for x in rel if reads(x, cn, suc)]
                had1 = not fresh and any(reads(t, cn, adr) and nonnull(F, t) for t in F)
                ctx.ob('refresh-old', fn + tag, len(o1) == (1 if had1 else 0) and len(rel) == len(o1) + len(o2), 'the previous address is given back once', s)
                a1, a2 = at(ctx, u, cn, adr), at(ctx, u, cn, suc); had2 = not fresh and any(reads(t, cn, suc) and nonnull(F, t) for t in F); none2 = fresh or any(reads(t, cn, suc) and isnull(F, t) for t in F)
                if got:
                    seen.add(('ok', fresh)); ok = fresh_obj(a1) and a1 is a2 and decode(at(ctx, u, a1, aad)) == r and s.const(at(ctx, u, cn, err, 4)) == 0 and 1 + len(taken(ev, a1)) - len(given(ev, a1)) == 2
                    ctx.ob('refresh-new', fn + tag, ok and len(o2) == (1 if had2 else 0) and (had2 or none2), 'the new address replaces both, each with a reference, and errors are forgotten', s)
                    continue
                ne = at(ctx, u, cn, err, 4); o = offset_of(ne, cn, err); full = lt(F, ne, C(MAXERR))
                ok = s.const(ne) == 1 if fresh else o is not None and o[1] == 1
                ctx.ob('refresh-error', fn + tag, ok and s.const(a1) == 0 and not fa, 'a failed refresh is counted and leaves no current address', s)
                if o2: seen.add('forgot'); ctx.ob('refresh-forget', fn + tag, len(o2) == 1 and full is False and s.const(a2) == 0, 'the last good address is dropped after %d failures in a row' % MAXERR, s)
                else:
                    seen.add('kept'); ctx.ob('refresh-keep', fn + tag, (full is True or none2) and (s.const(a2) == 0 if fresh else reads(a2, cn, suc) or isnull(F, a2)), 'the last good address is kept for fewer failures', s)
            ctx.ob('addr-cases', fn + tag, seen == {('pending', True), ('pending', False), ('ok', True), ('ok', False), 'forgot', 'kept'} and hk == {True, False}, 'found %s %s' % (seen, hk))
        # ---- cached only
        fn = 'kgl_find_cache_addr'; S = feasible(ctx.run(fn, opaque=OPQ, pure=PURE, record_loads=True)); host, typ = ctx.args[:2]; seen = set()
        for s in S:
            discipline(fn, s); ev = top(s); F = s.final.facts; f = only(ev, 'rbtree_find')
            ok = len(f) == 1 and not only(ev, 'rbtree_insert') and at(ctx, f[0], f[0].args[1], kho) is host and at(ctx, f[0], f[0].args[1], kty, 4) is typ
            if not ctx.ob('peek-key', fn + tag, ok, 'the name and type are looked up once, and never added', s): continue
            if f[0].args[2].op == 'f': cmps.add(f[0].args[2].args[0])
            node = f[0].ret; cands = {e.ret for e in ev if e.kind == 'ld' and e.args[0] is node and e.args[1] == ndata}
            cn = cands.pop() if len(cands) == 1 else None; tk = only(ev, REF) + [e for e in ev if e.kind == 'atomic']
            if s.const(s.ret) == 0 or isnull(F, s.ret):
                ok = isnull(F, node) or cn is not None and (isnull(F, cn) or any((reads(t, cn, pv) or reads(t, cn, adr)) and isnull(F, t) for t in F)); seen.add('none')
                ctx.ob('peek-none', fn + tag, ok and not tk and not only(ev, RELS), 'nothing is given only if no address is cached', s)
                if cn is not None and any(reads(t, cn, pv) and nonnull(F, t) for t in F): seen.add(refresh(fn, s, cn, host, typ)); tomove(fn, s, cn)
                continue
            seen.add('found'); ok = cn is not None and reads(s.ret, cn, adr) and nonnull(F, s.ret) and any(reads(t, cn, pv) and nonnull(F, t) for t in F) and len(tk) == len(taken(ev, s.ret)) == 1 and locked(ev, LK, tk[0]) and not only(ev, RELS)
            ctx.ob('peek-answer', fn + tag, ok, 'a cached address is given with a reference taken under the lock', s)
            if cn is not None: seen.add(refresh(fn, s, cn, host, typ)); tomove(fn, s, cn)
        ctx.ob('addr-cases', fn + tag, seen == {'none', 'found', 'fresh', 'due', 'refused'}, 'found %s' % seen)
        # ---- what is the same name
        ctx.ob('addr-cases', 'order' + tag, len(cmps) == 1, 'the cache is ordered by one function')
        for fn in sorted(cmps):
            S = ctx.run(fn); a, b = ctx.args; ta, tb = initial(a, kty), initial(b, kty); seen = set()
            for s in S:
                F = s.final.facts; sc = only(s.flat(), 'strcasecmp'); eq = same(F, ta, tb) or subst_eqs(s.final, ta) is subst_eqs(s.final, tb); seen.add(bool(eq)); r = s.const(s.ret)
                if eq: ok = len(sc) == 1 and {decode(x) for x in sc[0].args} == {(a, kho), (b, kho)} and s.ret is sc[0].ret
                else: ok = r not in (0, None) and (differs(F, ta, tb) or any(lt(F, x, y) is True or truth(F, t_ult(x, y)) is True for x, y in ((ta, tb), (tb, ta))))
                ctx.ob('same-name', fn + tag, ok, 'entries are the same if their types and, regardless of case, their names are', s)
            signs = {}
            for s in S:
                F = s.final.facts; r = s.const(s.ret)
                if r is not None: signs.setdefault(truth(F, t_ult(ta, tb)) if truth(F, t_ult(ta, tb)) is not None else lt(F, ta, tb), set()).add(r > 0 and r < 0x80000000)
            ctx.ob('order-types', fn + tag, len(signs) == 2 and all(len(v) == 1 for v in signs.values()) and len({next(iter(v)) for v in signs.values()}) == 2, 'different types are ordered one way (%s)' % signs)
        # ---- flushing
        fn = 'kgl_flush_addr_cache'; S = feasible(ctx.run(fn, opaque=OPQ, pure=PURE, record_loads=True)); t0 = ctx.args[0]; seen = set(); heads = set(); times = lambda F, x: {y for z in F for y in z.syms if decode(y) == (x, ltm)}
        for s in S:
            discipline(fn, s); ev = list(flat2(s.events)); F = s.final.facts
            heads |= {e.args[0] for e in ev if e.kind == 'ld' and e.args[0].op == 'g' and e.args[1] in (nx, pv) and e.args[0] is not CNT}
        if len(heads) != 1: raise AnalysisError('no unique list of cached entries')
        H = heads.pop(); A = [sym('al', 'entry%d' % i) for i in range(3)]
        for k in range(4):
            def su(E, st):
                m = st.wmem(); r = [H] + A[:k]
                for i, n in enumerate(r):
                    assume(st.facts, t_eq(n, ZERO), False)
                    if n is not H: assume(st.facts, t_eq(n, H), False); assume(st.facts, t_eq(H, n), False)
                    m[(n, pv)] = (r[i - 1], 8, None); m[(n, nx)] = (r[(i + 1) % len(r)], 8, None)
            for s in ctx.e.run(fn, Cfg(cut=6, havoc='none', opaque=OPQ, pure=PURE), setup=su, args=[t0]):
                ctx.npaths += 1
                if not ctx.ob('flush-all', fn + tag, s.kind != 'cut', 'with %d entries the flush ends' % k, s): continue
                ev = s.flat(); F = s.final.facts; rm = only(ev, 'rbtree_remove'); fr = [e.args[0] for e in only(ev, 'free')]; rel = [e.args[0] for e in only(ev, RELS)]
                gone = [x for x in A[:k] if fr.count(x)]; n = len(gone); seen.add(n)
                ctx.ob('flush-oldest', fn + tag, gone == A[:n], 'the entries unused for longest go first', s)
                left = A[n:k]; r = [H] + left
                ok = all(final(ctx, s, x, pv) is r[i - 1] and final(ctx, s, x, nx) is r[(i + 1) % len(r)] for i, x in enumerate(r))
                c1 = final(ctx, s, CNT, 0, 4); d = offset_of(c1, CNT, 0)
                ok = ok and len(rm) == n and all(fr.count(x) == 1 and sum(1 for e in rm if reads(e.args[1], x, nod)) == 1 for x in gone) and (d is not None and d[1] == -n) and not [e for e in ev if e.kind == 'uaf']
                ctx.ob('flush-all', fn + tag, ok, 'a flushed entry leaves the tree, the list and the count, and is freed once; the others stay', s)
                for x in gone:
                    for o in (kho, adr, suc):
                        rr = [y for y in (rel if o != kho else fr) if reads(y, x, o)]
                        ctx.ob('flush-addresses', fn + tag, o == kho or RELS not in strict or all(nonnull(e.snap.facts, e.args[0]) for e in only(ev, RELS) if e.args[0] in rr), 'only an address that is there is given back', s)
                        ctx.ob('flush-addresses', fn + tag, len(rr) == 1 or not rr and any(reads(y, x, o) and isnull(F, y) for y in F), 'its name and addresses are given back once each', s)
                ctx.ob('flush-addresses', fn + tag, all(any(reads(y, x, o) for x in gone for o in (adr, suc)) for y in rel) and len(fr) <= 2 * n, 'nothing else is given back', s)
                if d is None: continue
                old = lambda x: [v for v in (lt(F, sub(t0, y), C(IDLE)) for y in times(F, x)) if v is not None]
                many = lambda j: [v for v in (lt(F, add(d[0], C(-j)), C(MAXN)),) if v is not None]
                for j, x in enumerate(gone):
                    o, m_ = False in old(x), False in many(j); seen |= {'old'} if o else set(); seen |= {'many'} if m_ else set()
                    ctx.ob('flush-due', fn + tag, o or m_, 'only an entry unused for an hour, or one too many, is flushed', s)
                ctx.ob('flush-rest', fn + tag, not left or True in old(left[0]) and True in many(n), 'every entry that is due is flushed', s)
        ctx.ob('addr-cases', fn + tag, seen == {0, 1, 2, 3, 'old', 'many'}, 'found %s' % seen)
        # ---- fibers
        fn = 'kfiber_net_getaddr'; FA = 'kgl_find_addr'; S = ctx.run(fn, opaque=(FA, CUR, TLS) + WAITS + (REF, RELS)); host, out = ctx.args; seen = set(); cbs = set(); RV, ARG = ctx.off('_kfiber', 'retval'), ctx.off('_kfiber', 'arg')
        for s in S:
            ev = s.flat(); F = s.final.facts; g = only(ev, 'getaddrinfo'); f = only(ev, FA)
            ok = len(g) == 1 and g[0].args[0] is host and s.const(at(ctx, g[0], g[0].args[2], 0, 4)) == 4
            if not ctx.ob('numeric-ask', fn + tag, ok, 'a numeric address is tried first, without asking a server', s): continue
            o = final(ctx, s, out, 0); r = ptr_split(g[0].args[3])
            if not f:
                seen.add('numeric'); ok = fresh_obj(o) and decode(final(ctx, s, o, aad)) == r and s.const(final(ctx, s, o, arf, 4)) == 1 and s.const(s.ret) == 0 and not waits(s) and any(decode(t) == r and nonnull(F, t) for t in F) and not calls(s, REF) and not calls(s, RELS)
                ctx.ob('numeric-answer', fn + tag, ok, 'a numeric address is answered at once with a reference for the caller', s); continue
            e = f[0]; fb = e.args[3]; seen.add('lookup'); cbs.add(e.args[2])
            ok = len(f) == 1 and e.args[0] is host and same(F, e.args[1], C(ctx.p.enum('kgl_addr_ip'))) and e.args[2].op == 'f' and is_tls(e.args[4]) and s.const(at(ctx, e, fb, RV, 4)) not in (0, None) and at(ctx, e, fb, ARG) is out
            ctx.ob('lookup-start', fn + tag, ok and any(decode(t) == r and isnull(F, t) for t in F), 'any other name is looked up for the running fiber, on its own loop', s)
            rr = suspended(ctx, fn, s, e, fb, tag=tag); result(ctx, fn, s, rr, tag)
        ctx.ob('addr-cases', fn + tag, seen == {'numeric', 'lookup'} and len(cbs) == 1, 'found %s' % seen)
        for cb in cbs:
            fn = cb.args[0]; S = ctx.run(fn, opaque=WAKE + (CUR, TLS, REF, RELS), pure=(REF, RELS)); fb, a = ctx.args; seen = set()
            for s in S:
                ev = s.flat(); F = s.final.facts; w = [e for e in ev if is_call(e, *WAKE)]; has = nonnull(F, a); seen.add(bool(has))
                if not ctx.ob('wake-once', fn + tag, len(w) == 1 and w[0].args[0] is fb, 'the fiber is woken once', s): continue
                ok = s.const(w[0].args[-1]) == (0 if has else -1) if s.const(w[0].args[-1]) is not None else False
                out = at(ctx, w[0], fb, ARG); st = [e for e in ev if e.kind == 'st' and decode(e.args[0]) == (fb, ARG)]
                ctx.ob('wake-address', fn + tag, ok and len(taken(ev, a)) == (1 if has else 0) and not only(ev, RELS) and len(st) == (1 if has else 0) and all(e.args[2] is a and e.args[1] == 0 for e in st) and s.const(s.ret) == ctx.p.enum('kev_fiber_ok'), 'an address found is given with a reference, otherwise -1', s)
            ctx.ob('addr-cases', fn + tag, seen == {True, False}, 'found %s' % seen)
        # ---- housekeeping
        fn = 'kgl_addr_init'; OI = ('kasync_worker_init', 'selector_manager_on_ready', 'rbtree_create'); S = ctx.run(fn, opaque=OI, pure=OI); seen = set(); timers = set()
        for s in S:
            ev = s.flat(); mi, (wi, rd, tc) = only(ev, 'pthread_mutex_init'), [only(ev, n) for n in OI]; st = [e for e in ev if e.kind == 'st']
            if not (mi or wi or rd or tc or st): seen.add('again'); continue
            seen.add('new'); ok = [e.args[0] for e in mi] == [LK] and len(wi) == len(rd) == len(tc) == 1 and all(any(e.args[2] is x.ret and e.args[0].op == 'g' for e in st) for x in (wi[0], tc[0])) and (s.const(wi[0].args[0]) or 0) > 0 and (s.const(wi[0].args[1]) or 0) > 0
            ok = ok and (final(ctx, s, CNT, 0, 4) is initial(CNT, 0) or s.const(final(ctx, s, CNT, 0, 4)) == 0) and rd[0].args[0].op == 'f' and ev.index(rd[0]) > max(ev.index(x) for x in mi + wi + tc)
            ctx.ob('cache-new', fn + tag, ok, 'a new cache is empty, has its lock and its jobs, and is flushed once the loops exist', s)
            if ok: timers.add(rd[0].args[0].args[0])
        ctx.ob('addr-cases', fn + tag, seen == {'new', 'again'}, 'setting up again changes nothing: %s' % seen)
        for fn in timers:
            for s in ctx.run(fn, opaque=('get_perfect_selector',)):
                g = only(s.flat(), 'get_perfect_selector'); n = [e for e in s.flat() if e.kind == 'icall']
                ctx.ob('cache-new', fn + tag, len(g) == len(n) == 1 and n[0].name == 'kgl_selector_module.next' and n[0].args[0] is g[0].ret and n[0].args[2].op == 'f' and n[0].args[3] is g[0].ret, 'flushing starts once, on a loop, told that loop', s)
        fn = 'kgl_addr_timer'; FL = 'kgl_flush_addr_cache'; S = ctx.run(fn, opaque=(FL, 'kselector_add_timer')); sel = ctx.args[1]
        for s in S:
            ev = s.flat(); f = only(ev, FL); t = only(ev, 'kselector_add_timer')
            ok = len(f) == len(t) == 1 and any(f[0].args[0] is x.ret for x in only(ev, 'time')) and t[0].args[0] is sel and t[0].args[1].op == 'f' and t[0].args[1].args[0] == fn and t[0].args[2] is sel and (s.const(t[0].args[3]) or 0) > 0
            ctx.ob('flush-periodic', fn + tag, ok, 'the cache is flushed periodically', s)
