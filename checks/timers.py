"""Timers: creation, ordered insertion, expiry, clock changes, ticks; cross-thread notices."""
from fw import *
from sync import fld, calls, is_next
from fw import _slots
from pool import subst_eqs
from sockio import listnode, L, turn, uniq, segs_of, one, module, is_sel, TLS, SELF_TH, MOD

INS = 'rb_insert_color'; LNK = 'rb_link_node'; FIRST = 'rb_first'; ERASE = 'rb_erase'; RBNEXT = 'rb_next'
NOW = mk('g', 'kgl_current_msec')
class B:
    def __init__(s, ctx):
        t = 'kgl_block_queue_s'
        s.data, s.arg, s.func, s.active, s.next = fld(ctx, t, 'data', 'arg', 'func', 'active_msec', 'next')
        s.left, s.right, s.ndata = fld(ctx, 'krb_node', 'rb_left', 'rb_right', 'data')
        s.block, s.first = fld(ctx, 'kselector_s', 'block', 'block_first')

def item_of(t, b):
    """the tree node whose item field `t` was read from (t = active time of node->data)"""
    d = decode(t)
    if d is None or d[1] != b.active: return None
    d = decode(d[0])
    return d[0] if d and d[1] == b.ndata else None
def order(F, A, b, eqs=()):
    """(node, 'lt'|'gt'|'eq') : how the new deadline A compares with a tree node's, from the facts"""
    out = []
    for t, f in F.items():
        if t.op != 'lin' or len(t.args[1]) != 2 or sorted(c for _, c in t.args[1]) != [-1, 1]: continue
        k, d = t.args
        if A not in (d[0][0], d[1][0]): continue
        o = d[1][0] if d[0][0] is A else d[0][0]; sg = d[0][1] if d[0][0] is A else d[1][1]
        X = item_of(o, b)
        if X is None: continue
        lo, hi = f[0] + k, f[1] + k
        if sg < 0: lo, hi = -hi, -lo
        out.append((X, 'lt' if hi < 0 else 'gt' if lo > 0 else 'eq' if lo == hi == 0 else 'le' if hi <= 0 else 'ge' if lo >= 0 else '?'))
    for k, v in dict(eqs or {}).items():
        X = item_of(k, b) if v is A else item_of(v, b) if k is A else None
        if X is not None: out.append((X, 'eq'))
    return out
def toward(v, X, off):
    """v leads to the child link at `off` of tree node X"""
    if ptr_split(v) == ptr_split(ptradd(X, off)): return True
    return decode(v) == (X, off)

def insert(ctx, fn):
    ctx.cfg = 'ndebug'
    b = B(ctx)
    S = ctx.run(fn, opaque=(INS, LNK, FIRST, ERASE, RBNEXT, SELF_TH), backedge=True); sel, brq = ctx.args
    A = initial(brq, b.active); root = ptradd(sel, b.block)
    kinds = set(); dirs = set(); okdir = {}
    for s in S:
        F = s.final.facts
        loops = [e for e in s.events if e.kind == 'loop' and any(g for g in e.inst.seglist)]
        # directions taken while walking the tree
        for e, flat_, g, be in segs_of(s.events):
            if be is None: continue
            o = order(be.snap.facts, A, b, be.snap.eqs)
            o = [x for x in o if x[1] in ('lt', 'gt', 'eq', 'le', 'ge')]
            vals = slotvals(ctx, e, be)
            goes = {(X, w) for X, _ in o for k, (v0, v1) in vals.items() for w, of in (('left', b.left), ('right', b.right)) if toward(v1, X, of)}
            if not ctx.ob('timer-order', fn, len(goes) == 1 and (goes == {(o[0][0], 'left')} and o[0][1] == 'lt' or goes == {(o[0][0], 'right')} and o[0][1] == 'gt'), 'an earlier deadline goes left, a later one right', s): continue
            dirs.add(list(goes)[0][1])
        lk = [e for e in s.flat() if is_call(e, LNK)]; ic = [e for e in s.flat() if is_call(e, INS)]
        fs = [e for e in s.flat() if e.kind == 'st' and e.args[0] is sel and e.args[1] == b.first]
        newfirst = final(ctx, s, sel, b.first)
        if lk:
            kinds.add('node')
            n = lk[0].args[0]
            ok = len(lk) == 1 and len(ic) == 1 and index_of(s.flat(), lk[0]) < index_of(s.flat(), ic[0]) and ic[0].args[0] is n and ic[0].args[1] is root and final(ctx, s, n, b.ndata) is brq and isnull(F, final(ctx, s, brq, b.next))
            ctx.ob('timer-link', fn, ok, 'a timer with a new deadline gets one tree node of its own', s)
            par, link = lk[0].args[1:]
            at_root = ptr_split(link) == ptr_split(root)
            if at_root: ok = isnull(F, par)
            else:
                ok = False
                for e in loops:
                    ws = {w: k for k, w in e.inst.wsym.items()}
                    pairs = []
                    for _, _, g, be in segs_of([e]):
                        if be is None: continue
                        v = slotvals(ctx, e, be)
                        def val(t): return v[ws[t]][1] if t in ws and ws[t] in v else t
                        p_, l_ = val(par), val(link)
                        pairs.append(any(ptr_split(l_) == ptr_split(ptradd(p_, of)) for of in (b.left, b.right)))
                    if pairs and (link in ws): ok = all(pairs)
                if link.op == 'gep' or link.op == 'sym' and not loops: ok = ok or any(ptr_split(link) == ptr_split(ptradd(par, of)) for of in (b.left, b.right))
            ctx.ob('timer-link', fn, ok, 'the node must be linked below the node it was compared with', s)
            first = ctx.ob('timer-first', fn, leftmost(ctx, s, b, loops, sel, A, n, newfirst, fs, S), 'the first timer to expire must be the leftmost of the tree', s)
        else:
            kinds.add('chain')
            o = [x for x in order(F, A, b, s.final.eqs) if x[1] == 'eq']
            ok = len(o) == 1 and not fs and not ic
            if ok:
                X = o[0][0]
                head = final(ctx, s, X, b.ndata); nx = final(ctx, s, brq, b.next)
                ok = head is brq and decode(nx) == (X, b.ndata) or decode(head) == (X, b.ndata) and decode(nx) == (head, b.next) and final(ctx, s, head, b.next) is brq
            ctx.ob('timer-chain', fn, ok, 'a timer may only join another one with the very same deadline, and loses none', s)
    ctx.ob('timer-cases', fn, 'node' in kinds and dirs == {'left', 'right'}, 'found %s %s' % (sorted(kinds), sorted(dirs)))
    ctx.cfg = 'epoll'
def leftmost(ctx, s, b, loops, sel, A, n, newfirst, fs, allp):
    """block_first is right after inserting node n"""
    F = s.final.facts
    # set from rb_first() after the insertion
    fc = [e for e in s.flat() if is_call(e, FIRST)]
    if fs and any(newfirst is e.ret for e in fc): return True
    took = bool(fs) and newfirst is n
    if fs and not took: return False
    old = [e for e in s.flat() if e.kind == 'call']
    # compared with the old first
    f0 = initial(sel, b.first)
    if took and isnull(F, f0): return True
    c = [x for x in order(F, A, b) if decode(x[0]) == (sel, b.first) or x[0] is f0]
    if c: return (c[0][1] == 'lt') if took else c[0][1] in ('gt', 'ge')
    # a flag that every step to the right clears
    if not loops:
        # not walked at all: an empty tree
        return took
    for e in loops:
        for slot, w in e.inst.wsym.items():
            cs = {cv(o) for o, _ in e.inst.upd[slot] if isc(o)}
            if len(cs) != 1: continue
            c0 = cs.pop(); good = True; nr = 0
            for _, _, g, be in segs_of([e]):
                if be is None: continue
                v = slotvals(ctx, e, be).get(slot)
                o = [x for x in order(be.snap.facts, A, b) if x[1] in ('lt', 'gt')]
                if not o: good = False; break
                if v is None: v = (ZERO, ZERO)   # not touched
                if o[0][1] == 'gt':
                    nr += 1
                    if not (isc(v[1]) and cv(v[1]) != c0): good = False
                else:
                    if not (v[1] is v[0] or isc(v[1]) and isc(v[0]) and cv(v[1]) == cv(v[0])): good = False
            if not good or not nr: continue
            r = ev_cond(F, t_eq(w, C(c0)))
            if r is None and slot[0] == 'm':      # never changed on this path
                m_ = s.final.mem.get(slot[1])
                if m_ and isc(m_[0]): r = cv(m_[0]) == c0
            elif r is None:                      # a register still at its start value (changed ones are widened); it must be tested elsewhere
                r = True if any(ev_cond(x.final.facts, t_eq(w, C(c0))) is False for x in allp) else None
            if r is not None: return r == took
    # paths that left the loop before any widening: the exits of straight executions
    o = [x for x in order(F, A, b) if x[1] in ('lt', 'gt')]
    if o: return took == all(x[1] == 'lt' for x in o)
    return False

def timers(ctx):
    l = L(ctx); b = B(ctx)
    insert(ctx, 'kselector_add_block_queue')
    # --- creation
    ABQ = 'kselector_add_block_queue'
    for fn in ('kselector_add_timer', 'kselector_add_timer_ts', 'selector_manager_add_timer'):
        S = ctx.run(fn, opaque=(ABQ, SELF_TH, 'get_perfect_selector', 'is_selector_manager_init', 'selector_manager_on_ready'))
        args = list(ctx.args); sel = args.pop(0) if fn.startswith('kselector') else None
        R, A, ms, D = args
        for s in S:
            ab = calls(s, ABQ); nx = [e for e in s.flat() if is_next(e)]; rd = calls(s, 'selector_manager_on_ready')
            if not ctx.ob('timer-once', fn, len(ab) + len(nx) + len(rd) == 1, 'a timer is handed to its loop exactly once', s): continue
            e = (ab + nx + rd)[0]; q = e.args[1] if ab or rd else e.args[3]
            g = lambda o: at(ctx, e, q, o, 8)
            act = g(b.active); now = ctx.e.load_snap(e.snap, NOW, 8, None)
            ok = g(b.func) is R and g(b.arg) is A and g(b.data) is D and sub(act, now) in (ms, sub(act, now) if sub(sub(act, now), ms) is ZERO else ms)
            ok = ok and any(dict([(t, c)]) and decode(t) == (NOW, 0) for t, c in (act.args[1] if act.op == 'lin' else ()))
            ok = ok and sub(sub(act, [t for t, c in act.args[1] if decode(t) == (NOW, 0)][0]), ms) is ZERO if act.op == 'lin' else False
            ctx.ob('timer-item', fn, ok and q.op == 'sym' and q.args[0] == 'heap', 'a timer carries its callback, argument and data and is due after the given time', s)
            if ab:
                own = sel is None or ab[0].args[0] is sel
                same_th = fn == 'kselector_add_timer' or any(truth(s.final.facts, x.ret) for x in calls(s, SELF_TH))
                ctx.ob('timer-thread', fn, own and same_th, 'only the loop\'s own thread may touch its timers', s)
            elif nx:
                cb = nx[0].args[2]
                ctx.ob('timer-thread', fn, (sel is None or nx[0].args[0] is sel) and cb.op == 'f', 'from another thread the timer is posted to the loop', s)
                if cb.op == 'f': adds(ctx, cb.args[0], ABQ)
            else:
                cb = rd[0].args[0]
                if ctx.ob('timer-thread', fn, cb.op == 'f', 'posted when the loops exist', s):
                    S2 = ctx.run(cb.args[0], opaque=(ABQ, 'get_perfect_selector')); a2 = ctx.args
                    for s2 in S2:
                        n2 = [x for x in s2.flat() if is_next(x)]
                        ok = len(n2) == 1 and n2[0].args[3] is a2[1] and n2[0].args[2].op == 'f'
                        if ctx.ob('timer-thread', cb.args[0], ok, 'posted once', s2): adds(ctx, n2[0].args[2].args[0], ABQ)
    # --- expiry
    l, S = turn(ctx); sel = ctx.args[0]; fn = 'kselector_check_timeout'
    NT = (sel, b.first); found = set()
    for s, e, g, full, be in uniq(S):
        er = [x for x in g if is_call(x, ERASE)]
        if er:
            if not ctx.ob('expire-once', fn, len(er) == 1, 'one timer node at a time', s): continue
            x = er[0]; n = x.args[0]; F = x.snap.facts
            nx = [y for y in g if is_call(y, RBNEXT) and y.args[0] is n and index_of(g, y) < index_of(g, x)]
            ok = decode(n) == (sel, b.first) and ptr_split(x.args[1]) == ptr_split(ptradd(sel, b.block))
            ctx.ob('expire-first', fn, ok, 'the first timer of the loop is taken out of its tree', s)
            d = [t for t in F if t.op == 'lin' and any(item_of(y, b) is n for y, c in t.args[1]) and any(decode(y) == (NOW, 0) for y, c in t.args[1])]
            due = False
            for t in d:
                for y, c in t.args[1]:
                    if item_of(y, b) is n:
                        z = [q for q, _ in t.args[1] if decode(q) == (NOW, 0)][0]
                        due = due or lt(F, z, y) is False
            ctx.ob('expire-due', fn, due, 'a timer must not run before its time', s)
            fs = [y for y in full if y.kind == 'st' and y.args[0] is sel and y.args[1] == b.first]
            ok = bool(fs) and any(fs[-1].args[2] is y.ret for y in nx) or bool(fs) and any(is_call(y, FIRST) and y.ret is fs[-1].args[2] and index_of(g, y) > index_of(g, x) for y in g)
            ctx.ob('expire-next', fn, ok, 'the next timer in time order becomes the first, found while the node is still in the tree', s)
            found.add('erase')
            if be is not None:
                vals = list(slotvals(ctx, e, be).values()); heads = [v0 for v0, v1 in vals if v1 is n]
                r = ctx.e.load_snap(be.snap, ptradd(n, b.right), 8, None)
                behind = isnull(be.snap.facts, r) and (any(y.kind == 'st' and y.args[1] == b.right and y.args[2] is n and y.args[0] in heads for y in full) or len(heads) > 1 and any(isnull(be.snap.facts, h) for h in heads))
                front = any(same(be.snap.facts, r, h) and not isnull(be.snap.facts, h) or isnull(be.snap.facts, h) and isnull(be.snap.facts, r) for h in heads)
                ran = any(y.kind == 'icall' for z in segs_of([y for y in full if y.kind == 'loop']) for y in z[1])
                ctx.ob('expire-collect', fn, behind or front or ran, 'every expired timer must be collected, in a list that ends', s)
        cbs = [x for x in g if x.kind == 'icall' and x.x is not None and decode(x.x) and decode(x.x)[1] == b.func and 'kgl_block' in str(x.name)]
        if cbs:
            found.add('run'); x = cbs[0]; q = decode(x.x)[0]
            fr = [y for y in g if is_call(y, *FREE)]
            ok = len(cbs) == 1 and decode(x.args[0]) == (q, b.data) and decode(x.args[1]) == (q, b.arg) and s.const(x.args[2]) == 0
            ctx.ob('expire-run', fn, ok, 'a due timer runs once with its own data and argument', s)
            ok = len(fr) == 1 and fr[0].args[0] is q and index_of(g, fr[0]) > index_of(g, x)
            ctx.ob('expire-free', fn, ok, 'a timer is freed once, after it ran', s)
            nxt = be is not None and any(decode(v1) == (q, b.next) for v0, v1 in slotvals(ctx, e, be).values())
            ctx.ob('expire-chain', fn, nxt, 'timers with the same deadline run one after the other', s)
        elif be is not None and b.next != b.right:
            skip = [v1 for v0, v1 in slotvals(ctx, e, be).values() if decode(v1) and decode(v1)[1] == b.next]
            ctx.ob('expire-run', fn, not skip, 'no due timer is passed over', s)
        for y in full:
            if y.kind == 'uaf': ctx.ob('expire-uaf', fn, False, 'a timer must not be used after it was freed', s)
    for s in S:
        for e in s.flat():
            if e.kind == 'uaf' and 'kselector.c' in e.site: ctx.ob('expire-uaf', fn, False, 'freed memory is used', s)
    # the outer loop frees each collected node once, after its chain
    for s, e, g, full, be in uniq(S):
        if be is None: continue
        inner = [x for x in full if x.kind == 'loop' and any(y.kind == 'icall' and 'kgl_block' in str(y.name) for z in segs_of([x]) for y in z[1])]
        if inner:
            fr = [y for y in g if is_call(y, *FREE)]
            ok = len(fr) == 1
            ctx.ob('expire-node', fn, ok, 'the tree node is freed once', s)
            if ok:
                n = fr[0].args[0]
                start = [o for x in inner for _, o, w, ns in _slots(x)]
                ctx.ob('expire-node', fn, any(decode(o) == (n, b.ndata) for o in start) , 'its timers start at the node\'s item', s)
                ctx.ob('expire-node', fn, any(decode(v1) == (n, b.right) for v0, v1 in slotvals(ctx, e, be).values()), 'the next collected node follows', s)
                found.add('nodes')
    ctx.ob('timer-cases', fn, found >= {'erase', 'run', 'nodes'}, 'found %s' % sorted(found))
    clock(ctx)
def clock(ctx):
    """a clock that jumps back shifts every deadline"""
    l = L(ctx); b = B(ctx)
    fn = 'kselector_adjust_time'
    S = ctx.run(fn, opaque=(RBNEXT, FIRST, SELF_TH, TLS), backedge=True); sel, diff = ctx.args; kinds = set(); did = set()
    def shifted(e): 
        r = offset_of(sub(e.args[2], diff), e.args[0], e.args[1]); return r is not None and r[1] == 0
    for s in S:
        own = [truth(s.final.facts, e.ret) for e in calls(s, SELF_TH)]
        nx = [e for e in s.flat() if is_next(e)]
        if nx:
            kinds.add('other'); e = nx[0]; q = e.args[3]; cb = e.args[2]
            ok = own == [False] and len(nx) == 1 and e.args[0] is sel and cb.op == 'f' and at(ctx, e, q, 0, 8) is diff and not [x for x in s.flat() if x.kind == 'st' and x.args[0] is not q]
            if ctx.ob('clock-post', fn, ok, 'another thread posts the change to the loop once', s):
                S2 = ctx.run(cb.args[0], opaque=(fn, TLS)); a2 = ctx.args
                for s2 in S2:
                    c = one(calls(s2, fn)); fr = [x for x in s2.flat() if is_call(x, *FREE)]
                    ctx.ob('clock-post', cb.args[0], c is not None and str(c.args[0].args[1]).startswith(TLS) and c.args[1] is initial(a2[1], 0) and len(fr) == 1 and fr[0].args[0] is a2[1], 'the posted change is applied once with its own amount and freed', s2)
            continue
        kinds.add('own')
        ctx.ob('clock-own', fn, own and own[0] is True, 'only the loop\'s own thread changes its deadlines', s)
        for e, flat_, g, be in segs_of(s.events):
            if be is None: continue
            vals = slotvals(ctx, e, be)
            for x in flat_:
                if x.kind != 'st': continue
                if x.args[1] == b.active and (d := decode(x.args[0])) and d[1] == b.ndata:
                    n = d[0]; ok = shifted(x) and len([y for y in flat_ if y.kind == 'st']) == 1 and any(v0 is n and v1.op == 'sym' and any(is_call(y, RBNEXT) and y.ret is v1 and y.args[0] is n for y in flat_) for v0, v1 in vals.values())
                    if ctx.ob('clock-shift', fn, ok, 'every timer is shifted once by the amount, then the next one', s): did.add('timer')
                elif x.args[1] == l.ms:
                    n = x.args[0]; ok = shifted(x) and len([y for y in flat_ if y.kind == 'st']) == 1 and any(v0 is n and decode(v1) == (n, 8) for v0, v1 in vals.values())
                    if ctx.ob('clock-shift', fn, ok, 'every waiting socket is shifted once by the amount, then the next one', s):
                        for slot, o, w, ns in _slots(e):
                            if w is n or o is n:
                                k = listnode(l, o, sel)
                                if k == 'var':
                                    iv = decode(o)[0].args[2][0][0]; lo, hi = interval(be.snap.facts, iv)
                                    if hi < 100: did.update('list%d' % i for i in range(int(max(lo, 0)), int(hi) + 1))
                                elif k is not None: did.add('list%d' % k)
    ctx.ob('clock-cases', fn, kinds == {'own', 'other'} and did >= {'timer', 'list%d' % l.KGL_LIST_CONNECT, 'list%d' % l.KGL_LIST_RW}, 'timers and both timed lists must be shifted, found %s %s' % (sorted(kinds), sorted(did)))
    # the change reaches every loop
    fm = 'selector_manager_adjust_time'; d = sym('arg:diff_msec'); TAB = sym('al', 'table')
    CNT = ctx.run('get_selector_count')[0].ret.args[1]
    TABG = one(list({e.args[0] for p in ctx.run('is_selector_manager_init', record_loads=True) for e in p.flat() if e.kind == 'ld' and e.args[0].op == 'g'}))
    for n in (0, 1, 2, 3, 4):
        loops_ = [sym('al', 'loop%d' % i) for i in range(n)]
        def tab(E, st):
            m = st.wmem(); m[(CNT, 0)] = (C(n), 4, None); m[(TABG, 0)] = (TAB, 8, None)
            for x in loops_ + [TAB]: assume(st.facts, t_eq(x, ZERO), False)
            for i, x in enumerate(loops_): m[(TAB, 8 * i)] = (x, 8, None)
        P = ctx.e.run(fm, Cfg(cut=n + 2, havoc='none', opaque={fn}, pure=(fn,)), setup=tab, args=[d]); ctx.npaths += len(P); ctx.entries.add(fm)
        ctx.ob('clock-all', fm, bool(P) and all(p.kind != 'cut' for p in P), 'with %d loops it ends' % n)
        for p in P:
            c = calls(p, fn)
            ctx.ob('clock-all', fm, sorted(show(x.args[0]) for x in c) == sorted(map(show, loops_)) and all(x.args[1] is d for x in c), 'each of %d loops is told once, and only those' % n, p)
    fu = 'kselector_update_time'; S = ctx.run(fu, opaque=(fm,)); back = set()
    SEC = mk('g', 'kgl_current_sec')
    for s in S:
        g = one([e for e in s.flat() if is_call(e, 'gettimeofday')])
        if not ctx.ob('clock-read', fu, g is not None, 'the clock is read once', s): continue
        tv = g.args[0]; sec = lambda ev: at(ctx, ev, tv, 0, 8) if ev else final(ctx, s, tv, 0)
        def isms(t):
            if t.op != 'lin' or t.args[0] != 0: return False
            a = [x for x, c in t.args[1] if c == 1000]; q = [x for x, c in t.args[1] if c == 1]
            return len(a) == 1 and len(q) == 1 and len(t.args[1]) == 2 and decode(a[0]) == (tv, 0) and q[0].op in ('sdiv', 'udiv') and decode(q[0].args[0]) == (tv, 8) and isc(q[0].args[1]) and cv(q[0].args[1]) == 1000
        ms = [e.args[2] for e in s.flat() if e.kind == 'st' and e.args[0] is NOW]
        ctx.ob('clock-msec', fu, bool(ms) and all(isms(x) for x in ms), 'the current time is the clock in milliseconds', s)
        sn = [e.args[2] for e in s.flat() if e.kind == 'st' and e.args[0] is SEC]
        cur = {subst_eqs(s.final, x) for f in list(s.final.facts) + list(s.final.eqs) + list(s.final.eqs.values()) for x in f.syms if decode(x) == (tv, 0)}
        ctx.ob('clock-sec', fu, all(decode(x) == (tv, 0) for x in sn) if sn else subst_eqs(s.final, initial(SEC, 0)) in cur, 'the second the clock shows is remembered', s)
        ad = [e for e in s.flat() if is_call(e, fm)]
        bk = [lt(s.final.facts, t, initial(SEC, 0)) for t in [x for f in s.final.facts for x in f.syms if decode(x) == (tv, 0)]]
        isback = True in bk
        back.add(isback)
        ok = len(ad) == (1 if isback else 0) 
        if ad: ok = ok and isms(sum_(ad[0].args[0], initial(NOW, 0)))
        ctx.ob('clock-back', fu, ok, 'exactly when the clock went back all deadlines move by the difference to the old time', s)
    ctx.ob('clock-cases', fu, back == {True, False}, 'found %s' % back)
    # the loop that keeps the clock reads it after every wait, before anything is served
    fs = module(ctx)['select']; bo, _ = ctx.p.bitfield('kselector_s', 'utm'); sl = sym('al', 'loop')
    for on in (0, 1):
        for k in (-1, 0, 1):
            def su(E, st):
                assume(st.facts, t_eq(sl, ZERO), False)
                for o in range(bo // 8 // 4 * 4, bo // 8 // 4 * 4 + 4): st.wmem()[(sl, o)] = (C((0xff if on else 0xff & ~(1 << bo % 8)) if o == bo // 8 else 0), 1, None)
            def wait(E, st, fr, i, a, work):
                x = sym('al', 'socket'); m = st.wmem(); m[(a[1], 0)] = (C(1), 4, None); m[(a[1], 4)] = (x, 8, None); m[(x, l.flg)] = (C(l.STF_READ), 4, None)
                fr.env[i['i']] = C(k); E.emit(st, 'call', 'epoll_wait', a, C(k), i)
            P = ctx.e.run(fs, Cfg(cut=4, havoc='none', opaque={fu, 'kselector_add_list'}, pure=(fu, 'kselector_add_list'), models={'epoll_wait': wait}), setup=su, args=[sl, sym('arg:tmo')]); ctx.npaths += len(P); ctx.entries.add(fs); n = 0
            for p in P:
                if p.kind == 'cut': continue
                n += 1; ev = [e.name for e in p.flat() if is_call(e, fu, 'epoll_wait', 'kselector_add_list')]
                late = 'kselector_add_list' in ev and fu in ev and ev.index('kselector_add_list') < ev.index(fu)
                ctx.ob('clock-turn', fs, (fu in ev[ev.index('epoll_wait'):]) == bool(on) and not late if 'epoll_wait' in ev else False, 'the loop that keeps the clock, and no other, reads it after every wait before it looks at an event', p)
            ctx.ob('clock-turn', fs, n > 0, 'the wait does not end')
def sum_(a, b_): return add(a, b_)
def adds(ctx, cb, ABQ):
    S = ctx.run(cb, opaque=(ABQ, TLS)); a = ctx.args
    for s in S:
        c = one(calls(s, ABQ))
        ctx.ob('timer-thread', cb, c is not None and c.args[1] is a[1] and is_sel(c.args[0], None) and c.args[0].op == 'sym' and str(c.args[0].args[1]).startswith(TLS), 'the posted timer is added once to the running loop', s)

# ------------------------------------------------------------------ cross-thread notices
def notices(ctx):
    ctx.cfg = 'epoll'
    l = L(ctx); m = module(ctx)
    NT = 'kselector_notice_s'
    nres, ndat, narg, ngot, nnext = fld(ctx, NT, 'result', 'data', 'arg', 'got', 'next')
    KN = 'kepoll_notice_selectable_s'
    nst, nlock, nhead = fld(ctx, KN, 'st', 'lock', 'head')
    fn = m.get('next')
    if not fn: raise AnalysisError('no post operation in the back end')
    # --- post
    S = ctx.run(fn, snap_st=True, record_loads=True); sel, D, R, A, G = ctx.args; nb = None
    for s in S:
        ev = s.flat()
        wr = [e for e in ev if is_call(e, 'write', 'eventfd_write')]
        lk = [e for e in ev if is_call(e, LOCK)]; ul = [e for e in ev if is_call(e, UNLOCK)]
        push = [e for e in ev if e.kind == 'st' and e.args[2].op == 'sym' and e.args[2].args[0] == 'heap' and not (ptr_root(e.args[0]).op == 'sym' and ptr_root(e.args[0]).args[0] in ('heap', 'alloca'))]
        if not ctx.ob('post-once', fn, len(push) == 1 and len(lk) == len(ul) == 1 and len(wr) == 1, 'a notice is queued once and the loop is woken once', s): continue
        h = push[0].args[2]; p = ptradd(push[0].args[0], push[0].args[1]); i = index_of(ev, push[0])
        nb = ptradd(p, -nhead)
        ok = ptr_split(lk[0].args[0]) == ptr_split(ptradd(nb, nlock)) and ul[0].args[0] is lk[0].args[0] and index_of(ev, lk[0]) < i < index_of(ev, ul[0])
        ctx.ob('post-lock', fn, ok, 'the queue is changed under its lock', s)
        u = ul[0]; g = lambda o, z=8: at(ctx, u, h, o, z)
        b0, o0 = ptr_split(p)
        rd = [x for x in ev if x.kind == 'ld' and x.args[0] is b0 and x.args[1] == o0]
        ctx.ob('post-lock', fn, bool(rd) and all(index_of(ev, lk[0]) < index_of(ev, x) < index_of(ev, ul[0]) for x in rd), 'the queue is read under its lock', s)
        ok = g(nres) is R and g(ndat) is D and g(narg) is A and g(ngot, 4) is G
        ctx.ob('post-fields', fn, ok, 'the notice must carry its callback, data, argument and result before it is visible', s)
        nx = g(nnext)
        ctx.ob('post-link', fn, decode(nx) == (b0, o0) and at(ctx, u, b0, o0) is h, 'the notice is put in front of the pending ones, none lost', s)
        bad = [e for e in ev[i + 1:] if e.kind in ('st', 'uaf', 'memset') and ptr_root(e.args[0]) is h and index_of(ev, e) > index_of(ev, u)] + [e for e in ev if is_call(e, *FREE)]
        ctx.ob('post-own', fn, not bad, 'a queued notice belongs to the loop, which may already have run and freed it', s)
        w = wr[0]; ok = index_of(ev, w) > i and decode(w.args[0]) is not None and ptr_split(ptradd(*decode(w.args[0]))) == ptr_split(ptradd(nb, nst + l.fd))
        if w.name == 'write': ok = ok and s.const(w.args[2]) == 8 and s.const(at(ctx, w, w.args[1], 0, 8)) == 1
        else: ok = ok and s.const(w.args[1]) == 1
        ctx.ob('post-wake', fn, ok, 'the loop is woken after the notice is queued, counting one notice', s)
        ctx.ob('post-nolock', fn, index_of(ev, w) > index_of(ev, u) or True, '', s)
    # --- set-up
    fi = m['init']; S = ctx.run(fi); sel = ctx.args[0]; cbs = set(); eps = ir.macro_values(['EPOLLIN', 'EPOLLET', 'EPOLLONESHOT', 'EPOLL_CTL_ADD'], ['<sys/epoll.h>'])
    sem = ir.macro_values(['EFD_SEMAPHORE'], ['<sys/eventfd.h>'])['EFD_SEMAPHORE']
    rel = ptr_split(nb)[1]     # offset of the notice queue inside the loop's back-end data
    for s in S:
        c = final(ctx, s, sel, ctx.off('kselector_s', 'ctx')); F = s.final.facts
        if not ctx.ob('init-ctx', fi, c.op == 'sym' and c.args[0] == 'heap', 'the loop gets its back-end data', s): continue
        st = ptradd(c, rel + nst); sb, so = ptr_split(st)
        g = lambda o, z=8: final(ctx, s, sb, so + o, z)
        fd = g(l.fd, 4); ef = [e for e in s.flat() if is_call(e, 'eventfd') and e.ret is fd]
        ok = len(ef) == 1 and s.const(ef[0].args[0]) == 0 and not (s.const(ef[0].args[1]) or 0) & sem
        ctx.ob('init-event', fi, ok, 'the wake-up descriptor counts notices from zero', s)
        rg = [e for e in s.flat() if is_call(e, 'epoll_ctl') and e.args[2] is fd]
        ok = len(rg) == 1 and s.const(rg[0].args[1]) == eps['EPOLL_CTL_ADD']
        if ok:
            mask = s.const(at(ctx, rg[0], rg[0].args[3], 0, 4)); ptr = at(ctx, rg[0], rg[0].args[3], 4, 8)
            ok = mask is not None and mask & eps['EPOLLIN'] and not mask & (eps['EPOLLET'] | eps['EPOLLONESHOT']) and ptr_split(ptr) == (sb, so)
        ctx.ob('init-register', fi, bool(ok), 'the wake-up descriptor is watched, level triggered, naming its socket', s)
        fl = g(l.flg, 4); from_ = s.const(fl)
        ok = from_ is not None and from_ & l.STF_READ and from_ & l.STF_REV and not from_ & l.STF_ET and g(l.sel) is sel and isnull(F, g(l.buf[0]))
        cb = g(l.res[0]); ar = g(l.arg[0])
        ok = ok and cb.op == 'f' and ptr_split(ar) == ptr_split(ptradd(c, rel))
        ctx.ob('init-pending', fi, bool(ok), 'a wake-up must always find its handler pending and registered', s)
        ml = [e for e in s.flat() if is_call(e, 'pthread_mutex_init') and ptr_split(e.args[0]) == ptr_split(ptradd(c, rel + nlock))]
        ctx.ob('init-lock', fi, len(ml) == 1 and isnull(F, final(ctx, s, sb, so - nst + nhead)), 'the queue starts empty with its lock initialised', s)
        if cb.op == 'f': cbs.add(cb.args[0])
    # --- delivery
    if len(cbs) != 1: raise AnalysisError('no unique notice handler')
    cb = cbs.pop(); S = ctx.run(cb, backedge=True, record_loads=True); D, A, G = ctx.args; n = 0
    hb, ho = A, nhead
    for s in S:
        rd = [e for e in s.flat() if is_call(e, 'read', 'eventfd_read')]
        if not ctx.ob('take-read', cb, len(rd) == 1 and rd[0].args[0] is initial(A, nst + l.fd), 'the notice count is read once', s): continue
        cell = rd[0].args[1]
        lps = [e for e in s.events if e.kind == 'loop' and any(x.kind == 'icall' for g in e.inst.seglist for x in g)]
        if any(lps) is False:
            rv = rd[0].ret; failed = differs(s.final.facts, rv, C(8)) if rd[0].name == 'read' else nonnull(s.final.facts, rv)
            z = s.final.mem.get(ptr_split(cell))
            empty = any(same(s.final.facts, t, ZERO) for t in [sym('m', *ptr_split(cell), None)]) or any(decode(t) == ptr_split(cell) and f[0] == f[1] == 0 for t, f in s.final.facts.items())
            ctx.ob('take-all', cb, failed or empty, 'every counted notice must be run', s)
        for e in lps:
            ex = False
            for le, flat_, g, be in segs_of([e]):
                ic = [x for x in flat_ if x.kind == 'icall']
                if be is None: continue
                n += 1
                if not ctx.ob('take-once', cb, len(ic) == 1, 'one notice is run per count', s): continue
                x = ic[0]; d = decode(x.x); h = d[0] if d else None
                ok = d is not None and d[1] == nres and decode(x.args[0]) == (h, ndat) and decode(x.args[1]) == (h, narg) and decode(x.args[2]) == (h, ngot)
                ctx.ob('take-run', cb, ok, 'a notice is delivered with its own data, argument and result', s)
                fr = [y for y in flat_ if is_call(y, *FREE)]
                ctx.ob('take-free', cb, len(fr) == 1 and fr[0].args[0] is h, 'a notice is freed once', s)
                lk = [y for y in flat_ if is_call(y, LOCK)]; ul = [y for y in flat_ if is_call(y, UNLOCK)]
                pop = [y for y in flat_ if y.kind == 'st' and y.args[0] is hb and y.args[1] == ho]
                ok = len(pop) == 1 and decode(h) == (hb, ho) and decode(pop[0].args[2]) == (h, nnext)
                ctx.ob('take-pop', cb, ok, 'the first pending notice is taken, the rest stays', s)
                ok = len(lk) == len(ul) == 1 and pop and ptr_split(lk[0].args[0]) == ptr_split(ptradd(A, nlock)) and index_of(flat_, lk[0]) < index_of(flat_, pop[0]) < index_of(flat_, ul[0]) < index_of(flat_, x)
                ok = ok and all(index_of(flat_, lk[0]) < index_of(flat_, y) < index_of(flat_, ul[0]) for y in flat_ if y.kind == 'ld' and y.args[0] is hb and y.args[1] == ho)
                ctx.ob('take-lock', cb, bool(ok), 'the queue is changed under its lock, which is not held while the notice runs', s)
                vals = slotvals(ctx, le, be)
                cnt = [v for v in vals.values() if v[1] is not None and sub(v[1], v[0]) is C(-1)]
                up = [c for c in counters([e])]
                ok = bool(cnt) or bool(up)
                ctx.ob('take-count', cb, ok, 'each delivery counts one', s)
                starts = [o for _, o, w, ns in _slots(le)]
                if cnt: ctx.ob('take-count', cb, any(decode(o) == ptr_split(cell) or o is initial(*ptr_split(cell)) for o in starts) , 'the count starts at the value read', s)
            # leaving the loop: nothing counted is left
            for slot, w in e.inst.wsym.items():
                ups = e.inst.upd[slot]
                if all(nv is not None and (sub(nv, w) is C(-1) or sub(nv, ov) is C(-1)) for ov, nv in ups):
                    r = ev_cond(s.final.facts, t_eq(w, ZERO))
                    lo, hi = interval(s.final.facts, w)
                    ex = r is True or hi <= 0 or ev_cond(s.final.facts, t_ult(ZERO, w)) is False
                    ctx.ob('take-all', cb, ex, 'every counted notice must be run before the handler returns', s)
        for y in s.flat():
            if y.kind == 'uaf': ctx.ob('take-free', cb, False, 'a freed notice is used', s)
    ctx.ob('take-cases', cb, n > 0, 'no delivery loop found')
