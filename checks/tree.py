"""Ordered trees: order, links and balance kept by every step; searching, walking and removing visit what they should."""
import itertools
from fw import *
from sync import fld
from tls import only, flat2
from pool import isheap, subst_eqs
import absint

RED, BLACK = 0, 1

class Shape:
    """a tree fragment: named nodes, their children (nodes, nullable leaves or NULL), colours and the place the fragment hangs from"""
    def __init__(s, ctx, top):
        s.PC, s.R, s.L = fld(ctx, 'krb_node', 'rb_parent_color', 'rb_right', 'rb_left'); s.kids = {}; s.col = {}; s.leaf = set(); s.ctx = ctx
        s.root = sym('al', 'root'); s.top = top; s.gg = None if top == 'root' else sym('al', 'above')
    def node(s, name, colour, l, r):
        n = sym('al', name); s.kids[n] = (l, r); s.col[n] = colour; return n
    def lf(s, name):
        n = sym('al', 'sub:' + name); s.leaf.add(n); return n
    def place(s, T):
        s.T = T
        s.par = {T: s.gg or ZERO}
        for n, (l, r) in s.kids.items():
            for c in (l, r):
                if not isc(c): s.par[c] = n
    def setup(s):
        def f(E, st):
            m = st.wmem()
            for n, (l, r) in s.kids.items():
                m[(n, s.L)] = (l, 8, None); m[(n, s.R)] = (r, 8, None)
                p = s.par[n]; m[(n, s.PC)] = (t_bit('or', p, C(s.col[n]), 64), 8, None)
                assume(st.facts, t_eq(n, ZERO), False)
            if s.gg is None: m[(s.root, 0)] = (s.T, 8, None)
            else:
                assume(st.facts, t_eq(s.gg, ZERO), False); assume(st.facts, t_eq(s.root, ZERO), False)
                m[(s.root, 0)] = (sym('al', 'rootnode'), 8, None); assume(st.facts, t_eq(sym('al', 'rootnode'), ZERO), False)
                m[(s.gg, s.L if s.top == 'left' else s.R)] = (s.T, 8, None); m[(s.gg, s.R if s.top == 'left' else s.L)] = (sym('al', 'beside'), 8, None)
        return f
    def before(s): return s.listing(s.T, lambda n: s.kids[n], lambda n: s.col[n])
    def listing(s, T, kids, col):
        """in-order sequence and the black count of every leaf"""
        seq = []; bh = {}; nulls = []
        def go(n, b, d):
            if d > 12: raise ValueError('cycle')
            if isc(n): nulls.append(b); return
            if n in s.leaf: seq.append(n); bh[n] = b; return
            if n not in s.kids: raise ValueError('%s is not part of the tree' % show(n))
            l, r = kids(n); b2 = b + (col(n) == BLACK); go(l, b2, d + 1); seq.append(n); go(r, b2, d + 1)
        go(T, 0, 0)
        return seq, bh, nulls
    def after(s, p):
        """the fragment at the end of path p: (T, kids, colours, parents) or a complaint"""
        g = lambda b, o: final(s.ctx, p, b, o)
        F = p.final.facts
        T = g(s.root, 0) if s.gg is None else g(s.gg, s.L if s.top == 'left' else s.R)
        z = lambda t: ZERO if isnull(F, t) else t
        kids = {n: (z(g(n, s.L)), z(g(n, s.R))) for n in s.kids}; col = {}; par = {}
        for n in s.kids:
            pc = g(n, s.PC)
            if isc(pc): col[n] = cv(pc) & 1; par[n] = ZERO if cv(pc) in (0, 1) else pc
            elif pc.op == 'or' and isc(pc.args[1]): col[n] = cv(pc.args[1]) & 1; par[n] = pc.args[0]
            else: col[n] = RED; par[n] = pc
        return T, kids, col, par
    def check(s, p, colours=False, without=None):
        """same sequence, parents in step with children"""
        try:
            T, kids, col, par = s.after(p); seq, bh, nulls = s.listing(T, lambda n: kids[n], lambda n: col[n])
        except ValueError as e: return str(e)
        F = p.final.facts
        a = [x for x in s.before()[0] if not isnull(F, x) and x is not without]; b = [x for x in seq if not isnull(F, x)]
        if a != b: return 'order %s -> %s' % (' '.join(map(show, a)), ' '.join(map(show, b)))
        if par[T] is not (s.gg or ZERO): return 'the top of the fragment has the wrong parent'
        for n in s.kids:
            if n is without: continue
            for c in kids[n]:
                if isc(c): continue
                if c in s.kids:
                    if par[c] is not n: return '%s is not the parent %s knows' % (show(n), show(c))
                elif nonnull(F, c) or not isnull(F, c):
                    pc = final(s.ctx, p, c, s.PC); i = initial(c, s.PC); same_ = s.par[c] is n
                    mine = pc.op == 'or' and set(pc.args[:2]) == {n, t_bit('and', i, C(3), 64)}
                    if not (mine or same_ and pc is i): return '%s is not the parent %s knows' % (show(n), show(c))
        if s.gg is not None:
            o = s.R if s.top == 'left' else s.L
            if final(s.ctx, p, s.gg, o) is not sym('al', 'beside') or final(s.ctx, p, s.gg, s.PC) is not initial(s.gg, s.PC): return 'the rest of the tree changed'
        if colours and any(col[n] != s.col[n] for n in s.kids if n is not without): return 'colours changed'
        return None

TOPS = ('root', 'left', 'right')

def trees(ctx):
    PC, R, L, D = fld(ctx, 'krb_node', 'rb_parent_color', 'rb_right', 'rb_left', 'data')
    SIDE = ('left', 'right'); CN = {None: 'none', RED: 'red', BLACK: 'black'}
    def run(fn, sh, args, cut=1, **kw):
        S = ctx.e.run(fn, Cfg(cut=cut, **kw), setup=sh.setup(), args=list(args))
        ctx.npaths += len(S); ctx.entries.add(fn); return S
    def kids2(side, a, b): return (a, b) if side == 0 else (b, a)
    def rootblack(sh, p):
        if sh.gg is None:
            try: T, kids, col, par = sh.after(p)
            except ValueError: return False
            return col.get(T) == BLACK if not isc(T) else True
        r = sym('al', 'rootnode')
        return any(e.kind == 'st' and e.args[0] is r and e.args[1] == PC and e.args[2] is t_bit('or', initial(r, PC), ONE, 64) for e in p.flat())
    def strays(sh, p):
        known = set(sh.kids) | sh.leaf | {sh.root, sh.gg}; r = sym('al', 'rootnode')
        return [e for e in p.flat() if e.kind == 'st' and not locals_of(ptr_root(e.args[0])) and e.args[0] not in known and not (e.args[0] is r and sh.gg is not None and e.args[1] == PC)]
    def balance(sh, p, owed=()):
        """(number of black nodes gained per way down, nodes that are red under a red one); `owed`: leaves (and nulls) that were one short"""
        T, kids, col, par = sh.after(p); a = sh.before(); b = sh.listing(T, lambda n: kids[n], lambda n: col[n])
        red = [n for n in sh.kids if n is not T and col[n] == RED and col.get(par[n]) == RED]
        return T, kids, col, par, a, b, red
    # ---- insertion: every local shape
    fn = 'rb_insert_color'
    for top, ps, ns, uc in itertools.product(TOPS, (0, 1), (0, 1), (None, RED, BLACK)):
        sh = Shape(ctx, top); lf = sh.lf
        N = sh.node('node', RED, lf('a'), lf('b')); P = sh.node('parent', RED, *kids2(ns, N, lf('c')))
        U = ZERO if uc is None else sh.node('uncle', uc, lf('d'), lf('e'))
        G = sh.node('grand', BLACK, *kids2(ps, P, U)); sh.place(G)
        tag = '%s, parent %s, node %s, uncle %s' % (top, SIDE[ps], SIDE[ns], CN[uc])
        S = run(fn, sh, [N, sh.root])
        if not S: ctx.ob('insert-shape', tag, False, 'no path')
        for p in S:
            m = sh.check(p); ctx.ob('insert-shape', tag, m is None and not strays(sh, p), m, p)
            if m: continue
            T, kids, col, par, a, b, red = balance(sh, p)
            d = {b[1][x] - a[1][x] for x in b[1]} | ({y - x for x, y in zip(a[2], b[2])})
            ctx.ob('insert-balance', tag, len(d) == 1 and (d == {0} or p.kind != 'cut' and top == 'root'), 'every way down keeps its number of black nodes', p)
            red = red + ([T] if col[T] == RED else [])
            bad = [c for n in sh.kids if col[n] == RED for c in kids[n] if c in (sym('al', 'sub:d'), sym('al', 'sub:e')) and uc == BLACK]
            env = list(p.newv.values()) if p.kind == 'cut' else []
            ok = not bad and (not red or len(red) == 1 and any(v is red[0] for v in env))
            ctx.ob('insert-colours', tag, ok, 'at most the node the next round starts from is red under a red one', p)
            if p.kind != 'cut': ctx.ob('insert-root', tag, rootblack(sh, p), 'the root is black in the end', p)
    for top in TOPS:        # nothing left to repair: the new node is the root, or its parent is black
        for deep in (0, 1):
            if not deep and top != 'root': continue
            for ns in (0, 1) if deep else (0,):
                sh = Shape(ctx, top); lf = sh.lf; N = X = sh.node('node', RED, lf('a'), lf('b'))
                if deep: X = sh.node('parent', BLACK, *kids2(ns, N, lf('c')))
                sh.place(X); tag = 'end: %s%s' % (top, ', under a black parent' if deep else '')
                S = run(fn, sh, [N, sh.root])
                if not S: ctx.ob('insert-end', tag, False, 'no path')
                for p in S:
                    m = sh.check(p); ok = m is None and p.kind != 'cut' and not strays(sh, p) and rootblack(sh, p)
                    if ok: T, kids, col, par = sh.after(p); ok = col[X] == BLACK and (not deep or col[N] == RED)
                    ctx.ob('insert-end', tag, ok, m or 'nothing else changes, the root is black', p)
    # ---- removal: giving back the black node one side is short of
    fn = '__rb_erase_color'; RED2 = (None, RED, BLACK)
    sibs = [(BLACK, near, far) for near in RED2 for far in RED2] + [(RED, near, far) for near in RED2 for far in RED2]
    for top, side, short, pc, (sc, near, far) in itertools.product(TOPS, (0, 1), (None, BLACK), (RED, BLACK), sibs) if fn in ctx.p.funcs else ():
        if sc == RED and pc == RED: continue
        sh = Shape(ctx, top); lf = sh.lf
        N = ZERO if short is None else sh.node('node', BLACK, lf('a'), lf('b'))
        if sc == BLACK:
            mk_ = lambda nm, c: ZERO if c is None else sh.node(nm, c, lf(nm + '1'), lf(nm + '2'))
            S_ = sh.node('sibling', BLACK, *kids2(side, mk_('near', near), mk_('far', far)))
        else:
            mk_ = lambda nm, c: ZERO if c is None else sh.node(nm, c, lf(nm + '1'), lf(nm + '2'))
            S_ = sh.node('sibling', RED, *kids2(side, sh.node('nephew', BLACK, *kids2(side, mk_('near', near), mk_('far', far))), sh.node('other', BLACK, lf('o1'), lf('o2'))))
        P = sh.node('parent', pc, *kids2(side, N, S_)); sh.place(P)
        tag = '%s, %s side short (%s), parent %s, sibling %s, its children %s and %s' % (top, SIDE[side], CN[short], CN[pc], CN[sc], CN[near], CN[far])
        S = run(fn, sh, [N, P, sh.root])
        if not S: ctx.ob('erase-shape', tag, False, 'no path')
        for p in S:
            m = sh.check(p); ctx.ob('erase-shape', tag, m is None and not strays(sh, p), m, p)
            if m: continue
            T, kids, col, par, a, b, red = balance(sh, p)
            # ways down through the short side gain one
            def under(n):
                r = set(); todo = [n]
                while todo:
                    x = todo.pop()
                    if isc(x): r.add(('null',)); continue
                    r.add(x)
                    if x in sh.kids: todo += list(kids[x])
                return r
            def per(l, kids_, T_):
                """way down -> black count; nulls are told apart by their neighbours in the sequence"""
                seq = []
                def go(n, bl, d):
                    if isc(n): seq.append((None, bl)); return
                    if n in sh.leaf: seq.append((n, bl)); return
                    c = bl + ((col if kids_ is kids else sh.col)[n] == BLACK); go(kids_[n][0], c, d + 1); go(kids_[n][1], c, d + 1)
                go(T_, 0, 0); return seq
            F = p.final.facts; wa = per(None, sh.kids, P); wb = per(None, kids, T)
            if len(wa) != len(wb): ctx.ob('erase-balance', tag, False, 'the ways down changed', p); continue
            sub_ = (lambda i, w: w in (sym('al', 'sub:a'), sym('al', 'sub:b'))) if short else (lambda i, w: i == (0 if side == 0 else len(wa) - 1))
            gain = [(x[0], y[1] - x[1] - (1 if sub_(i, x[0]) else 0)) for i, (x, y) in enumerate(zip(wa, wb))]
            live = list(p.newv.values()) if p.kind == 'cut' else []; env = [v for v in live if v in sh.kids]
            if p.kind != 'cut':
                ok = len({g for _, g in gain}) == 1 and (gain[0][1] == 0 or top == 'root'); okc = not red and (col[T] == BLACK or col[T] == sh.col[P])
            else:
                ok = okc = False
                for T2 in env:
                    lv = []        # ways down below T2, by position
                    pos = [0]
                    def go(n, inside):
                        if isc(n) or n in sh.leaf: lv.append(inside); return
                        for c in kids[n]: go(c, inside or n is T2)
                    go(T, False)
                    if T2 is not T and not any(par[x] is T2 for x in sh.kids) and not any(lv): continue
                    if all(g == (-1 if i else 0) for (_, g), i in zip(gain, lv)):
                        ok = True; okc = all(x is T2 or par[x] is T2 for x in red) and (T is T2 or col[T] == BLACK or col[T] == sh.col[P])
                        # the next round must also know the parent of the place that is short
                        q = par[T2]; okc = okc and any(v is q for v in live + [ZERO])
                        if ok and okc: break
                # the node may be a null place: the short side is then known by its parent
                if not ok and short is None and any(isc(v) and cv(v) == 0 for v in live):
                    i = 0 if side == 0 else len(wa) - 1
                    ok = all(g == (-1 if j == i else 0) for j, (_, g) in enumerate(gain)); okc = not red
                if not ok and short is not None:
                    pass
            ctx.ob('erase-balance', tag, ok, 'every way down keeps its number of black nodes, or the next round starts from the place that is short of one: ' + str(gain and [g for _, g in gain]), p)
            ctx.ob('erase-colours', tag, okc, 'no red node is under a red one', p)

    for top, side, c in itertools.product(TOPS, (0, 1), (RED, BLACK)) if fn in ctx.p.funcs else ():       # the short side starts with a red node, or is the whole tree
        sh = Shape(ctx, top); lf = sh.lf; N = sh.node('node', c, lf('a'), lf('b'))
        if c == RED: P = sh.node('parent', BLACK, *kids2(side, N, lf('c'))); sh.place(P)
        else:
            if top != 'root' or side: continue
            P = ZERO; sh.place(N)
        tag = 'end: %s, %s, %s' % (top, SIDE[side], CN[c])
        S = run(fn, sh, [N, P, sh.root])
        if not S: ctx.ob('erase-end', tag, False, 'no path')
        for p in S:
            m = sh.check(p); ok = m is None and p.kind != 'cut' and not strays(sh, p)
            if ok: T, kids, col, par = sh.after(p); ok = col[N] == BLACK and col.get(P, BLACK) == BLACK
            ctx.ob('erase-end', tag, ok, m or 'a red node turning black is all it takes', p)
    # ---- taking a node out, every local shape (successor up to three levels down)
    fn = 'rb_erase'; FIX = '__rb_erase_color'
    def spine(sh, side, depth, colour):
        """a subtree whose outermost node on `side` is `depth` levels down"""
        n = sh.node('next', colour, *kids2(side, ZERO, sh.lf('n')))
        chain = [n]
        for i in range(depth): n = sh.node('up%d' % i, BLACK, *kids2(side, n, sh.lf('u%d' % i))); chain.append(n)
        return n, chain[0], chain
    for top, dc, kind, nc in itertools.product(TOPS, (RED, BLACK), ('none', 'left', 'right', 0, 1, 2, 3), (RED, BLACK)) if FIX in ctx.p.funcs else ():
        if not isinstance(kind, int) and nc == BLACK: continue
        sh = Shape(ctx, top); lf = sh.lf; nx = None
        if kind == 'none': X = sh.node('node', dc, ZERO, ZERO); child = ZERO
        elif kind == 'left': child = lf('a'); X = sh.node('node', dc, child, ZERO)
        elif kind == 'right': child = lf('a'); X = sh.node('node', dc, ZERO, child)
        else:
            r, nx, chain = spine(sh, 0, kind, nc); X = sh.node('node', dc, lf('a'), r); child = sh.kids[nx][1]
        sh.place(X); must = [lf('a')] if kind in ('left', 'right') or nx is not None else []
        base = sh.setup()
        def setup(E, st):
            base(E, st)
            for x in must: assume(st.facts, t_eq(x, ZERO), False)
        sh.setup = lambda: setup
        tag = '%s, %s node, %s' % (top, CN[dc], 'no children' if kind == 'none' else 'one child, ' + kind if nx is None else 'two children, next one (%s) %d below' % (CN[nc], kind + 1))
        S = run(fn, sh, [X, sh.root], cut=6, opaque=(FIX,), pure=(FIX,))
        if not S: ctx.ob('take-shape', tag, False, 'no path')
        for p in S:
            m = sh.check(p, without=X) if nx is not None else None
            F = p.final.facts
            if kind == 'none':
                T = final(ctx, p, sh.root, 0) if sh.gg is None else final(ctx, p, sh.gg, sh.L if top == 'left' else sh.R)
                ok = isnull(F, T)
            elif nx is None:
                T = final(ctx, p, sh.root, 0) if sh.gg is None else final(ctx, p, sh.gg, sh.L if top == 'left' else sh.R)
                pc = final(ctx, p, child, PC); i = initial(child, PC)
                ok = T is child and (pc.op == 'or' and set(pc.args[:2]) == {sh.gg, t_bit('and', i, C(3), 64)} if sh.gg is not None else pc is t_bit('and', i, C(3), 64)); m = None
            else:
                ok = m is None
                if ok:
                    T, kids, col, par = sh.after(p); ok = T is nx and col[nx] == dc and all(col[n] == sh.col[n] for n in sh.kids if n is not X and n is not nx)
            ctx.ob('take-shape', tag, p.kind != 'cut' and ok and not strays(sh, p), m or 'exactly the node is gone, its place is taken over', p)
            gone = dc if nx is None else nc; place = (sh.gg or ZERO) if nx is None else nx if kind == 0 else chain[1]
            fx = [e for e in p.flat() if e.kind == 'call' and e.name == FIX]
            ok = len(fx) == (gone == BLACK)
            for e in fx: 
                ch = e.args[0]
                ok = ok and len(e.args) == 3 and (ch is child or isnull(F, child) and isc(ch)) and e.args[1] is place and e.args[2] is sh.root
                last = [x for x in p.flat() if x.kind == 'st' and x.args[0] in sh.kids]
                ok = ok and (not last or index_of(p.events, e) > index_of(p.events, last[-1]))
            ctx.ob('take-repair', tag, ok, 'taking out a black place is repaired from there, taking out a red one needs nothing', p)
    # ---- whole trees: every red-black tree of a few nodes, every place
    def every(n, red, ink):
        """trees of at most n nodes and ink black nodes on every way down, as (colour, left, right)"""
        if ink == 0: yield None, 0
        for c in ((BLACK,) if red else (RED, BLACK)):
            if n < 1 or c == BLACK and ink == 0: continue
            for l, k in every(n - 1, c == RED, ink - (c == BLACK)):
                for r, m in every(n - 1 - k, c == RED, ink - (c == BLACK)): yield (c, l, r), k + m + 1
    def black(d): return (BLACK, black(d - 1), black(d - 1)) if d else None
    def grow(t, extra=None):
        """a Shape of tree t; `extra`: the gap a new red node is put into"""
        sh = Shape(ctx, 'root'); c = itertools.count(); g = itertools.count(); sh.new = None
        def go(t):
            if t is None:
                if next(g) == extra: sh.new = sh.node('new', RED, ZERO, ZERO); return sh.new
                return ZERO
            l = go(t[1]); k = next(c); r = go(t[2]); return sh.node('n%d' % k, t[0], l, r)
        sh.place(go(t)); return sh
    def text(t): return '-' if t is None else '%s(%s%s)' % ('rb'[t[0]], text(t[1]), text(t[2])) if t[1] or t[2] else 'rb'[t[0]]
    def sound(sh, p, without):
        m = sh.check(p, without=without)
        if m: return m
        T, kids, col, par = sh.after(p); seq, bh, nulls = sh.listing(T, lambda n: kids[n], lambda n: col[n])
        if col[T] != BLACK: return 'the root is red'
        if len(set(nulls)) > 1: return 'not equally many black nodes on every way down'
        if any(n in col and col[n] == RED and any(not isc(c) and col[c] == RED for c in kids[n]) for n in seq): return 'a red node under a red one'
        return None
    deep = ctx.tier == "thorough"
    todo = [t for ink in (1, 2, 3) for t, k in every(9 if deep else 7, True, ink) if t is not None]
    for t in todo + [black(4)] + ([black(3)] if black(3) not in todo else []):
        size = len(grow(t).kids)
        if size <= (8 if deep else 6):
            for k in range(size + 1):
                sh = grow(t, k); S = run('rb_insert_color', sh, [sh.new, sh.root], cut=9); tag = '%s, gap %d' % (text(t), k)
                ctx.ob('insert-whole', tag, len(S) == 1 and S[0].kind != 'cut' and sound(sh, S[0], None) is None, S and sound(sh, S[0], None), S and S[0])
        for k in range(size) if size > 1 else ():
            sh = grow(t); X = [n for n in sh.before()[0] if n in sh.kids][k]; S = run('rb_erase', sh, [X, sh.root], cut=9); tag = '%s, entry %d' % (text(t), k)
            ctx.ob('take-whole', tag, len(S) == 1 and S[0].kind != 'cut' and sound(sh, S[0], X) is None, S and sound(sh, S[0], X), S and S[0])
    sh = grow((BLACK, None, None)); X = sh.T
    for p in run('rb_erase', sh, [X, sh.root], cut=9): ctx.ob('take-whole', 'the only entry', p.kind != 'cut' and isnull(p.final.facts, final(ctx, p, sh.root, 0)), 'an empty tree is left', p)
    # ---- walking
    def result(S, want, tag, sh, rule):
        if not S: ctx.ob(rule, tag, False, 'no path')
        for p in S: ctx.ob(rule, tag, p.kind != 'cut' and (same(p.final.facts, p.ret, want)) and not [e for e in p.flat() if e.kind == 'st' and not locals_of(ptr_root(e.args[0]))], 'walking finds %s, not %s' % (show(want), p.ret and show(p.ret)), p)
    for fn, side in (('rb_first', 0), ('rb_last', 1)):
        sh = Shape(ctx, 'root'); sh.T = ZERO; sh.par = {}
        result(run(fn, sh, [sh.root], cut=6), ZERO, fn + ', empty', sh, 'walk-ends')
        for d in range(4):
            sh = Shape(ctx, 'root'); r, e, ch = spine(sh, side, d, RED); sh.place(r)
            result(run(fn, sh, [sh.root], cut=6), e, '%s, %d below' % (fn, d), sh, 'walk-ends')
    for fn, side in (('rb_next', 1), ('rb_prev', 0)):      # side: where the next one is
        for d in range(4):
          for top in TOPS:
            sh = Shape(ctx, top); r, e, ch = spine(sh, 1 - side, d, RED); X = sh.node('node', BLACK, *kids2(side, r, sh.lf('z'))); sh.place(X)
            result(run(fn, sh, [X], cut=6), e, '%s, %s, %d below' % (fn, top, d + 1), sh, 'walk-step')
          for end in (0, 1):
                sh = Shape(ctx, 'root'); X = n = sh.node('node', BLACK, *kids2(side, ZERO, sh.lf('z')))
                for i in range(d): n = sh.node('up%d' % i, BLACK, *kids2(side, n, sh.lf('u%d' % i)))
                if end: n = sh.node('turn', BLACK, *kids2(1 - side, n, sh.lf('t')))
                sh.place(n); result(run(fn, sh, [X], cut=6), n if end else ZERO, '%s, %d up%s' % (fn, d, '' if end else ', the last one'), sh, 'walk-step')

    # ---- searching: every way through a full tree of three levels, the comparison being a function of key and node only
    LNK = 'rb_insert_color'; TAKE = 'rb_erase'
    def full(levels):
        sh = Shape(ctx, 'root'); c = itertools.count()
        def go(l):
            if isinstance(l, tuple): a = go(l[0]); k = next(c); b = go(l[1]); return sh.node('n%d' % k, BLACK, a, b)
            if l == 0: return ZERO
            a = go(l - 1); k = next(c); b = go(l - 1); return sh.node('n%d' % k, BLACK, a, b)
        sh.place(go(levels)) if levels else None
        if not levels: sh.T = ZERO; sh.par = {}
        base = sh.setup()
        def setup(E, st):
            base(E, st); m = st.wmem()
            if not levels: m[(sh.root, 0)] = (ZERO, 8, None)
            for n in sh.kids: m[(n, D)] = (sym('al', 'data of ' + show(n)), 8, None)
        sh.setup = lambda: setup
        sh.order = [n for n in sh.before()[0] if n in sh.kids]; return sh
    key = sym('al', 'key'); DATA = lambda n: sym('al', 'data of ' + show(n))
    def cmp_(E, st, fr, i, args, work):
        r = sym('cmp', args[1], args[0]); fr.env[i['i']] = r; E.emit(st, 'call', 'verif_cmp', args, r, i); return None
    fresh = sym('al', 'fresh')
    def new_(E, st, fr, i, args, work):
        assume(st.facts, t_eq(fresh, ZERO), False); fr.env[i['i']] = fresh; E.emit(st, 'call', 'verif_new', args, fresh, i); return None
    def junk(E, st, fr, i, args, work):
        st.user = dict(st.user, gone=st.user.get('gone', ()) + (args[0],)); E.emit(st, 'call', TAKE, args, None, i); return None
    def step_(first):
        def f(E, st, fr, i, args, work):
            gone = st.user.get('gone', ()); o = cur.order
            if not first and (args[0] in gone or args[0] not in o): E.emit(st, 'uaf', 'walk', (args[0], ZERO), None, i); fr.env[i['i']] = ZERO; return None
            rest = [n for n in (o if first else o[o.index(args[0]) + 1:]) if n not in gone]
            fr.env[i['i']] = rest[0] if rest else ZERO; E.emit(st, 'call', 'step', args, fr.env[i['i']], i); return None
        return f
    ans = {k: ctx.p.enum(k) for k in ('iterator_continue', 'iterator_remove_continue', 'iterator_break', 'iterator_remove_break')}
    def visit(E, st, fr, i, args, work):
        r = sym('answer', args[0]); lo, hi = min(ans.values()), max(ans.values())
        assume(st.facts, t_slt(r, C(lo)), False); assume(st.facts, t_slt(C(hi), r), False)
        fr.env[i['i']] = r; E.emit(st, 'call', 'verif_visit', args, r, i); return None
    def freed(E, st, fr, i, args, work): E.emit(st, 'call', 'verif_free', args, None, i); return None
    MODELS = {'verif_cmp': cmp_, 'verif_new': new_, TAKE: junk, 'verif_visit': visit, 'verif_free': freed}
    WALK = dict(MODELS, rb_next=step_(False), rb_first=step_(True))
    fp = lambda n: mk('f', n)
    out, flag = sym('al', 'out'), sym('al', 'flag')
    def sign(F, r):
        if ev_cond(F, t_slt(r, ZERO)) is True: return -1
        if ev_cond(F, t_slt(ZERO, r)) is True: return 1
        return 0 if isnull(F, r) else None
    def follow(sh, p):
        """the nodes compared, what the last comparison said; None when the search took a wrong turn"""
        n = sh.T; seen = []
        for e in only(p.flat(), 'verif_cmp'):
            if isc(n) or e.args[0] is not key or e.args[1] is not DATA(n): return None
            s_ = sign(p.final.facts, e.ret); seen.append((n, s_))
            if s_ is None: return None
            if s_ == 0: n = ('hit',); break
            n = sh.kids[n][0 if s_ < 0 else 1]
        if n == ('hit',): return seen, None, only(p.flat(), 'verif_cmp')[-1].ret
        return (seen, n, None) if isc(n) else None
    quiet = lambda p, but=(): not [e for e in p.flat() if e.kind == 'st' and not locals_of(ptr_root(e.args[0])) and e.args[0] not in but]
    for lv in (0, 1, 3, (1, 0), (0, 1), ((0, 1), 0), (0, (1, 0)), ((1, 0), (0, 1))):
        for fn in ('rbtree_find', 'rbtree_find2', 'rbtree_find_cover', 'rbtree_insert', 'rbtree_insert2'):
            sh = full(lv); ins = 'insert' in fn
            args = [sh.root, key] + ([flag] if ins else []) + [fp('verif_cmp')] + ([out] if fn == 'rbtree_find2' else [fp('verif_new')] if fn == 'rbtree_insert2' else [])
            S = run(fn, sh, args, cut=6, opaque=(LNK,), pure=(LNK,), models=MODELS)
            ends = set()
            for p in S:
                tag = '%s, %s' % (fn, lname(lv)); F = p.final.facts; w = follow(sh, p)
                ctx.ob('search-way', tag, p.kind != 'cut' and w is not None, 'smaller goes left, greater goes right, equal stops', p)
                if p.kind == 'cut' or w is None: continue
                seen, end, hit = w; last = seen[-1][0] if seen else None; ends.add(tuple((show(a), b) for a, b in seen))
                if hit is not None:
                    ok = p.ret is last and (quiet(p) if not ins and fn != 'rbtree_find2' else quiet(p, (flag,)) and p.const(final(ctx, p, flag, 0, 4)) == 0 if ins else quiet(p, (out,)) and isnull(F, final(ctx, p, out, 0, 4)))
                    ok = ok and not only(p.flat(), LNK) and not only(p.flat(), 'verif_new') and not only(p.flat(), 'malloc')
                    ctx.ob('search-hit', tag, ok, 'an equal one is found as it is', p)
                elif fn == 'rbtree_find': ctx.ob('search-miss', tag, isnull(F, p.ret) and quiet(p), 'no equal one, no answer', p)
                elif fn == 'rbtree_find2':
                    ok = quiet(p, (out,)) and (isnull(F, p.ret) if last is None else p.ret is last and final(ctx, p, out, 0, 4) is sym('cmp', DATA(last), key))
                    ctx.ob('search-near', tag, ok, 'the last node on the way, and on which side of it the key belongs', p)
                elif fn == 'rbtree_find_cover':
                    below = [n for n in sh.order if n is last and seen[-1][1] > 0 or last is not None and sh.order.index(n) < sh.order.index(last)]
                    want = below[-1] if below else sh.order[-1] if sh.order else ZERO
                    ctx.ob('search-cover', tag, same(F, p.ret, want) and quiet(p), 'the nearest one before the key, or the last of all', p)
                else:
                    N = p.ret; lk = only(p.flat(), LNK); g = lambda b, o: final(ctx, p, b, o)
                    ok = (N is fresh or fn == 'rbtree_insert' and isheap(N) and all(p.const(m.args[0]) >= ctx.p.sizeof('krb_node') for m in only(p.flat(), 'malloc'))) and len(lk) == 1 and lk[0].args[0] is N and lk[0].args[1] is sh.root
                    ok = ok and isnull(F, g(N, L)) and isnull(F, g(N, R)) and (isnull(F, g(N, PC)) if last is None else g(N, PC) is last)
                    ok = ok and (g(sh.root, 0) is N if last is None else g(last, L if seen[-1][1] < 0 else R) is N and g(sh.root, 0) is sh.T)
                    ok = ok and all(g(n, o) is sh.kids[n][k] for n in sh.kids for k, o in enumerate((L, R)) if not (n is last and k == (seen[-1][1] > 0)))
                    if ok: st = [e for e in p.flat() if e.kind == 'st' and (e.args[0] in sh.kids or e.args[0] is sh.root or e.args[0] is N)]; ok = index_of(p.events, lk[0]) > max(index_of(p.events, e) for e in st)
                    ok = ok and quiet(p, set(sh.kids) | {sh.root, N, flag}) and p.const(g4(ctx, p, flag)) not in (None, 0)
                    ctx.ob('search-insert', tag, ok, 'a new node, with nothing below it, where the search ended; then the tree is rebalanced', p)
            count = lambda l: (1 << l) - 1 if isinstance(l, int) else count(l[0]) + count(l[1]) + 1
            want = 2 * count(lv) + 1
            ctx.ob('search-all', '%s, %s' % (fn, lname(lv)), len(ends) == want, '%d of %d ways through the tree' % (len(ends), want))
    # ---- visiting
    fn = 'rbtree_iterator'
    for lv in (0, 1, 2):
        sh = cur = full(lv); arg = sym('al', 'arg'); ways = set()
        for p in run(fn, sh, [sh.root, fp('verif_visit'), arg], cut=6, models=WALK):
            tag = '%d levels' % lv; F = p.final.facts; ev = p.flat(); k = 0; ok = p.kind != 'cut'; i = 0; way = []
            seq = [e for e in ev if e.kind == 'call' and e.name in ('verif_visit', TAKE, 'free')]
            stop = False
            for n in sh.order:
                if stop: break
                if i >= len(seq) or seq[i].name != 'verif_visit' or seq[i].args[0] is not DATA(n) or seq[i].args[1] is not arg: ok = False; break
                a = next((nm for nm, v in ans.items() if same(F, seq[i].ret, C(v))), None); i += 1; way.append(a)
                if a is None: ok = False; break
                if 'remove' in a:
                    if i + 1 >= len(seq) or seq[i].name != TAKE or seq[i].args[0] is not n or seq[i].args[1] is not sh.root or seq[i + 1].name != 'free' or seq[i + 1].args[0] is not n: ok = False; break
                    i += 2
                stop = a.endswith('break')
            ways.add(tuple(way))
            ctx.ob('visit', tag, ok and i == len(seq), 'every node is visited once, in order; the answer decides whether it is removed and whether to go on', p)
            ctx.ob('visit-freed', tag, not [e for e in ev if e.kind == 'uaf'], 'a removed node is not looked at again', p)
        want = {0: 1, 1: 4, 2: 4 + 0}[lv]
        if lv == 2: want = 2 + 2 * (2 + 2 * 4)
        ctx.ob('visit-all', '%d levels' % lv, len(ways) == want, '%d of %d' % (len(ways), want))
    for fn, fr_ in (('rbtree_remove', 'free'), ('rbtree_remove2', 'verif_free')):
        sh = full(1); n = sh.T
        for p in run(fn, sh, [sh.root, n] + ([fp('verif_free')] if fn == 'rbtree_remove2' else []), cut=6, models=MODELS):
            seq = [(e.name, e.args[0]) for e in p.flat() if e.kind == 'call' and e.name in (TAKE, 'free', 'verif_free')]
            ctx.ob('remove', fn, seq == [(TAKE, n), (fr_, n)], 'taken out of the tree, then freed once', p)
    for p in ctx.run('rbtree_destroy'): ctx.ob('create', 'rbtree_destroy', [e.args[0] for e in p.flat() if is_call(e, *FREE)] == ctx.args[:1], 'a tree is given back once', p)
    for p in ctx.run('rbtree_create'):
        if not isnull(p.final.facts, p.ret): ctx.ob('create', 'rbtree_create', isheap(p.ret) and isnull(p.final.facts, final(ctx, p, p.ret, 0)), 'a new tree is empty', p)
    for p in ctx.run('rbtree_init'): ctx.ob('create', 'rbtree_init', isnull(p.final.facts, final(ctx, p, ctx.args[0], 0)), 'a new tree is empty', p)
    S = ctx.run('rbtree_is_empty'); a = ctx.args[0]
    for p in S: 
        e_ = isnull(p.final.facts, initial(a, 0)); r = p.ret
        ctx.ob('create', 'rbtree_is_empty', r is t_eq(initial(a, 0), ZERO) or r.op == 'zext' and r.args[0] is t_eq(initial(a, 0), ZERO) or p.const(r) is not None and bool(p.const(r)) == e_, 'empty means no node', p)
    # ---- the comparisons that come with it
    fn = 'rbtree_int_cmp'
    S = ctx.run(fn); a, b = ctx.args; x, y = sym('m', a, 0, None), sym('m', b, 0, None)
    for p in S:
        F = p.final.facts
        for v, F1 in orders(F, subst_eqs(p.final, x), subst_eqs(p.final, y)):
            s_ = [w for w, F2 in signs(F1, p.ret)]
            ctx.ob('compare-int', fn, s_ == [v], 'the sign says which of the two is greater', p)
    for fn, by in (('rbtree_string_cmp', ('strcmp',)), ('rbtree_string_case_cmp', ('strcasecmp',)), ('rbtree_file_cmp', ('strcmp', 'strcasecmp'))):
        S = ctx.run(fn); a, b = ctx.args
        for p in S:
            c = [e for n in by for e in only(p.flat(), n)]
            ctx.ob('compare-text', fn, len(c) == 1 and c[0].args[0] is initial(a, 0) and c[0].args[1] is initial(b, 0) and p.ret is c[0].ret, 'the two texts are compared, in this order', p)

def lname(l): return '%d levels' % l if isinstance(l, int) else 'shape ' + str(l).replace(' ', '')
def g4(ctx, p, b): return final(ctx, p, b, 0, 4)
def orders(F, x, y):
    for v, cs in ((-1, [(t_slt(x, y), True)]), (1, [(t_slt(y, x), True)]), (0, [(t_eq(x, y), True)])):
        f = dict(F)
        try:
            for c, w in cs: assume(f, c, w)
        except Infeasible: continue
        yield v, f
def signs(F, r):
    k, d = lin_parts(r); v = C(k) if not isinstance(k, Term) else k
    for t, c in (d.items() if isinstance(d, dict) else d):
        b = ev_cond(F, t.args[0] if t.op == 'zext' else t) if t.op in ('slt', 'eq', 'not', 'zext', 'ult') else None
        v = add(v, mulc(t, c) if b is None else C(c if b else 0))
    r = v
    for v, c in ((-1, t_slt(r, ZERO)), (1, t_slt(ZERO, r)), (0, t_eq(r, ZERO))):
        f = dict(F)
        if ev_cond(f, c) is False: continue
        try: assume(f, c, True)
        except Infeasible: continue
        yield v, f
