"""A guarded do-while loop, `if (c) do B while (c)`, rewritten as `while (c) B`.

Both tests are the same instructions at the end of their blocks, up to the values
the loop carries (its phis); they are merged into one header block.  Semantics are
unchanged; the rules then see one form of the loop, however it was written."""
import copy

INV = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SKIP = ('i', 'l', 'sf', 'a', 'v', 'cv', 'in', 't')

def _succ(t):
    if t['k'] == 'br': return list(t['t'])
    if t['k'] == 'switch': return [t['d']] + [c[1] for c in t['cs']]
    if t['k'] == 'invoke': return [t['nd']]
    return []

def _preds(blocks):
    P = [set() for _ in blocks]
    seen, w = {0}, [0]
    while w:
        b = w.pop()
        for s in _succ(blocks[b][-1]):
            P[s].add(b)
            if s not in seen: seen.add(s); w.append(s)
    return P, seen

def _isid(o): return isinstance(o, dict) and len(o) == 1 and 'i' in o

def _subst(o, m):
    if isinstance(o, dict):
        if _isid(o): return copy.deepcopy(m[o['i']]) if o['i'] in m else o
        return {k: _subst(v, m) for k, v in o.items()}
    if isinstance(o, list): return [_subst(x, m) for x in o]
    return o

def _chain(blocks, b):
    """the block and the trivial ones after it: only phis and a jump"""
    out = [b]
    while len(out) < 8:
        x = blocks[out[-1]]
        if x[-1]['k'] != 'br' or len(x[-1]['t']) != 1 or any(i['k'] != 'phi' for i in x[:-1]): break
        n = x[-1]['t'][0]
        if n in out: break
        out.append(n)
    return out

def _phi_in(blocks, b, pred):
    return {p['i']: v for p in blocks[b] if p['k'] == 'phi' for q, v in p['in'] if q == pred}

def _carry(blocks, frm, chain, upto):
    """values the phis of chain[upto] take when reached from block frm along the chain"""
    vals = {}; prev = frm
    for b in chain[:upto + 1]:
        new = {k: _subst(v, vals) for k, v in _phi_in(blocks, b, prev).items()}
        last = new
        vals = dict(vals); vals.update(new)
        prev = b
    return last

def _tail(G, T, ginit, phis, inv):
    """longest k such that the last k instructions agree; returns [(g, t)] pairs or None.
    phis: {(json of g value, json of t value): phi id}"""
    best = None
    k = 1
    while k < len(G) and k < len(T) + 0 and k <= 40:
        g, t = G[-1 - k], T[-1 - k]
        if g['k'] in ('phi', 'store', 'alloca') or g['k'] != t['k']: break
        k += 1
        gs, ts = G[-k:-1], T[-k:-1]
        mp = {}; ok = True
        def eq(a, b):
            if _isid(a) and _isid(b):
                if a['i'] in mp or b['i'] in mp.values(): return mp.get(a['i']) == b['i']
                if (str(a), str(b)) in phis: return True
                return a == b
            if (str(a), str(b)) in phis: return True
            if type(a) != type(b): return False
            if isinstance(a, dict): return set(a) == set(b) and all(eq(a[x], b[x]) for x in a)
            if isinstance(a, list): return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
            return a == b
        for n, (x, y) in enumerate(zip(gs, ts)):
            kx = {q: v for q, v in x.items() if q not in SKIP}; ky = {q: v for q, v in y.items() if q not in SKIP}
            if inv and n == len(gs) - 1:
                if x['k'] != 'icmp' or INV.get(kx.pop('pr')) != ky.pop('pr'): ok = False; break
            if kx != ky or not all(eq(x.get(q), y.get(q)) for q in ('a', 'v', 'cv')): ok = False; break
            mp[x['i']] = y['i']
        if ok and mp.get(G[-1]['a'][0].get('i')) == T[-1]['a'][0].get('i') and T[-1]['a'][0].get('i') is not None: best = k
    return best

def _one(blocks):
    P, seen = _preds(blocks)
    nid = 1 + max(i['i'] for b in blocks for i in b)
    for ti in sorted(seen):
        T = blocks[ti]
        if T[-1]['k'] != 'br' or len(T[-1]['t']) != 2 or T[-1]['t'][0] == T[-1]['t'][1]: continue
        for side in (0, 1):
            bi = T[-1]['t'][side]; lp = []
            while blocks[bi][-1]['k'] == 'br' and len(blocks[bi][-1]['t']) == 1 and len(blocks[bi]) == 1 and len(P[bi]) == 1 and bi not in lp and len(lp) < 8:
                lp.append(bi); bi = blocks[bi][-1]['t'][0]
            if bi in lp: continue
            latch = lp[-1] if lp else ti
            others = P[bi] - {latch}
            if latch not in P[bi] or len(others) != 1 or bi == 0: continue
            # back edge: B dominates T -- every way to T from the entry goes through B
            st, w = {0}, [0]
            if bi != 0:
                while w:
                    b = w.pop()
                    for s in _succ(blocks[b][-1]):
                        if s not in st and s != bi: st.add(s); w.append(s)
            if ti in st: continue
            # the guard: back from the other predecessor through trivial blocks
            pre = others.pop(); path = [bi]; cur = pre
            while blocks[cur][-1]['k'] == 'br' and len(blocks[cur][-1]['t']) == 1 and len(blocks[cur]) == 1 and len(P[cur]) == 1:
                path.insert(0, cur); cur = next(iter(P[cur]))
            gi = cur; G = blocks[gi]
            if gi not in st or G[-1]['k'] != 'br' or len(G[-1]['t']) != 2 or G[-1]['t'][0] == G[-1]['t'][1]: continue
            if path[0] not in G[-1]['t']: continue
            gs = G[-1]['t'].index(path[0])
            inv = gs != side
            gx, tx = _chain(blocks, G[-1]['t'][1 - gs]), _chain(blocks, T[-1]['t'][1 - side])
            X = next((b for b in gx if b in tx), None)
            if X is None: continue
            # carried values
            gin = _carry(blocks, gi, path, len(path) - 1); tin = _phi_in(blocks, bi, latch)
            phis = {(str(gin[k]), str(tin[k])): k for k in gin if k in tin}
            k = _tail(G, T, gin, phis, inv)
            if not k: continue
            gt, tt = G[-k:], T[-k:]
            gid = {i['i'] for i in gt}; tid = {i['i'] for i in tt}
            # build H; instructions of the latch's tail, over the carried values
            h = len(blocks); H = []
            m = {}
            def carried(a, b):
                """a from the guard, b from the latch -> operand in H"""
                nonlocal nid
                if _isid(a) and a['i'] in gid:
                    pos = [i['i'] for i in gt].index(a['i'])
                    if _isid(b) and b['i'] == tt[pos]['i']: return {'i': b['i']}, True
                    return None, False
                if _isid(b) and b['i'] in tid: return None, False
                if (str(a), str(b)) in phis: return {'i': phis[(str(a), str(b))]}, True
                if a == b: return a, True
                n = nid; nid += 1
                newphi.append({'i': n, 'k': 'phi', 'in': [[gi, a], [ti, b]], 'l': T[-1].get('l', 0), 'sf': T[-1].get('sf', '')})
                phis[(str(a), str(b))] = n
                return {'i': n}, True
            newphi = []
            # phis of X
            gxv = _carry(blocks, gi, gx, gx.index(X)); txv = _carry(blocks, ti, tx, tx.index(X))
            xin = {}; bad = False
            for p in blocks[X]:
                if p['k'] != 'phi': continue
                o, ok = carried(gxv[p['i']], txv[p['i']])
                if not ok: bad = True; break
                xin[p['i']] = o
            # values of the tails used anywhere else than in them and in the loop's own phis
            inphi = []
            for p in blocks[bi]:
                if p['k'] == 'phi':
                    o, ok = gin[p['i']], tin[p['i']]
                    if (_isid(o) and o['i'] in gid) or (_isid(ok) and ok['i'] in tid):
                        # carried value computed by the test itself: `while ((x = f()) ...)`
                        pos = [i['i'] for i in gt].index(o['i']) if _isid(o) and o['i'] in gid else None
                        if pos is None or not _isid(ok) or ok['i'] != tt[pos]['i']: bad = True; break
                        inphi.append((p['i'], ok['i']))
            if bad: continue
            # in the copied tail, operands that are carried
            body = []
            gpos = {x['i']: y['i'] for x, y in zip(gt, tt)}
            def mix(a, b):
                if _isid(a) and a['i'] in gid: return {'i': gpos[a['i']]}
                if (str(a), str(b)) in phis: return {'i': phis[(str(a), str(b))]}
                if isinstance(b, dict): return {q: mix(a[q], b[q]) for q in b}
                if isinstance(b, list): return [mix(x, y) for x, y in zip(a, b)]
                return b
            for x, y in zip(gt[:-1], tt[:-1]):
                z = dict(y)
                for q in ('a', 'v', 'cv'):
                    if q in y: z[q] = mix(x[q], y[q])
                body.append(z)
            br = dict(tt[-1]); br['t'] = [0, 0]; br['t'][side] = bi; br['t'][1 - side] = X
            br['a'] = [mix(gt[-1]['a'][0], tt[-1]['a'][0])] if not inv else tt[-1]['a']
            keep = {p for p, _ in inphi}
            moved = []
            for p in blocks[bi]:
                if p['k'] == 'phi' and p['i'] not in keep:
                    q = dict(p); q['in'] = [[gi, gin[p['i']]], [ti, tin[p['i']]]]; moved.append(q)
            H = moved + newphi + body + [br]
            ren = {p: {'i': v} for p, v in inphi}
            # no value of the guard's tail may be used outside (other than through what was handled)
            jump = lambda t: {kk: vv for kk, vv in dict(t, t=[h]).items() if kk not in ('a',)}
            nb = [list(b) for b in blocks]
            nb[gi] = G[:-k] + [jump(G[-1])]
            nb[ti] = T[:-k] + [jump(T[-1])]
            nb[bi] = [i for i in blocks[bi] if i['k'] != 'phi']
            nb.append(H)
            # predecessors of X: H instead of the ends of the two chains when those carried only them
            drop = set()
            if gx[0] == X: drop.add(gi)
            if tx[0] == X: drop.add(ti)
            P2, seen2 = _preds(nb)
            newX = []
            for i in nb[X]:
                if i['k'] == 'phi':
                    i = dict(i); i['in'] = [e for e in i['in'] if e[0] in P2[X]] + [[h, xin[i['i']]]]
                newX.append(i)
            nb[X] = newX
            for b in range(len(nb)):
                if b in (X, h) or b not in seen2: continue
                nb[b] = [dict(i, **{'in': [e for e in i['in'] if e[0] in P2[b]]}) if i['k'] == 'phi' else i for i in nb[b]]
            for b in range(len(nb)):
                if b not in seen2: nb[b] = [{'i': nid, 'k': 'unreachable', 'a': []}]; nid += 1
            if ren: nb = [[_subst(i, ren) if i['k'] != 'phi' else dict(i, **{'in': [[e[0], _subst(e[1], ren)] for e in i['in']]}) for i in b] for b in nb]
            if _valid(nb): return nb
    return None

def _valid(blocks):
    """every use is dominated by its definition"""
    P, seen = _preds(blocks)
    defs = {i['i']: b for b in seen for i in blocks[b]}
    dom = {b: set(seen) for b in seen}; dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in sorted(seen):
            if b == 0: continue
            n = set.intersection(*[dom[p] for p in P[b] if p in seen]) | {b}
            if n != dom[b]: dom[b] = n; ch = True
    def ids(o):
        if isinstance(o, dict):
            if _isid(o): yield o['i']
            else:
                for v in o.values(): yield from ids(v)
        elif isinstance(o, list):
            for v in o: yield from ids(v)
    for b in seen:
        at = {}
        for n, i in enumerate(blocks[b]): at[i['i']] = n
        for n, i in enumerate(blocks[b]):
            if i['k'] == 'phi':
                if {e[0] for e in i['in']} != P[b]: return False
                for q, v in i['in']:
                    for d in ids(v):
                        if d not in defs or defs[d] not in dom[q]: return False
                continue
            for q in ('a', 'v', 'cv'):
                for d in ids(i.get(q)):
                    if d not in defs: return False
                    if defs[d] == b:
                        if at[d] >= n: return False
                    elif defs[d] not in dom[b]: return False
    return True

def _uses(o, out):
    if isinstance(o, dict):
        if _isid(o): out[o['i']] = out.get(o['i'], 0) + 1
        else:
            for v in o.values(): _uses(v, out)
    elif isinstance(o, list):
        for v in o: _uses(v, out)

def _plain(blocks):
    """`!` and `&&` in a condition as branches, whatever statement the condition stands in"""
    U = {}
    for b in blocks:
        for i in b:
            for q in ('a', 'v', 'cv', 'in'): _uses(i.get(q), U)
    for b in blocks:
        t = b[-1]
        while t['k'] == 'br' and len(t['t']) == 2 and len(b) > 1 and b[-2]['k'] == 'xor' and b[-2].get('w') == 1 \
                and t['a'][0] == {'i': b[-2]['i']} and b[-2]['a'][1] == {'c': -1, 'w': 1} and U.get(b[-2]['i']) == 1:
            t['a'] = [b[-2]['a'][0]]; t['t'] = [t['t'][1], t['t'][0]]
            del b[-2]
    for e, b in enumerate(blocks):
        if len(b) != 2 or b[0]['k'] != 'phi' or b[1]['k'] != 'br' or len(b[1]['t']) != 2 or b[1]['a'][0] != {'i': b[0]['i']} or U.get(b[0]['i']) != 1: continue
        if b[1]['t'][0] == b[1]['t'][1] or e in b[1]['t']: continue
        for q, v in list(b[0]['in']):
            if not (isinstance(v, dict) and set(v) == {'c', 'w'}): continue
            y = b[1]['t'][0 if v['c'] else 1]; t = blocks[q][-1]
            if t['k'] != 'br' or t['t'].count(e) != 1 or y in t['t'] or len(b[0]['in']) < 2: continue
            if any(i['k'] == 'phi' and any(x[0] == q for x in i['in']) for i in blocks[y]): continue
            t['t'] = [y if x == e else x for x in t['t']]
            for i in blocks[y]:
                if i['k'] == 'phi':
                    i['in'] = i['in'] + [[q, x[1]] for x in i['in'] if x[0] == e]
            b[0]['in'] = [x for x in b[0]['in'] if x[0] != q]
        if len(b[0]['in']) == 1:
            q, v = b[0]['in'][0]
            b[1]['a'] = [v]; t = blocks[q][-1]
            del b[0]
            if t['k'] == 'br' and t['t'] == [e] and y_ok(blocks, q, e):
                # fold the test into its only predecessor
                blocks[q] = blocks[q][:-1] + [b[0]]
                for s in b[0]['t']:
                    for i in blocks[s]:
                        if i['k'] == 'phi': i['in'] = [[q, x[1]] if x[0] == e else x for x in i['in']]
                blocks[e] = [{'i': b[0]['i'] + 1000000, 'k': 'unreachable', 'a': []}]
    return blocks

def y_ok(blocks, q, e):
    return not any(i['k'] == 'phi' and any(x[0] == q for x in i['in']) for s in blocks[e][-1]['t'] for i in blocks[s])

def unrotate(blocks):
    blocks = _plain(_plain(blocks))
    for _ in range(12):
        n = _one(blocks)
        if n is None: return blocks
        blocks = n
    return blocks
