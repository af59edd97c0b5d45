"""Front end: compile /repo's current sources to LLVM IR (sroa'd), dump them with tools/irdump,
and expose the resolved program (functions, record layouts, globals) to the checkers."""
import os, sys, json, hashlib, subprocess, glob, shutil, re, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from unrotate import unrotate

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KASYNC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'irdump')

class AnalysisError(Exception):
    """the analysis itself cannot give an answer (exit code 2)"""

BASE_ON = ['KSOCKET_SSL', 'LINUX', 'HAVE_ACCEPT4', 'HAVE_MEMALIGN', 'HAVE_SETMNTENT', 'HAVE_WRITEV', 'HAVE_READV', 'ENABLE_FCONTEXT']
CONFIGS = {
    'epoll':   dict(on=BASE_ON, flags=[]),
    'uring':   dict(on=BASE_ON + ['LINUX_IOURING'], flags=[]),
    'kbio':    dict(on=BASE_ON + ['ENABLE_KSSL_BIO'], flags=[]),
    'ndebug':  dict(on=BASE_ON, flags=['-DNDEBUG']),
}

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return p.returncode, p.stdout, p.stderr

def build_tool():
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    flags = subprocess.check_output(['llvm-config', '--cxxflags'], text=True).split()
    flags = [f for f in flags if not f.startswith('-std=')]
    ld = subprocess.check_output(['llvm-config', '--ldflags'], text=True).split()
    tmp = TOOL + '.%d' % os.getpid()
    rc, o, e = sh(['clang++', '-O1', '-w'] + flags + ['-std=c++17', src, '-o', tmp] + ld + ['-lLLVM-18'])
    if rc:
        raise AnalysisError('cannot build irdump: ' + e.decode()[-2000:])
    os.replace(tmp, TOOL)

def gen_config(on):
    t = open(os.path.join(REPO, 'include', 'kasync_config.h.in')).read()
    out = []
    for l in t.splitlines():
        m = re.match(r'\s*#cmakedefine\s+(\w+)', l)
        if m:
            out.append('#define %s' % m.group(1) if m.group(1) in on else '/* #undef %s */' % m.group(1))
        else:
            out.append(l)
    return '\n'.join(out) + '\n'

def repo_hash(cfg):
    h = hashlib.sha256()
    for d in ('include', 'src', 'fcontext/src'):
        for p in sorted(glob.glob(os.path.join(REPO, d, '*'))):
            if os.path.isfile(p) and not p.endswith('kasync_config.h'):
                h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(open(os.path.join(VERIF, 'tools', 'irdump.cpp'), 'rb').read())
    for m in (os.path.abspath(__file__), os.path.join(os.path.dirname(os.path.abspath(__file__)), 'unrotate.py')):
        h.update(open(m, 'rb').read())
    h.update('\n'.join(sorted(named())).encode())
    h.update(cfg.encode())
    return h.hexdigest()[:24]

def named():
    """every identifier the rules and the engine mention"""
    out = set()
    for p in glob.glob(os.path.join(VERIF, 'checks', '*.py')) + glob.glob(os.path.join(VERIF, 'engine', '*.py')):
        out |= set(re.findall(r'[A-Za-z_]\w+', open(p).read()))
    return out

def compile_config(cfg):
    build_tool()
    key = repo_hash(cfg)
    cdir = os.path.join(BUILD, 'cache', cfg + '-' + key)
    done = os.path.join(cdir, 'done')
    if os.path.exists(done):
        try: os.utime(cdir)
        except OSError: pass
        return cdir
    os.makedirs(os.path.join(BUILD, 'cache'), exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, 'cache', cfg + '-*')):
        try: age = time.time() - os.path.getmtime(old)
        except OSError: continue    # removed by another run in the meantime
        if age > 120: shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    c = CONFIGS[cfg]
    hdr = os.path.join(tmp, 'kasync_config.h')
    open(hdr, 'w').write(gen_config(c['on']))
    vfs = os.path.join(tmp, 'vfs.yaml')
    json.dump({'version': 0, 'case-sensitive': 'true', 'roots': [
        {'name': os.path.join(REPO, 'include', 'kasync_config.h'), 'type': 'file', 'external-contents': hdr}]}, open(vfs, 'w'))
    probe = os.path.join(tmp, 'hdr_probe.c')
    skip = {'kforwin32.h', 'kkqueue_selector.h', 'kiocp_selector.h', 'kiouring_selector.h', 'kepoll_selector.h'}
    with open(probe, 'w') as f:
        f.write('#include "kfeature.h"\n')
        for p in sorted(glob.glob(os.path.join(REPO, 'include', '*.h'))):
            b = os.path.basename(p)
            if b in skip or b == 'kasync_config.h': continue
            f.write('#include "%s"\n' % b)
        # what the accept macro generates for a user's callback
        f.write('#ifdef KACCEPT_CALLBACK\nKACCEPT_CALLBACK(verif_accept) { return kev_ok; }\n#endif\n')
        # the list macros
        f.write('#include "klist.h"\nextern "C" {\nvoid verif_klist_insert(kgl_list *l, kgl_list *x) { klist_insert(l, x); }\nvoid verif_klist_append(kgl_list *l, kgl_list *x) { klist_append(l, x); }\n'
                'void verif_klist_remove(kgl_list *x) { klist_remove(x); }\nbool verif_klist_empty(kgl_list *l) { return klist_empty(l); }\nvoid verif_klist_init(kgl_list *l) { klist_init(l); }\n'
                'void verif_klist_foreach(kgl_list *l, void (*f)(kgl_list *)) { kgl_list *pos; klist_foreach(pos, l) { f(pos); } }\n'
                'void verif_klist_rforeach(kgl_list *l, void (*f)(kgl_list *)) { kgl_list *pos; klist_rforeach(pos, l) { f(pos); } }\n}\n')
        # the inline members of the address class
        f.write('#if defined(KSOCKET_IPV6) && defined(__cplusplus)\n'
                'extern "C" bool verif_ip_less(const ip_addr *a, const ip_addr *b) { return *a < *b; }\n'
                'extern "C" bool verif_ip_equal(const ip_addr *a, const ip_addr *b) { return *a == *b; }\n'
                'extern "C" unsigned verif_ip_hash(ip_addr *a) { return a->get_hash(); }\n#endif\n')
    srcs = sorted(glob.glob(os.path.join(REPO, 'src', '*.c')))
    if not srcs:
        raise AnalysisError('no sources under %s/src' % REPO)
    keep = os.path.join(tmp, 'keep')
    open(keep, 'w').write('\n'.join(sorted(named())))
    def one(src):
        b = os.path.basename(src)[:-2]
        ll = os.path.join(tmp, b + '.bc'); l2 = os.path.join(tmp, b + '.s.bc'); js = os.path.join(tmp, b + '.json')
        extra = ['-femit-all-decls'] if b == 'hdr_probe' else []
        cmd = ['clang', '-x', 'c++', '-std=gnu++14', '-ivfsoverlay', vfs, '-I' + REPO + '/include', '-I' + REPO + '/fcontext/src',
               '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w', '-emit-llvm', '-c'] + c['flags'] + extra + [src, '-o', ll]
        rc, o, e = sh(cmd)
        if rc:
            return (src, 'clang: ' + e.decode()[-1500:])
        rc, o, e = sh([TOOL, '--inline', ll, ll + '.x', keep])
        if rc: return (src, 'irdump: ' + e.decode()[-1500:])
        os.replace(ll + '.x', ll)
        rc, o, e = sh(['opt', '-passes=sroa<preserve-cfg>', ll, '-o', l2])
        if rc: return (src, 'opt: ' + e.decode()[-1500:])
        rc, o, e = sh([TOOL, l2])
        if rc: return (src, 'irdump: ' + e.decode()[-1500:])
        d = json.loads(o)
        for f in d['functions']: f['blocks'] = unrotate(f['blocks'])
        json.dump(d, open(js, 'w'))
        os.unlink(ll); os.unlink(l2)
        return None
    with ThreadPoolExecutor(8) as ex:
        errs = [r for r in ex.map(one, srcs + [probe]) if r]
    if errs:
        shutil.rmtree(tmp, ignore_errors=True)
        raise AnalysisError('front end failed for %s: %s' % (errs[0][0], errs[0][1]))
    open(os.path.join(tmp, 'done'), 'w').write('ok')
    try:
        os.rename(tmp, cdir)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return cdir

class Func:
    __slots__ = ('name', 'key', 'ln', 'file', 'line', 'nargs', 'args', 'sig', 'blocks', 'unit', 'internal', 'preds', 'backedges', 'heads', 'loopblocks', 'live', '_calls', 'insts')
    def __repr__(self): return '<Func %s>' % self.key

class Program:
    def __init__(self, cfg='epoll'):
        self.cfg = cfg
        cdir = compile_config(cfg)
        self.types, self.typedefs, self.enums = {}, {}, {}
        self.globals = {}
        self.funcs = {}          # key -> Func
        self.byname = {}         # name -> [Func]
        self.units = []
        for js in sorted(glob.glob(os.path.join(cdir, '*.json'))):
            d = json.load(open(js))
            unit = os.path.basename(js)[:-5]
            self.units.append(unit)
            for k, v in d['types'].items():
                if k not in self.types or len(v['fields']) > len(self.types[k]['fields']): self.types[k] = v
            self.typedefs.update(d['typedefs']); self.enums.update(d['enums'])
            for k, g in d['globals'].items():
                g['unit'] = unit
                key = k if not g['internal'] else k + '@' + unit
                if key not in self.globals or 'init' in g: self.globals[key] = g
            for f in d['functions']:
                self._add(f, unit)
        for fs in self.byname.values(): fs.sort(key=lambda f: (f.unit == 'hdr_probe', f.unit))
        self._roles()

    # file-local functions the rules speak of, known by what they do when they go by another name
    ROLES = (
        ('kgl_ssl_writev', 'kselectable.c', lambda p, f, c: 'SSL_write' in c and f.nargs == 3),
        ('kgl_ssl_readv', 'kselectable.c', lambda p, f, c: 'SSL_read' in c and f.nargs == 3),
        ('selectable_udp_read_event', 'kselectable.c', lambda p, f, c: 'selectable_recvmsg' in c and f.nargs == 4),
        ('kgl_ssl_session_id_context', 'kgl_ssl.c', lambda p, f, c: 'SSL_CTX_set_session_id_context' in c and 'fopen' in c and f.nargs == 2),
        ('kgl_ssl_session_id_context_from_buffer', 'kgl_ssl.c', lambda p, f, c: 'SSL_CTX_set_session_id_context' in c and 'fopen' not in c and 'EVP_DigestFinal_ex' in c and f.nargs == 2),
        ('kgl_ssl_password_callback', 'kgl_ssl.c', lambda p, f, c: f.nargs == 4 and not p._called(f.name) and p._taken(f)),
        ('epoll_selector_init', 'kepoll_selector.c', lambda p, f, c: f.nargs == 1 and 'epoll_create' in ' '.join(c) and p._taken(f)),
        ('epoll_selector_destroy', 'kepoll_selector.c', lambda p, f, c: f.nargs == 1 and 'close' in c and 'free' in c and p._taken(f)),
    )
    def _callees(self, f): return {i['f'] for b in f.blocks for i in b if i['k'] in ('call', 'invoke') and isinstance(i.get('f'), str)}
    def _called(self, name): return any(name in self._callees(g) for g in self.funcs.values())
    def _taken(self, f):
        w = '"%s"' % f.ln
        return any(w in json.dumps(i.get(q)) for g in self.funcs.values() for b in g.blocks for i in b for q in ('a', 'in', 'v') if q in i) or any(w in json.dumps(g.get('init')) for g in self.globals.values() if g.get('init') is not None)
    def _roles(self):
        for name, file, pred in self.ROLES:
            if name in self.byname: continue
            found = []
            for f in self.funcs.values():
                if not f.internal or os.path.basename(f.file) != file: continue
                c = set(self._callees(f)); w = list(c)
                while w:
                    for g in self.byname.get(w.pop(), []):
                        if g.internal and os.path.basename(g.file) == file: n = self._callees(g) - c; c |= n; w += n
                if pred(self, f, c): found.append((f, c))
            # a helper of the one looked for matches as well: take the outermost
            top = [f for f, c in found if not any(f.name in c2 for f2, c2 in found if f2 is not f)]
            if len(top) != 1: continue
            f = top[0]; old = f.name
            if len(self.byname.get(old, [])) != 1: continue
            for g in self.funcs.values():
                for b in g.blocks:
                    for i in b:
                        if i.get('f') == old and i['k'] in ('call', 'invoke'): i['f'] = name
            self.funcs.pop(f.key); del self.byname[old]
            f.name = f.key = name
            self.funcs[name] = f; self.byname[name] = [f]

    def _add(self, f, unit):
        F = Func()
        F.name = f['name']; F.ln = f['ln']; F.internal = f['internal']; F.unit = unit
        F.file = f.get('file', ''); F.line = f.get('line', 0); F.nargs = f['nargs']; F.args = f['args']; F.sig = f.get('sig', [])
        F.blocks = f['blocks']
        # header inline functions: one copy
        if F.file.endswith('.h'):
            for o in self.byname.get(F.name, []):
                if o.file == F.file and o.line == F.line: return
        for o in self.byname.get(F.name, []):
            if o.ln == F.ln and not F.internal: return
        F.key = F.name if F.name not in self.funcs else F.name + '@' + unit
        self._cfg(F, unit)
        self.funcs[F.key] = F
        self.byname.setdefault(F.name, []).append(F)

    def _cfg(self, F, unit):
        n = len(F.blocks)
        succ = []
        for b in F.blocks:
            t = b[-1]
            if t['k'] == 'br': s = list(t['t'])
            elif t['k'] == 'switch': s = [t['d']] + [c[1] for c in t['cs']]
            elif t['k'] == 'invoke': s = [t['nd']]
            else: s = []
            succ.append(s)
            for i in b:
                self._fixg(i, unit)
        # loops: back edges by iterative DFS (reducible code)
        color = [0] * n; back = set(); order = []
        st = [(0, iter(succ[0]))]; color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1; st.append((v, iter(succ[v]))); break
                elif color[v] == 1: back.add((u, v))
            else:
                color[u] = 2; order.append(u); st.pop()
        F.backedges = back
        F.heads = {v for _, v in back}
        preds = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]: preds[v].append(u)
        F.preds = preds
        lb = {}
        for u, h in back:
            s = lb.setdefault(h, {h})
            w = [u]
            while w:
                x = w.pop()
                if x in s: continue
                s.add(x); w.extend(preds[x])
        F.loopblocks = lb
        # liveness of SSA values at block entry (for pruning)
        uses, defs, phiuse = [], [], [dict() for _ in range(n)]
        def opids(o, out):
            if isinstance(o, dict):
                if 'i' in o and len(o) == 1: out.add(o['i'])
        for bi, b in enumerate(F.blocks):
            u, d = set(), set()
            for i in b:
                if i['k'] == 'phi':
                    for pb, v in i['in']:
                        s = set(); opids(v, s)
                        phiuse[bi].setdefault(pb, set()).update(s)
                else:
                    s = set()
                    for a in i.get('a', []): opids(a, s)
                    if 'cv' in i: opids(i['cv'], s)
                    for a in i.get('v', []): opids(a[0], s)
                    u |= (s - d)
                d.add(i['i'])
            uses.append(u); defs.append(d)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in succ[b]:
                    o |= live[s]; o |= phiuse[s].get(b, set())
                x = uses[b] | (o - defs[b])
                if x != live[b]: live[b] = x; ch = True
        F.live = live
        F._calls = None

    def _fixg(self, i, unit):
        def fx(o):
            if isinstance(o, dict):
                if 'g' in o:
                    k = o['g']
                    if k not in self.globals or self.globals[k].get('internal'):
                        if k + '@' + unit in self.globals: o['g'] = k + '@' + unit
                for v in o.values():
                    if isinstance(v, (dict, list)): fx(v)
            elif isinstance(o, list):
                for v in o: fx(v)
        for k in ('a', 'v', 'in', 'cv'):
            if k in i: fx(i[k])

    # ---- lookups
    def fn(self, name, unit=None):
        fs = self.byname.get(name, [])
        if unit: fs = [f for f in fs if f.unit == unit] or fs
        if not fs: raise AnalysisError('anchor function %s not found in the analysed program (%s)' % (name, self.cfg))
        return fs[0]
    def has(self, name): return name in self.byname
    def tname(self, t):
        t = self.typedefs.get(t, t)
        return t
    def fields(self, t):
        t = self.tname(t)
        if t not in self.types: raise AnalysisError('record type %s not found' % t)
        return self.types[t]['fields']
    def sizeof(self, t):
        t = self.tname(t)
        if t not in self.types: raise AnalysisError('record type %s not found' % t)
        return self.types[t]['size']
    def off(self, t, path):
        for f in self.fields(t):
            if f[0] == path: return f[1] // 8
        raise AnalysisError('field %s.%s not found' % (t, path))
    def bitfield(self, t, path):
        for f in self.fields(t):
            if f[0] == path: return f[1], f[2]
        raise AnalysisError('field %s.%s not found' % (t, path))
    def fieldname(self, t, off, size=None):
        t = self.tname(t)
        if t not in self.types: return None
        best = None
        for f in self.types[t]['fields']:
            if f[1] // 8 == off and (size is None or f[2] == size * 8 or best is None):
                if best is None or (size and f[2] == size * 8): best = f[0]
        return best
    def enum(self, n):
        if n not in self.enums: raise AnalysisError('enumerator %s not found' % n)
        return self.enums[n]
    def gkey(self, dbgname, unit=None):
        for k, g in self.globals.items():
            if g.get('name') == dbgname and (unit is None or g['unit'] == unit): return k
        for k in self.globals:
            if k == dbgname: return k
        raise AnalysisError('global %s not found' % dbgname)

def macro_values(names, header_lines, cfg='epoll'):
    """Evaluate object-like macros of the current headers with the compiler (constant expressions)."""
    c = CONFIGS[cfg]
    with tempfile.TemporaryDirectory() as tmp:
        hdr = os.path.join(tmp, 'kasync_config.h'); open(hdr, 'w').write(gen_config(c['on']))
        vfs = os.path.join(tmp, 'vfs.yaml')
        json.dump({'version': 0, 'case-sensitive': 'true', 'roots': [
            {'name': os.path.join(REPO, 'include', 'kasync_config.h'), 'type': 'file', 'external-contents': hdr}]}, open(vfs, 'w'))
        src = os.path.join(tmp, 'm.c')
        with open(src, 'w') as f:
            for h in header_lines: f.write('#include %s\n' % h)
            for i, n in enumerate(names): f.write('extern "C" const long long kv_%d = (long long)(%s);\n' % (i, n))
        rc, o, e = sh(['clang', '-x', 'c++', '-std=gnu++14', '-ivfsoverlay', vfs, '-I' + REPO + '/include', '-I' + REPO + '/fcontext/src', '-O0', '-w', '-emit-llvm', '-S', src, '-o', '-'] + c['flags'])
        if rc: raise AnalysisError('macro evaluation failed: ' + e.decode()[-800:])
        out = {}
        for m in re.finditer(r'@kv_(\d+) = .*?constant i64 (-?\d+)', o.decode()):
            out[names[int(m.group(1))]] = int(m.group(2))
        miss = [n for n in names if n not in out]
        if miss: raise AnalysisError('macros not constant: %s' % miss)
        return out

if __name__ == '__main__':
    t = time.time()
    p = Program(sys.argv[1] if len(sys.argv) > 1 else 'epoll')
    print(len(p.funcs), 'functions', len(p.units), 'units', time.time() - t)
    dup = {n: [(f.unit, f.line) for f in fs] for n, fs in p.byname.items() if len(fs) > 1}
    print('dups', dup)
