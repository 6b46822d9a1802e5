"""Program model: runs the Clang extractor over /repo's current sources and
offers typed access to the resulting CFGs, records, enums and globals."""
import glob, hashlib, json, os, subprocess, sys, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = os.path.join(VERIF, 'tool')
REPO = os.environ.get('EFSW_REPO', '/repo')
RESDIR = '/usr/lib/llvm-18/lib/clang/18'


class AnalysisError(Exception):
    """The check could not be carried out (anchor vanished, parse error, ...)."""


def ensure_tool():
    exe = os.path.join(TOOL, 'extract')
    src = os.path.join(TOOL, 'extract.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = subprocess.run(['bash', os.path.join(TOOL, 'build.sh')], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot build extractor: ' + r.stderr[-2000:])
    return exe


def sources(repo=REPO):
    s = sorted(glob.glob(repo + '/src/efsw/*.cpp')) + sorted(glob.glob(repo + '/src/efsw/platform/posix/*.cpp'))
    if len(s) < 10:
        raise AnalysisError('only %d translation units found under %s' % (len(s), repo))
    return s


class Fn:
    __slots__ = ('usr', 'q', 'n', 'file', 'line', 'ret', 'lam', 'cls', 'virt', 'static', 'access', 'ov', 'isctor',
                 'isdtor', 'params', 'blocks', 'entry', 'exit', 'nodes', 'decls', 'livein', 'parents', 'internal',
                 'externC', 'heads', 'loops', 'du2d', 'exprorder',
                 'varlive')

    def __init__(self, d):
        self.usr = d['usr']; self.q = d['q']; self.n = d['n']; self.file = d['file']; self.line = d['line']
        self.ret = d['ret']; self.lam = d.get('lambda', False); self.cls = d.get('cls'); self.virt = d.get('virt', False)
        self.static = d.get('static', False); self.access = d.get('access'); self.ov = d.get('ov', [])
        self.isctor = d.get('isctor', False); self.isdtor = d.get('isdtor', False)
        self.internal = d.get('internal', False); self.externC = d.get('externC', False)
        self.params = d['params']
        self.nodes = {int(k): v for k, v in d['nodes'].items()}
        self.decls = {int(k): v for k, v in d['decls'].items()}
        if 'blocks' not in d:
            raise AnalysisError('no CFG for ' + self.q)
        self.blocks = {b['id']: b for b in d['blocks']}
        self.entry = d['entry']; self.exit = d['exit']
        self._parents(); self._live(); self._varlive(); self._loops()

    def __repr__(self):
        return '<Fn %s>' % self.q

    @staticmethod
    def kids(n):
        out = []
        for k in ('sub', 'base', 'idx', 'l', 'r', 'c', 'a', 'b', 'obj', 'init', 'size', 'fnexpr'):
            v = n.get(k)
            if isinstance(v, int) and not isinstance(v, bool):
                out.append(v)
        for k in ('args', 'elems', 'ch'):
            for v in n.get(k, ()):
                if isinstance(v, int):
                    out.append(v)
        for c in n.get('caps', ()):
            if isinstance(c.get('init'), int):
                out.append(c['init'])
        return out

    @staticmethod
    def elem_kids(e):
        k = e['k']
        if k in ('e', 'init', 'tdtor', 'ddtor'):
            return [e['n']] if isinstance(e.get('n'), int) else []
        if k == 'ret':
            return [e['v']] if isinstance(e.get('v'), int) else []
        if k == 'decl':
            return [v['init'] for v in e['vars'] if isinstance(v.get('init'), int)]
        return []

    def _parents(self):
        self.parents = {}
        for i, n in self.nodes.items():
            for k in self.kids(n):
                self.parents.setdefault(k, []).append(('n', i))
        for b in self.blocks.values():
            for e in b['e']:
                if e['k'] == 'decl':
                    for v in e['vars']:
                        if isinstance(v.get('init'), int):
                            self.parents.setdefault(v['init'], []).append(('d', v['d']))
                elif e['k'] == 'init' and isinstance(e.get('n'), int):
                    self.parents.setdefault(e['n'], []).append(('i', e.get('f')))
                elif e['k'] == 'ret' and isinstance(e.get('v'), int):
                    self.parents.setdefault(e['v'], []).append(('r', 0))

    def _live(self):
        use, de = {}, {}
        elems = {e['n'] for b in self.blocks.values() for e in b['e'] if e['k'] == 'e'}
        for bid, b in self.blocks.items():
            u, d = set(), set()
            for e in b['e']:
                ks = self.elem_kids(e)
                if e['k'] == 'ddtor' or e['k'] == 'tdtor' and 'lock' not in str(e.get('t', {}).get('s', 'lock')):
                    ks = []
                if e['k'] == 'e':
                    for k in self.kids(self.nodes[e['n']]):
                        if k not in d:
                            u.add(k)
                    d.add(e['n'])
                else:
                    for k in ks:
                        if k not in d:
                            u.add(k)
            t = b.get('term')
            if t:
                if isinstance(t.get('cond'), int) and t['cond'] not in d:
                    u.add(t['cond'])
            use[bid], de[bid] = u & elems, d
        self.livein = {b: set() for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for bid, b in self.blocks.items():
                lo = set()
                for s in b['s']:
                    if s is not None:
                        lo |= self.livein[s]
                li = use[bid] | (lo - de[bid])
                if li != self.livein[bid]:
                    self.livein[bid] = li
                    ch = True

    def _varlive(self):
        use, de = {}, {}
        target = {}
        for nid, x in self.nodes.items():
            l = None
            if x['k'] == 'assign' and x.get('op') == '=':
                l = x['l']
            elif x['k'] == 'call' and x.get('n') == 'operator=' and isinstance(x.get('obj'), int) and not x.get('repo'):
                l = x['obj']
            if l is not None and self.nodes[l]['k'] == 'var':
                target[l] = nid
        defs = {nid: l for l, nid in target.items()}
        for bid, b in self.blocks.items():
            u, d = set(), set()
            for e in b['e']:
                ns = []
                if e['k'] == 'e':
                    ns = [e['n']]
                for n in ns:
                    x = self.nodes[n]
                    if x['k'] == 'var' and x['d'] not in d and n not in target:
                        u.add(x['d'])
                    if n in defs:
                        d.add(self.nodes[defs[n]]['d'])
                    for c in x.get('caps', ()):
                        if 'd' in c and c['d'] not in d:
                            u.add(c['d'])
                if e['k'] == 'adtor' and e['d'] not in d and not e['t'].get('s', '').startswith(
                        ('std::basic_string', 'std::vector', 'std::map', 'std::unordered_map', 'std::list', 'std::set')):
                    u.add(e['d'])
                if e['k'] == 'decl':
                    for v in e['vars']:
                        d.add(v['d'])
            use[bid], de[bid] = u, d
        self.varlive = {b: set() for b in self.blocks}
        ch = True
        while ch:
            ch = False
            for bid, b in self.blocks.items():
                lo = set()
                for s in b['s']:
                    if s is not None:
                        lo |= self.varlive[s]
                li = use[bid] | (lo - de[bid])
                if li != self.varlive[bid]:
                    self.varlive[bid] = li
                    ch = True

    def _loops(self):
        # natural loops: back edges found by DFS
        self.heads = set()
        self.loops = {}
        preds = {b: [] for b in self.blocks}
        for bid, b in self.blocks.items():
            for s in b['s']:
                if s is not None:
                    preds[s].append(bid)
        color = {}
        back = []
        stack = [(self.entry, iter([s for s in self.blocks[self.entry]['s'] if s is not None]))]
        color[self.entry] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if color.get(s) == 1:
                    back.append((n, s))
                elif s not in color:
                    color[s] = 1
                    stack.append((s, iter([x for x in self.blocks[s]['s'] if x is not None])))
                    break
            else:
                color[n] = 2
                stack.pop()
        for (t, h) in back:
            body = self.loops.setdefault(h, {h})
            self.heads.add(h)
            wl = [t]
            while wl:
                x = wl.pop()
                if x in body:
                    continue
                body.add(x)
                wl.extend(preds[x])

    def loc(self, line=None):
        return '%s:%s (%s)' % (self.file, line or self.line, self.q.replace('efsw::', ''))


class Prog:
    def __init__(self, repo=REPO):
        self.repo = repo
        exe = ensure_tool()
        srcs = sources(repo)
        flags = ['-std=c++11', '-I' + repo + '/include', '-I' + repo + '/src', '-DNDEBUG', '-w', '-resource-dir', RESDIR]
        self.tus = [os.path.relpath(s, repo) for s in srcs]
        groups = [srcs[i::8] for i in range(8)]
        procs = []
        for g in groups:
            if not g:
                continue
            out = tempfile.TemporaryFile('w+')
            err = tempfile.TemporaryFile('w+')
            procs.append((subprocess.Popen([exe, repo] + g + ['--'] + flags, stdout=out, stderr=err), out, err))
        self.fns, self.records, self.enums, self.globals = {}, {}, {}, {}
        for p, out, err in procs:
            rc = p.wait()
            out.seek(0); err.seek(0)
            if rc:
                raise AnalysisError('extractor failed (rc %d): %s' % (rc, err.read()[-1500:]))
            d = json.load(out)
            for k, v in d['functions'].items():
                if k not in self.fns:
                    self.fns[k] = Fn(v)
            for k, v in d['records'].items():
                self.records.setdefault(k, v)
            for k, v in d['enums'].items():
                self.enums.setdefault(k, v)
            for k, v in d['globals'].items():
                self.globals.setdefault(k, v)
            out.close(); err.close()
        self.byq = {}
        for f in self.fns.values():
            self.byq.setdefault(f.q, []).append(f)
        self.overriders = {}
        for f in self.fns.values():
            for o in f.ov:
                self.overriders.setdefault(o, []).append(f.usr)
        self.lambda_owner = {}
        for f in self.fns.values():
            for n in f.nodes.values():
                if n['k'] == 'lambda':
                    self.lambda_owner[n['usr']] = f.usr
        if len(self.fns) < 100:
            raise AnalysisError('only %d functions extracted' % len(self.fns))

    def fn(self, q, pred=None, must=True):
        c = [f for f in self.byq.get(q, []) if pred is None or pred(f)]
        if len(c) != 1:
            if must:
                raise AnalysisError('anchor %s: %d candidates' % (q, len(c)))
            return None
        return c[0]

    def fnq(self, q):
        r = self.byq.get(q, [])
        if not r:
            raise AnalysisError('anchor %s vanished' % q)
        return r

    def bases(self, cls):
        out = []
        for b in self.records.get(cls, {}).get('bases', []):
            out.append(b)
            out += self.bases(b)
        return out

    def fields(self, cls):
        r = self.records.get(cls)
        if r is None:
            raise AnalysisError('class %s vanished' % cls)
        return {f['n']: f for f in r['fields']}

    def field(self, cls, name):
        q = cls + '::' + name
        if q not in self.fields(cls):
            raise AnalysisError('field %s vanished' % q)
        return q

    def owner(self, usr):
        """outermost named function of a lambda"""
        while usr in self.lambda_owner:
            usr = self.lambda_owner[usr]
        return usr
