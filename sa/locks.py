"""Interprocedural, context-sensitive lockset and lock-order analysis.

State per program point: the set of (mutex, holder) pairs held, the set of
still-unpublished (fresh) local objects, and whether the worker was joined.
Contexts: callee x locks held at entry x bindings of lock/mutex/fresh
parameters x freshness of `this`.  Mutex identity is the qualified field or
global.  Every analysed function is analysed for every distinct context."""
from .prog import AnalysisError

LOCKT = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock')
MUTEXT = ('std::recursive_mutex', 'std::mutex', 'std::timed_mutex', 'std::recursive_timed_mutex', 'std::shared_mutex')
CW = {'insert', 'emplace', 'push_back', 'push_front', 'emplace_back', 'emplace_front', 'erase', 'clear', 'operator=',
      'pop_back', 'pop_front', 'resize', 'assign', 'swap', 'reserve', 'operator+=', 'append', 'emplace_hint', 'merge',
      'splice', 'remove', 'remove_if', 'replace', 'shrink_to_fit', 'insert_or_assign', 'try_emplace', 'extract', 'reset',
      'store', 'exchange'}
BLOCKING = {'poll', 'ppoll', 'select', 'pselect', 'epoll_wait', 'sleep', 'usleep', 'nanosleep', 'sleep_for', 'sleep_until',
            'pthread_cond_timedwait', 'pthread_cond_wait', 'wait_for', 'wait_until'}


class Access:
    __slots__ = ('field', 'write', 'locks', 'role', 'backend', 'fn', 'line', 'chain')

    def __init__(self, field, write, locks, role, backend, fn, line, chain):
        self.field, self.write, self.locks, self.role, self.backend = field, write, locks, role, backend
        self.fn, self.line, self.chain = fn, line, chain

    def where(self):
        return '%s:%s in %s' % (self.fn.file, self.line, self.fn.q)


class Locks:
    def __init__(self, prog, shared_classes):
        self.p = prog
        self.shared = shared_classes
        self.accesses = {}
        self.edges = {}
        self.selfdead = []
        self.joins = []
        self.blocking = []
        self.callbacks = []
        self.acquired = {}   # role/backend -> set of mutexes
        self.memo = {}
        self.nfun = set()
        self.nctx = 0
        self.callback_entries = {}
        self.role = self.backend = None
        self.chain = []
        self.recursive = {}
        self.unresolved = set()
        self.entry = {}      # function -> locks held at every call of it

    # ---- entry
    def root(self, fn, role, backend, thisfresh=False, held=frozenset()):
        self.role, self.backend = role, backend
        self.memo = {} if getattr(self, '_ctx', None) != (role, backend) else self.memo
        self._ctx = (role, backend)
        return self.analyze(fn, held, (), thisfresh, False, None)

    # ---- helpers
    def mutex_name(self, fn, nid, binds):
        n = fn.nodes[nid]
        while n['k'] in ('load', 'decay') or (n['k'] == 'un' and n['op'] in ('*', '&')):
            n = fn.nodes[n['sub']]
        if n['k'] == 'mem':
            t = n['t']
            if t['s'].startswith('std::recursive'):
                self.recursive[n['f']] = True
            else:
                self.recursive.setdefault(n['f'], False)
            return n['f']
        if n['k'] == 'var':
            d = fn.decls[n['d']]
            b = dict(binds).get(('m', n['d']))
            if b:
                return b
            if d['kind'] in ('global', 'static'):
                nm = d.get('qual') or d['usr']
                self.recursive[nm] = 'recursive' in d['t']['s']
                return nm
            # captured reference in a lambda: fall back on variable name
            return 'var:' + d['name']
        if n['k'] == 'call':
            return 'ret:' + n['q']
        return '?%s:%d' % (fn.q, nid)

    def targets(self, fn, n):
        """Possible callees with a body in the repository."""
        u = n.get('usr')
        out = []
        if n.get('virt') and not n.get('nonvirt'):
            cands = set()
            wl = [u]
            while wl:
                x = wl.pop()
                if x in cands:
                    continue
                cands.add(x)
                wl += self.p.overriders.get(x, [])
            for c in cands:
                f = self.p.fns.get(c)
                if f is None:
                    continue
                # restrict the backend's own hierarchy
                if self.backend and f.cls and 'efsw::FileWatcherImpl' in self.p.bases(f.cls) and f.cls != self.backend:
                    continue
                if self.backend and f.cls and 'efsw::Watcher' in self.p.bases(f.cls):
                    w = self.watch_class()
                    if w and f.cls != w:
                        continue
                out.append(f)
            return out
        f = self.p.fns.get(u)
        return [f] if f else []

    def watch_class(self):
        return {'efsw::FileWatcherInotify': 'efsw::WatcherInotify', 'efsw::FileWatcherGeneric': 'efsw::WatcherGeneric'}.get(
            self.backend)

    def rec(self, fn, field, write, st, line):
        locks = frozenset(m for m, h in st[0])
        key = (field, write, locks, self.role, self.backend, fn.usr, line)
        if key not in self.accesses:
            self.accesses[key] = Access(field, write, locks, self.role, self.backend, fn, line, tuple(self.chain))

    def base_local(self, fn, nid, st, binds, thisfresh):
        """Is the object whose field is accessed local/fresh (not shared)?"""
        n = fn.nodes[nid]
        while True:
            k = n['k']
            if k == 'mem':
                if n['arrow']:
                    b = fn.nodes[n['base']]
                    return self.ptr_local(fn, b, st, binds, thisfresh)
                n = fn.nodes[n['base']]
                continue
            if k == 'var':
                d = fn.decls[n['d']]
                if d['kind'] in ('global', 'static'):
                    return False
                if d['t'].get('ref') or n.get('cap'):
                    return ('fresh', n['d']) in st[1] or ('local', n['d']) in binds
                return True
            if k == 'this':
                return thisfresh
            if k == 'un' and n['op'] == '*':
                return self.ptr_local(fn, fn.nodes[n['sub']], st, binds, thisfresh)
            if k in ('call', 'ctor', 'cond', 'initlist'):
                # a temporary value, unless a reference is returned
                if k == 'call' and n.get('lv'):
                    return False
                return True
            if k in ('load', 'icast'):
                n = fn.nodes[n['sub']]
                continue
            if k == 'sub':
                n = fn.nodes[n['base']]
                continue
            if k == 'decay':
                n = fn.nodes[n['sub']]
                continue
            return False

    def ptr_local(self, fn, b, st, binds, thisfresh):
        while b['k'] in ('load', 'icast'):
            b = fn.nodes[b['sub']]
        if b['k'] == 'this':
            return thisfresh
        if b['k'] == 'var':
            return ('fresh', b['d']) in st[1] or ('local', b['d']) in binds
        if b['k'] == 'un' and b['op'] == '&':
            return self.base_local(fn, b['sub'], st, binds, thisfresh) if isinstance(b['sub'], int) else False
        if b['k'] == 'new':
            return True
        return False

    def freshvar(self, fn, nid, st, binds):
        n = fn.nodes[nid]
        while n['k'] in ('load', 'icast') or (n['k'] == 'un' and n['op'] == '&'):
            n = fn.nodes[n['sub']]
        if n['k'] == 'var' and (('fresh', n['d']) in st[1] or ('local', n['d']) in binds):
            return n['d']
        return None

    # ---- analysis of one function in one context
    def analyze(self, fn, held, binds, thisfresh, joined, thisobj):
        key = (fn.usr, held, binds, thisfresh, joined)
        if not joined and not thisfresh and self.role != 'D':
            names = frozenset(m for m, h in held)
            k = (fn.usr, self.backend)
            self.entry[k] = names if k not in self.entry else self.entry[k] & names
        if key in self.memo:
            r = self.memo[key]
            return r if r is not None else {(held, frozenset(), joined, None, frozenset())}
        self.memo[key] = None
        self.nctx += 1
        self.nfun.add(fn.usr)
        self.chain.append('%s' % fn.q)
        params_fresh = frozenset(('fresh', d) for (k, d) in [b if isinstance(b[0], str) else b[0] for b in binds if isinstance(b[0], str)] if k == 'local')
        init = (held, params_fresh, joined, None)
        seen = {}
        wl = [(fn.entry, init)]
        seen.setdefault(fn.entry, set()).add(init)
        exits = set()
        while wl:
            bid, st = wl.pop()
            b = fn.blocks[bid]
            states = {st}
            for e in b['e']:
                ns = set()
                for s in states:
                    ns |= self.elem(fn, e, s, binds, thisfresh)
                states = ns
            if bid == fn.exit:
                for s in states:
                    pf = frozenset(d for (k, d) in s[1] if k == 'fresh')
                    exits.add((s[0], pf, s[2], s[3], frozenset()))
                continue
            succ = b['s']
            for s in states:
                for i, x in enumerate(succ):
                    if x is None:
                        continue
                    s2 = s
                    t = b.get('term')
                    if t and len(succ) == 2 and isinstance(t.get('cond'), int):
                        c = self.cond_edge(fn, t['cond'], i == 0, s, binds)
                        if c is None:
                            continue
                        s2 = c
                    if s2 not in seen.setdefault(x, set()):
                        seen[x].add(s2)
                        wl.append((x, s2))
        self.chain.pop()
        if not exits:
            exits = {(held, frozenset(), joined, None, frozenset())}
        self.memo[key] = exits
        return exits

    def cond_edge(self, fn, nid, taken, st, binds):
        """A null thread pointer means there is no thread to wait for; try-locks; owns_lock."""
        n = fn.nodes[nid]
        neg = False
        while True:
            if n['k'] == 'un' and n['op'] == '!':
                neg = not neg
                n = fn.nodes[n['sub']]
            elif n['k'] in ('load', 'tobool', 'icast'):
                n = fn.nodes[n['sub']]
            elif n['k'] == 'bin' and n['op'] in ('==', '!='):
                l, r = fn.nodes[n['l']], fn.nodes[n['r']]
                if l['k'] in ('int', 'null') and l.get('v', 0) == 0:
                    o = r
                elif r['k'] in ('int', 'null') and r.get('v', 0) == 0:
                    o = l
                else:
                    return st
                if n['op'] == '==':
                    neg = not neg
                n = o
            else:
                break
        val = taken != neg
        h = n
        if n['k'] == 'call' and n['n'] in ('operator bool', 'get', 'joinable') and isinstance(n.get('obj'), int):
            h = fn.nodes[n['obj']]
        if h['k'] == 'mem' and not val and (h['t'].get('rec') in ('efsw::Thread', 'std::thread') or 'std::thread' in h['t']['s']):
            if self.role == 'W':
                return None    # the worker itself runs: its handle was stored before the launch
            return (st[0], st[1], True, st[3])
        if n['k'] == 'call' and n['n'] in ('operator bool', 'owns_lock') and n.get('cls') in LOCKT:
            o = fn.nodes[n['obj']]
            if o['k'] == 'var':
                has = any(h == (fn.usr, o['d']) for m, h in st[0])
                if has != val:
                    return None
        if n['k'] == 'call' and n['n'] == 'try_lock':
            if not val:
                return (frozenset(x for x in st[0] if not (isinstance(x[1], tuple) and x[1][0] == 'try')), st[1], st[2], st[3])
        return st

    def acquire(self, fn, st, m, holder, line):
        held = frozenset(x for x, h in st[0])
        self.acquired.setdefault((self.role, self.backend), set()).add(m)
        if m in held:
            if not self.recursive.get(m, False):
                self.selfdead.append((m, '%s:%s in %s' % (fn.file, line, fn.q), list(self.chain)))
        else:
            for h in held:
                self.edges.setdefault((h, m), ('%s:%s in %s' % (fn.file, line, fn.q), list(self.chain), self.role))
        return (st[0] | {(m, holder)}, st[1], st[2], st[3])

    def release(self, st, holder):
        return (frozenset(x for x in st[0] if x[1] != holder), st[1], st[2], st[3])

    def holder(self, fn, nid, binds):
        n = fn.nodes[nid]
        while n['k'] in ('load', 'icast') or (n['k'] == 'un' and n['op'] in ('*', '&')):
            n = fn.nodes[n['sub']]
        if n['k'] == 'var':
            b = dict(binds).get(('l', n['d']))
            if b:
                return b
            return (fn.usr, n['d'])
        return (fn.usr, 'n%d' % nid)

    def elem(self, fn, e, st, binds, thisfresh):
        k = e['k']
        line = e.get('line', 0)
        if k == 'e':
            return self.node(fn, e['n'], st, binds, thisfresh)
        if k == 'decl':
            sts = {st}
            for v in e['vars']:
                ini = v.get('init')
                if not isinstance(ini, int):
                    continue
                ns = set()
                for s in sts:
                    ns |= {self.bindvar(fn, v, ini, s, binds)}
                sts = ns
            return sts
        if k == 'adtor':
            if e['t'].get('rec') in LOCKT:
                return {self.release(st, (fn.usr, e['d']))}
            if e['t'].get('rec') in ('efsw::Thread',) and e.get('usr') in self.p.fns:
                return self.call(fn, {'usr': e['usr'], 'n': '~', 'q': '~', 'args': []}, st, binds, thisfresh, line, dtor=True)
            return {st}
        if k == 'tdtor':
            if e['t'].get('rec') in LOCKT:
                return {self.release(st, (fn.usr, 'n%d' % e['n']))}
            return {st}
        if k == 'ddtor':
            if e.get('usr'):
                n = fn.nodes[e['n']]
                return self.call(fn, {'usr': e['usr'], 'n': '~', 'q': '~', 'args': [], 'virt': e.get('virt')}, st, binds,
                                 thisfresh, n.get('line', 0), dtor=True)
            return {st}
        if k == 'ret':
            if isinstance(e.get('v'), int):
                n = fn.nodes[e['v']]
                while n['k'] in ('load', 'icast') or (n['k'] == 'ctor' and n['args'] and n['t'].get('rec') in LOCKT and (n.get('move') or n.get('copy'))):
                    n = fn.nodes[n['sub'] if 'sub' in n else n['args'][0]]
                if n['k'] == 'var' and n['t'].get('rec') in LOCKT:
                    hold = (fn.usr, n['d'])
                    new = frozenset((m, ('ret', fn.usr) if h == hold else h) for m, h in st[0])
                    return {(new, st[1], st[2], st[3])}
                if n['k'] == 'ctor' and n['t'].get('rec') in LOCKT:
                    hold = (fn.usr, 'n%d' % e['v'])
                    new = frozenset((m, ('ret', fn.usr) if h == hold or (isinstance(h, tuple) and h[0] == fn.usr and str(h[1]).startswith('n')) else h) for m, h in st[0])
                    return {(new, st[1], st[2], st[3])}
                if n['k'] == 'var' and ('fresh', n['d']) in st[1]:
                    return {(st[0], st[1], st[2], 'fresh')}
                if n['k'] == 'new':
                    return {(st[0], st[1], st[2], 'fresh')}
            return {st}
        if k == 'init':
            if isinstance(e.get('n'), int) and fn.nodes[e['n']]['k'] == 'ctor':
                return {st}
            return {st}
        return {st}

    def bindvar(self, fn, v, ini, st, binds):
        n = fn.nodes[ini]
        nid = ini
        while n['k'] in ('icast',) or (n['k'] == 'ctor' and (n.get('move') or n.get('copy')) and n['args']):
            nid = n.get('sub', n['args'][0] if n.get('args') else None)
            n = fn.nodes[nid]
        t = v['t'].get('rec')
        if t in LOCKT:
            hs = [(fn.usr, 'n%d' % nid), (fn.usr, 'n%d' % ini)]
            new = set()
            for m, h in st[0]:
                if h in hs or (n['k'] == 'call' and isinstance(h, tuple) and h[0] == 'ret'):
                    new.add((m, (fn.usr, v['d'])))
                else:
                    new.add((m, h))
            return (frozenset(new), st[1], st[2], st[3])
        if n['k'] == 'new' or (n['k'] == 'call' and st[3] == ('callfresh', nid)):
            return (st[0], st[1] | {('fresh', v['d'])}, st[2], st[3])
        if ('fresh', v['d']) in st[1]:
            return (st[0], st[1] - {('fresh', v['d'])}, st[2], st[3])
        return st

    def node(self, fn, nid, st, binds, thisfresh):
        n = fn.nodes[nid]
        k = n['k']
        line = n.get('line', 0)
        if k == 'mem':
            self.access(fn, nid, n, st, binds, thisfresh)
            return {st}
        if k == 'var':
            d = fn.decls[n['d']]
            if d['kind'] in ('global', 'static'):
                self.gaccess(fn, nid, n, d, st)
            return {st}
        if k == 'load':
            # a fresh pointer used in any way other than ->field is published
            sub = fn.nodes[n['sub']]
            if sub['k'] == 'var' and ('fresh', sub['d']) in st[1]:
                if not self.harmless_use(fn, nid):
                    return {(st[0], st[1] - {('fresh', sub['d'])}, st[2], st[3])}
            return {st}
        if k == 'assign':
            l, r = fn.nodes[n['l']], fn.nodes[n['r']]
            if n['op'] == '=' and l['k'] == 'var':
                if r['k'] == 'new' or (r['k'] == 'call' and st[3] == ('callfresh', n['r'])):
                    return {(st[0], st[1] | {('fresh', l['d'])}, st[2], st[3])}
                return {(st[0], st[1] - {('fresh', l['d'])}, st[2], st[3])}
            return {st}
        if k == 'ctor':
            rec = n['t'].get('rec')
            if rec in LOCKT:
                if n.get('move') or n.get('copy'):
                    return {st}
                args = n['args']
                if not args:
                    return {st}
                tag = [fn.nodes[a]['t'].get('rec') or '' for a in args[1:]]
                if any('defer_lock' in t for t in tag):
                    return {st}
                out = st
                hold = self.ctor_holder(fn, nid)
                ms = args if rec == 'std::scoped_lock' else args[:1]
                for a in ms:
                    m = self.mutex_name(fn, a, binds)
                    if any('adopt_lock' in t for t in tag):
                        out = (frozenset((mm, hold if mm == m and h == 'raw' else h) for mm, h in out[0]), out[1], out[2], out[3])
                    elif any('try_to_lock' in t for t in tag):
                        got = self.acquire(fn, out, m, hold, line)
                        return {out, got}
                    else:
                        out = self.acquire(fn, out, m, hold, line)
                return {out}
            if n.get('repo') and n['usr'] in self.p.fns:
                return self.call(fn, n, st, binds, True, line, nid=nid)
            return {st}
        if k == 'call':
            return self.callnode(fn, nid, n, st, binds, thisfresh, line)
        return {st}

    def ctor_holder(self, fn, nid):
        for kind, p in fn.parents.get(nid, []):
            if kind == 'd':
                return (fn.usr, p)
        return (fn.usr, 'n%d' % nid)

    def harmless_use(self, fn, nid):
        for kind, p in fn.parents.get(nid, []):
            if kind == 'n':
                pn = fn.nodes[p]
                if pn['k'] in ('mem', 'memfn') and pn.get('base') == nid:
                    continue
                if pn['k'] in ('tobool',) or (pn['k'] == 'bin' and pn['op'] in ('==', '!=')) or pn['k'] == 'un' and pn['op'] == '!':
                    continue
                if pn['k'] == 'icast':
                    if self.harmless_use(fn, p):
                        continue
                    return False
                if pn['k'] == 'call' and pn.get('repo') and (pn.get('obj') == nid or nid in pn.get('args', [])):
                    continue  # decided by the callee
                return False
            if kind == 'r':
                continue
            return False
        return True

    def callnode(self, fn, nid, n, st, binds, thisfresh, line):
        nm, cls = n['n'], n.get('cls')
        held = frozenset(m for m, h in st[0])
        if cls in LOCKT and 'obj' in n:
            h = self.holder(fn, n['obj'], binds)
            if nm in ('unlock', 'release'):
                keep = frozenset((m, 'raw') if (x == h and nm == 'release') else (m, x) for m, x in st[0] if x != h or nm == 'release')
                self.unlocked = getattr(self, 'unlocked', {})
                for m, x in st[0]:
                    if x == h:
                        self.unlocked[h] = m
                return {(keep, st[1], st[2], st[3])}
            if nm in ('lock', 'try_lock'):
                m = self.lockvar_mutex(fn, n['obj'], binds, h)
                got = self.acquire(fn, st, m, h, line)
                return {got} if nm == 'lock' else {got, st}
            return {st}
        if cls in MUTEXT and 'obj' in n:
            m = self.mutex_name(fn, n['obj'], binds)
            if nm == 'lock':
                return {self.acquire(fn, st, m, 'raw', line)}
            if nm == 'try_lock':
                return {self.acquire(fn, st, m, 'raw', line), st}
            if nm == 'unlock':
                return {(frozenset(x for x in st[0] if not (x[0] == m and x[1] == 'raw')), st[1], st[2], st[3])}
        if nm == 'join' and cls == 'std::thread':
            self.joins.append((held, '%s:%s in %s' % (fn.file, line, fn.q), list(self.chain), self.role, self.backend))
            return {(st[0], st[1], True, st[3])}
        if nm in BLOCKING and not n.get('repo'):
            self.blocking.append((nm, held, '%s:%s in %s' % (fn.file, line, fn.q), list(self.chain), self.role, self.backend))
        if cls == 'efsw::FileWatchListener' and n.get('virt'):
            self.callbacks.append((held, '%s:%s in %s' % (fn.file, line, fn.q), self.role, self.backend))
            for f in self.callback_entries.get(self.backend, []):
                self.analyze(f, frozenset((m, 'outer') for m in held), (), False, st[2], None)
            return {st}
        return self.call(fn, n, st, binds, thisfresh, line, nid=nid)

    def lockvar_mutex(self, fn, obj, binds, h):
        # the mutex given to the constructor of the lock variable
        if h in getattr(self, 'unlocked', {}):
            return self.unlocked[h]
        for b in fn.blocks.values():
            for e in b['e']:
                if e['k'] == 'decl':
                    for v in e['vars']:
                        if (fn.usr, v['d']) == h and isinstance(v.get('init'), int):
                            c = fn.nodes[v['init']]
                            if c['k'] == 'ctor' and c['args']:
                                return self.mutex_name(fn, c['args'][0], binds)
        return '?lock'

    def call(self, fn, n, st, binds, thisfresh, line, nid=None, dtor=False):
        ts = self.targets(fn, n)
        # lambdas handed to anything outside the repository run here
        outs = {st}
        if not ts:
            for a in n.get('args', ()):
                l = self.lambda_of(fn, a)
                if l and not self.thread_ctor(n):
                    lf = self.p.fns.get(l['usr'])
                    if lf:
                        lb = self.lambda_binds(fn, l, st, binds)
                        for r in self.analyze(lf, st[0], lb, thisfresh, st[2], None):
                            outs.add((r[0], st[1], r[2], st[3]))
            if n.get('n') == 'operator()' and 'obj' in n:
                l = self.lambda_of(fn, n['obj'])
                if l and l['usr'] in self.p.fns:
                    lf = self.p.fns[l['usr']]
                    outs = set()
                    for r in self.analyze(lf, st[0], self.lambda_binds(fn, l, st, binds), thisfresh, st[2], None):
                        outs.add((r[0], st[1], r[2], st[3]))
            return outs
        outs = set()
        for f in ts:
            nb = []
            mp = {}
            for prm, a in zip(f.params, n.get('args', ())):
                if not isinstance(a, int):
                    continue
                rt = prm['t'].get('rec') or ''
                if any(rt == m for m in MUTEXT) or prm['t']['s'].rstrip(' *') in MUTEXT:
                    nb.append((('m', prm['d']), self.mutex_name(fn, a, binds)))
                elif rt in LOCKT and prm['t'].get('ref'):
                    nb.append((('l', prm['d']), self.holder(fn, a, binds)))
                else:
                    fv = self.freshvar(fn, a, st, binds)
                    if fv is not None and prm['t'].get('k') == 'ptr':
                        nb.append(('local', prm['d']))
                        mp[prm['d']] = fv
                    elif prm['t'].get('ref') and self.arg_local(fn, a, st, binds, thisfresh):
                        nb.append(('local', prm['d']))
            if dtor:
                tf = False if f.isdtor and f.cls in self.shared else True
            elif n['k'] == 'ctor' if 'k' in n else False:
                tf = True
            elif 'obj' in n and isinstance(n['obj'], int):
                if n.get('arrow'):
                    tf = self.ptr_local(fn, fn.nodes[n['obj']], st, binds, thisfresh)
                else:
                    tf = self.base_local(fn, n['obj'], st, binds, thisfresh)
            else:
                tf = False
            nb = tuple(sorted(nb, key=str))
            for r in self.analyze(f, st[0], nb, tf, st[2], None):
                fresh = st[1]
                for pd, v in mp.items():
                    if pd not in r[1]:
                        fresh = fresh - {('fresh', v)}
                ret = ('callfresh', nid) if r[3] == 'fresh' else st[3]
                outs.add((r[0], fresh, r[2], ret))
        return outs or {st}

    def arg_local(self, fn, a, st, binds, thisfresh):
        n = fn.nodes[a]
        if n.get('lv'):
            return self.base_local(fn, a, st, binds, thisfresh)
        return True

    def thread_ctor(self, n):
        return False

    def lambda_of(self, fn, nid):
        n = fn.nodes.get(nid) if isinstance(nid, int) else None
        seen = 0
        while n is not None and seen < 8:
            seen += 1
            if n['k'] == 'lambda':
                return n
            if n['k'] in ('load', 'icast'):
                n = fn.nodes[n['sub']]
            elif n['k'] == 'ctor' and n['args']:
                n = fn.nodes[n['args'][0]] if isinstance(n['args'][0], int) else None
            elif n['k'] == 'var':
                d = n['d']
                ini = None
                for b in fn.blocks.values():
                    for e in b['e']:
                        if e['k'] == 'decl':
                            for v in e['vars']:
                                if v['d'] == d and isinstance(v.get('init'), int):
                                    ini = v['init']
                n = fn.nodes[ini] if ini else None
            else:
                return None
        return None

    def lambda_binds(self, fn, l, st, binds):
        nb = []
        lf = self.p.fns[l['usr']]
        bd = dict(b for b in binds if not isinstance(b[0], str))
        for c in l['caps']:
            if c.get('this') or 'du' not in c:
                continue
            for d, dd in lf.decls.items():
                if dd['name'] == c['name'] and dd['kind'] in ('local', 'param') and not any(p['d'] == d for p in lf.params):
                    od = fn.decls.get(c['d'])
                    if od is None:
                        continue
                    if ('l', c['d']) in bd:
                        nb.append((('l', d), bd[('l', c['d'])]))
                    elif od['t'].get('rec') in LOCKT:
                        nb.append((('l', d), (fn.usr, c['d'])))
                    elif od['t'].get('k') == 'rec' and not od['t'].get('ref'):
                        nb.append(('local', d))
                    elif ('fresh', c['d']) in st[1] or ('local', c['d']) in binds:
                        nb.append(('local', d))
        return tuple(sorted(nb, key=str))

    # ---- accesses
    def is_write(self, fn, nid, n):
        """How is the lvalue `nid` used by its parents?"""
        ft = n['t']
        for kind, p in fn.parents.get(nid, []):
            if kind == 'd':
                # bound to a reference or copied
                d = fn.decls[p]
                if d['t'].get('ref') and not d['t'].get('const'):
                    if ft.get('const'):
                        continue
                    # a mutable reference: treat as a write only if the reference is used for one
                    if self.ref_written(fn, p):
                        return True
                continue
            if kind != 'n':
                continue
            pn = fn.nodes[p]
            if pn['k'] == 'assign' and pn['l'] == nid:
                return True
            if pn['k'] == 'un' and pn['op'] in ('++', '--'):
                return True
            if pn['k'] == 'un' and pn['op'] == '&':
                return True
            if pn['k'] == 'mem' and pn['base'] == nid and not pn['arrow']:
                if self.is_write(fn, p, pn):
                    return True
            if pn['k'] in ('icast', 'cond', 'sub'):
                if pn['k'] == 'sub' and pn.get('base') != nid:
                    continue
                if self.is_write(fn, p, pn):
                    return True
            if pn['k'] == 'call':
                if pn.get('obj') == nid:
                    if pn.get('cm'):
                        continue
                    if not pn.get('repo'):
                        if pn['n'] in CW or (pn['n'] == 'operator[]' and 'map' in (pn.get('cls') or '')):
                            return True
                        if pn['n'] in ('operator[]', 'at', 'front', 'back') and pn.get('lv') and self.is_write(fn, p, pn):
                            return True
                    # repository methods are analysed through their own field accesses
                elif nid in pn.get('args', []):
                    i = pn['args'].index(nid)
                    pt = pn.get('pt', [])
                    if i < len(pt) and pt[i].get('ref') and not pt[i].get('const'):
                        if pn['q'] in ('std::move', 'std::forward'):
                            if self.is_write(fn, p, pn) or True:
                                return True
                        return True
            if pn['k'] == 'ctor':
                if nid in pn.get('args', []):
                    i = pn['args'].index(nid)
                    pt = pn.get('pt', [])
                    if i < len(pt) and pt[i].get('ref') and not pt[i].get('const') and not pn['q'].startswith('std::unique_lock'):
                        return True
        return False

    def ref_written(self, fn, d):
        for i, n in fn.nodes.items():
            if n['k'] == 'var' and n['d'] == d and self.is_write(fn, i, n):
                return True
        return False

    def exempt_type(self, t):
        r = t.get('rec') or ''
        if r in MUTEXT or r.startswith('std::atomic') or r in (
                'std::condition_variable', 'std::condition_variable_any', 'std::once_flag'):
            return True
        # a wrapper of the repository, as efsw::Atomic, when everything in it is
        x = self.p.records.get(r)
        return bool(x and r not in self.shared and x['fields'] and not x['bases'] and
                    all(not f['t'].get('ptr') and not f['t'].get('ref') and f['t'].get('rec') not in (None, r) and
                        self.exempt_type(f['t']) for f in x['fields']))

    def access(self, fn, nid, n, st, binds, thisfresh):
        cls = n['f'].rsplit('::', 1)[0]
        if cls not in self.shared or self.exempt_type(n['t']):
            return
        if st[2] and self.role == 'D':
            return
        if self.base_local(fn, nid, st, binds, thisfresh):
            return
        # pure address computation of a nested member is attributed to the innermost member
        ps = fn.parents.get(nid, [])
        if ps and all(k == 'n' and fn.nodes[p]['k'] == 'mem' and not fn.nodes[p]['arrow'] for k, p in ps):
            return
        # a repository method on a member object: its own accesses count
        if ps and all(k == 'n' and ((fn.nodes[p]['k'] == 'call' and fn.nodes[p].get('repo') and fn.nodes[p].get('obj') == nid)
                      or fn.nodes[p]['k'] == 'memfn') for k, p in ps) and n['t'].get('rec') in self.shared:
            return
        w = self.is_write(fn, nid, n)
        if not w and n['t'].get('rec') in self.p.records and n['t']['rec'] not in self.shared:
            # a method of a small object of the repository, whose own fields are not followed
            w = any(k == 'n' and fn.nodes[p]['k'] == 'call' and fn.nodes[p].get('repo') and fn.nodes[p].get('obj') == nid and
                    not fn.nodes[p].get('cm') for k, p in ps)
        self.rec(fn, n['f'], w, st, n.get('line', 0))

    def gaccess(self, fn, nid, n, d, st):
        if self.exempt_type(d['t']) or d['t'].get('const'):
            return
        g = self.p.globals.get(d.get('usr') or '')
        if g is None or g.get('tls'):
            return
        self.rec(fn, 'global ' + g['q'] + ('' if not g['static'] else ' in ' + fn.q), self.is_write(fn, nid, n), st,
                 n.get('line', 0))
