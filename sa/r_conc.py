"""C01-C03: locksets, lock order."""
from .prog import AnalysisError
from .result import Result
from .rules import rule
from . import conc


def short(x):
    return x.replace('efsw::', '')


@rule('C01', 'Interprocedural lockset analysis. Roots: every public function (U), every function handed to a thread '
      'object (W), destruction (D, exempt after the join), each resolved against each backend; a callback may re-enter '
      'every public function. Every access to a field of a shared class is recorded with the locks held; two accesses '
      'of one field by roles that can run at the same time, at least one a write, need a common lock.',
      ['Objects reachable only through a local pointer that has not been stored yet are private to their thread',
       'Mutexes are identified by field; all objects of one watcher share one instance',
       'followSymlinks/allowOutOfScopeLinks are configuration and set before watching (plain members of the facade)'],
      'interprocedural lockset analysis')
def c01(p, tier):
    r = Result()
    L, roots = conc.analyse(p)
    bad, nf, na = conc.races(L, False)
    for field, backend, w, o in bad:
        r.bad('race:%s:%s' % (short(backend), short(field)),
              '%s of the %s backend: written at %s (%s, locks held: %s) and accessed at %s (%s, locks held: %s) without a common lock\n'
              '  write reached by: %s\n  other access reached by: %s' %
              (short(field), short(backend), w.where(), ROLE[w.role], lk(w), o.where(), ROLE[o.role], lk(o),
               ' > '.join(map(short, w.chain)), ' > '.join(map(short, o.chain))))
    r.obligations = na
    r.samples = ['%s %s under %s in role %s' % (short(a.field), 'written' if a.write else 'read', sorted(map(short, a.locks)), a.role)
                 for a in list(L.accesses.values())[:200:20]]
    r.need('shared_fields', nf, 25)
    r.need('accesses', na, 200)
    r.counts['functions_analysed'] = len(L.nfun)
    r.counts['contexts'] = L.nctx
    for b in conc.BACKENDS:
        r.need('roots_' + short(b), sum(len(x) for x in roots[b]), 10)
    return r


ROLE = {'U': 'API call', 'W': 'worker thread', 'D': 'destruction before the worker is joined'}


def lk(a):
    return ', '.join(sorted(map(short, a.locks))) or 'none'


@rule('C02', 'The lockset analysis of C01 applied to every mutable object with static storage duration, from every public '
      'function and every worker; plus: a function that returns a pointer or reference into an object with static '
      'storage returns it only from thread_local storage.',
      ['Standard streams and C library state are outside'],
      'interprocedural lockset and escape analysis of static storage')
def c02(p, tier):
    r = Result()
    L, roots = conc.analyse(p)
    bad, nf, na = conc.races(L, True)
    for field, _, w, o in bad:
        r.bad('race:' + short(field),
              '%s: written at %s (locks held: %s) and accessed at %s (locks held: %s) without a common lock\n  write reached by: %s\n  other: %s'
              % (short(field), w.where(), lk(w), o.where(), lk(o), ' > '.join(map(short, w.chain)), ' > '.join(map(short, o.chain))))
    r.obligations = na
    n = 0
    for f in p.fns.values():
        if f.usr not in L.nfun:
            continue
        for b in f.blocks.values():
            for e in b['e']:
                if e['k'] != 'ret' or not isinstance(e.get('v'), int):
                    continue
                g = static_source(p, f, e['v'])
                if g is None:
                    continue
                n += 1
                gl = p.globals.get(g['usr'])
                if gl is None or gl.get('tls') or g['t'].get('const'):
                    continue
                if not mutated(p, g['usr']):
                    continue
                r.bad('leak:%s:%s' % (short(f.q), g['name']),
                      '%s returns a pointer into %s, which other threads overwrite (%s:%s)' % (f.q, g['name'], f.file, e.get('line', f.line)))
    r.samples = ['%s %s under %s' % (short(a.field), 'written' if a.write else 'read', sorted(map(short, a.locks)))
                 for a in L.accesses.values() if a.field.startswith('global')][:10]
    r.need('globals', nf, 3)
    r.need('global_accesses', na, 20)
    r.counts['returns_of_static_storage'] = n
    r.obligations += n
    return r


def mutated(p, usr):
    from .locks import Locks
    L = Locks(p, set())
    for f in p.fns.values():
        for i, n in f.nodes.items():
            if n['k'] == 'var' and f.decls[n['d']].get('usr') == usr and L.is_write(f, i, n):
                return True
    return False


def static_source(p, f, nid, depth=0):
    """The static object whose address (or inner pointer) the expression yields, if any."""
    if depth > 12 or not isinstance(nid, int):
        return None
    n = f.nodes[nid]
    k = n['k']
    if k == 'call':
        if n['n'] in ('c_str', 'data') and isinstance(n.get('obj'), int):
            return static_obj(f, n['obj'], depth)
        return None
    if k == 'un' and n['op'] == '&':
        return static_obj(f, n['sub'], depth)
    if k == 'decay':
        return static_obj(f, n['sub'], depth)
    if k == 'cond':
        return static_source(p, f, n['a'], depth + 1) or static_source(p, f, n['b'], depth + 1)
    if k in ('load', 'icast'):
        s = f.nodes[n['sub']]
        if s['k'] == 'var':
            for b in f.blocks.values():
                for e in b['e']:
                    if e['k'] == 'decl':
                        for v in e['vars']:
                            if v['d'] == s['d'] and isinstance(v.get('init'), int):
                                return static_source(p, f, v['init'], depth + 1)
            return None
        return static_source(p, f, n['sub'], depth + 1)
    if k == 'var' and f.ret.get('ref') and depth == 0:
        return static_obj(f, nid, depth)
    return None


def static_obj(f, nid, depth):
    n = f.nodes[nid]
    if n['k'] in ('mem', 'sub', 'icast') and isinstance(n.get('base', n.get('sub')), int):
        if n.get('arrow'):
            return None
        return static_obj(f, n.get('base', n.get('sub')), depth)
    if n['k'] == 'var':
        d = f.decls[n['d']]
        if d['kind'] in ('global', 'static') and d.get('usr'):
            return d
        if d['t'].get('ref'):
            for b in f.blocks.values():
                for e in b['e']:
                    if e['k'] == 'decl':
                        for v in e['vars']:
                            if v['d'] == n['d'] and isinstance(v.get('init'), int) and depth < 10:
                                return static_obj(f, v['init'], depth + 1)
    return None


@rule('C03', 'Lock-order graph over all mutexes from every public function, worker and destructor, with callbacks '
      're-entering every public function under the locks held at the call: no cycle between different mutexes, no '
      'second acquisition of a non-recursive mutex, no join while holding a mutex the worker acquires, no sleep or '
      'wait for notifications while holding any mutex.',
      ['Mutexes are identified by field or global; listeners call only public functions and no lock of their own '
       'is held by them in the opposite order'],
      'interprocedural lock-order analysis')
def c03(p, tier):
    r = Result()
    L, roots = conc.analyse(p)
    adj = {}
    for (a, b), w in L.edges.items():
        adj.setdefault(a, {})[b] = w
    for a in sorted(adj):
        for b in sorted(adj[a]):
            path = find_path(adj, b, a)
            if path and a < b:
                r.bad('cycle:%s:%s' % (short(a), short(b)),
                      'lock cycle: %s is acquired while %s is held (%s; via %s) and %s is acquired while %s is held (%s; via %s)' % (
                          short(b), short(a), adj[a][b][0], ' > '.join(map(short, adj[a][b][1])),
                          short(path[1]), short(path[0]), adj[path[0]][path[1]][0], ' > '.join(map(short, adj[path[0]][path[1]][1]))))
    for m, where, chain in L.selfdead:
        r.bad('self:%s:%s' % (short(m), where.split(' in ')[-1]), 'non-recursive %s acquired again while held at %s (via %s)' % (
            short(m), where, ' > '.join(map(short, chain))))
    for held, where, chain, role, backend in L.joins:
        wacq = set()
        for b in conc.BACKENDS:
            if backend in (None, b):
                wacq |= L.acquired.get(('W', b), set())
        x = held & wacq
        if x:
            r.bad('join:%s:%s' % (short(str(backend)), ','.join(sorted(map(short, x)))),
                  'the worker is waited for at %s while %s, which it acquires, is held (via %s)' % (
                      where, ', '.join(sorted(map(short, x))), ' > '.join(map(short, chain))))
        if role == 'W':
            r.bad('selfjoin:%s' % short(str(backend)), 'the worker waits for itself at %s (via %s)' % (where, ' > '.join(map(short, chain))))
    for nm, held, where, chain, role, backend in L.blocking:
        if held:
            r.bad('sleep:%s:%s' % (short(str(backend)), nm), '%s() is called at %s while holding %s (via %s)' % (
                nm, where, ', '.join(sorted(map(short, held))), ' > '.join(map(short, chain))))
    r.need('mutexes', len(L.recursive), 5)
    r.need('lock_order_edges', len(L.edges), 5)
    r.need('joins', len(L.joins), 2)
    r.need('callback_sites', len(L.callbacks), 8)
    r.counts['blocking_calls'] = len(L.blocking)
    r.counts['contexts'] = L.nctx
    r.obligations = len(L.edges) + len(L.joins) + len(L.blocking)
    r.samples = ['%s -> %s at %s' % (short(a), short(b), w[0]) for (a, b), w in list(L.edges.items())[:10]]
    return r


def find_path(adj, a, b):
    """path from a to b, returned as node list starting at a"""
    seen = {a: None}
    wl = [a]
    while wl:
        x = wl.pop(0)
        if x == b:
            out = [x]
            while seen[x] is not None:
                x = seen[x]
                out.append(x)
            return out[::-1]
        for y in adj.get(x, {}):
            if y not in seen:
                seen[y] = x
                wl.append(y)
    return None
