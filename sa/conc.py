"""Concurrency checks C01-C03 on top of the lockset analysis."""
from .prog import AnalysisError
from .locks import Locks

BACKENDS = ['efsw::FileWatcherInotify', 'efsw::FileWatcherGeneric']
SHARED = {'efsw::FileWatcherInotify', 'efsw::FileWatcherGeneric', 'efsw::FileWatcherImpl', 'efsw::Watcher',
          'efsw::WatcherInotify', 'efsw::WatcherGeneric', 'efsw::DirWatcherGeneric', 'efsw::DirectorySnapshot',
          'efsw::FileInfo'}


def api_methods(p):
    """Virtual methods of the backend interface called by the public facade."""
    out = set()
    for f in p.fns.values():
        if f.cls == 'efsw::FileWatcher' and not f.isctor and not f.isdtor:
            for n in f.nodes.values():
                if n['k'] == 'call' and n.get('cls') == 'efsw::FileWatcherImpl' and n.get('virt'):
                    out.add(n['usr'])
    if len(out) < 5:
        raise AnalysisError('only %d backend calls in the facade' % len(out))
    return out


def overrider(p, usr, cls):
    for f in p.fns.values():
        if f.cls == cls and (f.usr == usr or overrides(p, f, usr)):
            return f
    return None


def overrides(p, f, usr):
    seen, wl = set(), list(f.ov)
    while wl:
        x = wl.pop()
        if x == usr:
            return True
        if x in seen:
            continue
        seen.add(x)
        if x in p.fns:
            wl += p.fns[x].ov
    return False


def worker_entries(p, cls):
    """Functions handed to a thread object by the methods of a class."""
    out = []
    for f in p.fns.values():
        own = p.fns.get(p.owner(f.usr))
        if own is None or own.cls != cls:
            continue
        for n in f.nodes.values():
            if n['k'] == 'ctor' and (n['t'].get('rec') in ('efsw::Thread', 'std::thread')):
                for a in n['args']:
                    out += fn_refs(p, f, a, 0)
    return out


def fn_refs(p, f, nid, depth):
    if depth > 8 or not isinstance(nid, int):
        return []
    n = f.nodes[nid]
    if n['k'] == 'lambda':
        return [p.fns[n['usr']]] if n['usr'] in p.fns else []
    if n['k'] in ('memfn', 'fn') and n.get('usr') in p.fns:
        return [p.fns[n['usr']]]
    out = []
    if n['k'] == 'var':
        for b in f.blocks.values():
            for e in b['e']:
                if e['k'] == 'decl':
                    for v in e['vars']:
                        if v['d'] == n['d'] and isinstance(v.get('init'), int):
                            out += fn_refs(p, f, v['init'], depth + 1)
        return out
    for k in f.kids(n):
        out += fn_refs(p, f, k, depth + 1)
    return out


def analyse(p):
    if hasattr(p, '_conc'):
        return p._conc
    L = Locks(p, SHARED)
    api = api_methods(p)
    roots = {}
    # the public surface: the facade and the C functions, by what they do to a watcher
    callees = call_graph(p)
    ctor = {f.usr for f in p.fns.values() if f.cls == 'efsw::FileWatcher' and f.isctor}
    dtor = {f.usr for f in p.fns.values() if f.cls == 'efsw::FileWatcher' and f.isdtor}
    if not ctor or not dtor:
        raise AnalysisError('constructor or destructor of the facade vanished')
    pub_u, pub_d, pub_c = [], list(p.fns[u] for u in dtor), []
    for f in p.fns.values():
        if f.lam or not (f.externC or f.cls == 'efsw::FileWatcher') or f.isctor or f.isdtor:
            continue
        r = reach(callees, f.usr)
        if r & dtor:
            pub_d.append(f)
        elif r & ctor:
            pub_c.append(f)
        else:
            pub_u.append(f)
    if len(pub_u) < 15:
        raise AnalysisError('only %d public functions found' % len(pub_u))
    for b in BACKENDS:
        us = []
        for u in sorted(api):
            f = overrider(p, u, b)
            if f is not None:
                us.append(f)
        if len(us) < 5:
            raise AnalysisError('%s implements %d of the backend calls' % (b, len(us)))
        ws = worker_entries(p, b)
        if not ws:
            raise AnalysisError('no thread entry found in %s' % b)
        ds = [f for f in p.fns.values() if f.cls == b and f.isdtor]
        if not ds:
            raise AnalysisError('no destructor found in %s' % b)
        # what a listener may call from a callback: every public function but those that end the watcher
        L.callback_entries[b] = us + pub_u
        for f in us + pub_u:
            L.root(f, 'U', b)
        for f in ws:
            L.root(f, 'W', b)
        for f in ds + pub_d:
            L.root(f, 'D', b)
        roots[b] = (us + pub_u, ws, ds + pub_d)
    # process-wide state: everything public, whatever the backend
    for f in p.fns.values():
        if f.lam or f.isctor or f.isdtor:
            continue
        if f.q.startswith('efsw::Errors::Log::') or f in pub_c or f in pub_u or f in pub_d:
            L.root(f, 'U', None)
    p._conc = (L, roots)
    return p._conc


def call_graph(p):
    g = {}
    for f in p.fns.values():
        s = g.setdefault(f.usr, set())
        for n in f.nodes.values():
            if n['k'] in ('call', 'ctor', 'lambda', 'fn', 'memfn') and n.get('usr'):
                s.add(n['usr'])
                if n.get('virt'):
                    s |= set(p.overriders.get(n['usr'], ()))
        for b in f.blocks.values():
            for e in b['e']:
                if e['k'] in ('adtor', 'tdtor', 'ddtor', 'bdtor', 'mdtor') and e.get('usr'):
                    s.add(e['usr'])
                    if e.get('virt'):
                        s |= set(p.overriders.get(e['usr'], ()))
    return g


def reach(g, u):
    seen, wl = set(), [u]
    while wl:
        x = wl.pop()
        if x in seen:
            continue
        seen.add(x)
        wl += list(g.get(x, ()))
    return seen


CONC = {frozenset('U'), frozenset('UW'), frozenset('DW')}


def races(L, want_global):
    by = {}
    for a in L.accesses.values():
        g = a.field.startswith('global ')
        if g != want_global or (not g and a.backend is None):
            continue
        by.setdefault((a.field, None if g else a.backend), []).append(a)
    out = []
    nfields = 0
    for (field, backend), accs in sorted(by.items(), key=str):
        nfields += 1
        if not any(a.write for a in accs):
            continue
        best = None
        for w in accs:
            if not w.write:
                continue
            for o in accs:
                if w.locks & o.locks:
                    continue
                if not want_global and frozenset(w.role + o.role) not in CONC:
                    continue
                if best is None or w.line < best[0].line:
                    best = (w, o)
        if best:
            out.append((field, backend, best[0], best[1]))
    return out, nfields, sum(len(v) for v in by.values())
