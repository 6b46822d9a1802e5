"""Names and helpers shared by the checks of the inotify backend."""
from .prog import AnalysisError
from .engine import *
from . import conc

CLS = 'efsw::FileWatcherInotify'
LISTENER = 'efsw::FileWatchListener'


def F(p, cls, name):
    """qualified name of a field, searching the bases"""
    for c in [cls] + p.bases(cls):
        for f in p.records.get(c, {'fields': []})['fields']:
            if f['n'] == c + '::' + name:
                return f['n']
    raise AnalysisError('field %s of %s vanished' % (name, cls))


class Names(object):
    def __init__(self, p):
        self.p = p
        W = 'efsw::WatcherInotify'
        for n in ('ID', 'Directory', 'Listener', 'Recursive', 'OldFileName', 'Parent', 'InotifyID', 'syntheticEvents', 'DirInfo'):
            setattr(self, n, F(p, W, n))
        for n in ('mWatches', 'mRealWatches', 'mWatchesRef', 'mMovedOutsideWatches', 'mDeletedWatches', 'mInitOK', 'mFD', 'mThread',
                  'mInitLock', 'mWatchesLock', 'mRealWatchesLock', 'mFileWatcher'):
            setattr(self, n, mk_fld(mk_obj(THIS), F(p, CLS, n)))

    def of(self, w, f):
        return mk_fld(mk_obj(w), getattr(self, f))


def get(eng, st, w, f, N):
    return eng.read(st, N.of(w, f))


def callees(p):
    if not hasattr(p, '_cg'):
        p._cg = conc.call_graph(p)
    return p._cg


def reaches(p, fn, name):
    """functions reachable from fn that call the external function `name`"""
    if not hasattr(p, '_extcalls'):
        d = {}
        for f in p.fns.values():
            s = set()
            for n in f.nodes.values():
                if n['k'] == 'call' and not n.get('repo'):
                    s.add(n['n'])
            d[f.usr] = s
        p._extcalls = d
    return any(name in p._extcalls.get(u, ()) for u in conc.reach(callees(p), fn.usr))


def recursive_family(p, cls, name):
    """the methods of cls that are on a call cycle and reach the external function `name`"""
    cg = callees(p)
    out = []
    for f in p.fns.values():
        if f.cls != cls or not reaches(p, f, name):
            continue
        if any(f.usr in conc.reach(cg, u) for u in cg.get(f.usr, ())):
            out.append(f)
    return out


def opaque(eng, st, c):
    return eng.external(c.fr, st, c, repo=True)


def stable_tables(p, fn, cls=CLS):
    """containers of the watcher whose writers all hold a lock that every caller of fn holds"""
    L = conc.analyse(p)[0]
    held = L.entry.get((fn.usr, cls), frozenset())
    by = {}
    for a in L.accesses.values():
        if a.write and a.backend == cls and a.role != 'D':
            by[a.field] = (by[a.field] & a.locks) if a.field in by else a.locks
    out = set()
    for f in p.records[cls]['fields']:
        t = f.get('q', f['n'])
        for k, l in by.items():
            if k == t and l & held:
                out.add(mk_fld(mk_obj(THIS), t))
    return frozenset(out)


def callers_from_outside(p, fam):
    ids = {f.usr for f in fam}
    out = []
    for f in fam:
        for g in p.fns.values():
            if g.usr not in ids and f.usr in callees(p).get(g.usr, ()):
                out.append(f)
                break
    return out


def adder(p):
    """the function that creates a watch and recurses into the directory"""
    fam = recursive_family(p, CLS, 'inotify_add_watch')
    ent = callers_from_outside(p, fam)
    if len(ent) != 1:
        raise AnalysisError('expected one recursive function that adds watches, found %s' % [f.q for f in ent or fam])
    return ent[0]


def param(fn, want, nth=0):
    """index of the nth parameter of a type"""
    k = [i for i, q in enumerate(fn.params) if want(q['t'])]
    if len(k) <= nth:
        raise AnalysisError('%s has no parameter %d of the expected type' % (fn.q, nth))
    return k[nth]


def is_string(t):
    return 'string' in t.get('s', '') and 'vector' not in t.get('s', '')


def is_ptr_to(*cls):
    def f(t):
        s = t.get('s', '')
        return '*' in s and any(c in s for c in cls)
    return f


def is_bool(t):
    return t.get('s', '').replace('const ', '') in ('bool', '_Bool')


def vroot(V, C):
    """is V some version of container C?"""
    seen = 0
    while seen < 50:
        seen += 1
        if V.op in ('init', 'hv') and V.a[0] is C:
            return True
        if V.op == 'cv' and V.a[0] is C:
            return True
        if V.op in ('old', 'gen'):
            V = V.a[0]
        elif V.op in ('ins', 'del', 'app', 'upd'):
            V = V.a[0]
        else:
            return False
    return False


def known(t):
    """does a term consist only of things the analysis can name?"""
    bad = {'ret', 'cv', 'undef', 'out', 'ap'}
    return not any(x.op in bad for x in subterms(t)) if isinstance(t, T) else True


def same(eng, st, a, b):
    a, b = eng.resolve(st, a), eng.resolve(st, b)
    if a is b:
        return True
    v = eng.truth(st, mk_eq(a, b))
    return v is True


def differs(eng, st, a, b):
    """certainly not the same by construction"""
    return not same(eng, st, a, b) and known(a)


def unbool(t):
    """the value a truth value was made from"""
    while t.op == 'not' and t.a[0].op == 'eq' and any(isint(z) and z.a[0] == 0 or z is NULL for z in t.a[0].a):
        t = next(y for y in t.a[0].a if not (isint(y) and y.a[0] == 0 or y is NULL))
    return t


def field_of(t):
    """the qualified field a term is the value of"""
    if t.op == 'init' and t.a[0].op == 'fld':
        return t.a[0].a[1]
    if t.op == 'proj' and isinstance(t.a[1], str):
        return t.a[1]
    return None


class Undecided(Exception):
    pass


def analyse(r, eng, *a, **k):
    """runs the engine; an analysis that exceeds its budget or meets code it cannot model leaves the obligation undecided"""
    return eng.enter(*a, **k)
