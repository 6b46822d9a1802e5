"""C05, C06, C14: removal of watches ( inotify backend )."""
from .prog import AnalysisError
from .result import Result
from .rules import rule
from .engine import *
from .ino import *
from .r_leaf import leaves
from .r_ino import handler, handle_params, anchors_of, excuse, MASK, OTHER
from . import r_run, r_add, conc


def remover(p):
    fam = [f for f in recursive_family(p, CLS, 'inotify_rm_watch') if not reaches(p, f, 'inotify_add_watch')]
    if not fam:
        raise AnalysisError('no recursive function that removes watches')
    ent = callers_from_outside(p, fam)
    # of several the one that does the work: it erases from the table of watches itself, and has the most parameters
    ent = sorted(ent or fam, key=lambda f: (-len(f.params), f.q))
    return ent[0], fam


class RemMonitor(Monitor):
    """mon = tuple of markers"""
    init = ()

    def __init__(self, p, fn, bad, collect=None, removals=None):
        self.p, self.fn, self.bad = p, fn, bad
        self.N = Names(p)
        self.iid = param(fn, lambda t: not is_bool(t))
        self.bools = [i for i, q in enumerate(fn.params) if is_bool(q['t'])]
        self.id = mk('param', self.iid, fn.params[self.iid]['name'])
        self.w = None
        self.n = {'table_updates': 0, 'elements': 0, 'recursions': 0}
        self.collect = collect or {}        # loops over the table that collect: ek -> container
        self.found = {}
        self.rec = set()

    def put(self, st, *m):
        if m not in st.mon:
            st.mon = st.mon + (m,)

    def watch(self, eng, st):
        return mk_proj(mk_elem(mk('init', self.N.mWatches), mk('k', self.id)), 'second')

    def isw(self, eng, st, t):
        t, w = eng.resolve(st, t), eng.resolve(st, self.watch(eng, st))
        return t is w or eng.truth(st, mk_eq(t, w)) is True

    def event(self, eng, st, ev):
        N = self.N
        k = ev.kind
        if k == 'mut':
            a = ev.args
            if ev.obj in (N.mWatches, N.mRealWatches, N.mWatchesRef, N.mMovedOutsideWatches, N.mDeletedWatches):
                self.n['table_updates'] += 1
            if ev.name in ('erase', 'erase_if'):
                w = self.watch(eng, st)
                if ev.obj is N.mWatches:
                    if self.isw(eng, st, a[1]) or eng.resolve(st, a[0]) is self.id:
                        self.put(st, 'watches')
                elif ev.obj is N.mRealWatches:
                    if same(eng, st, a[0], mk('init', N.of(w, 'InotifyID'))) or eng.resolve(st, a[0]) is self.id or self.isw(eng, st, a[1]):
                        self.put(st, 'real')
                    elif known(eng.resolve(st, a[0])):
                        self.bad('real', 'the entry %s of the table of user watches is erased at %s, the watch removed is %s' % (show(a[0]), ev.where(), show(self.id)))
                elif ev.obj is N.mWatchesRef:
                    d = mk('init', N.of(w, 'Directory'))
                    if same(eng, st, a[0], d):
                        self.put(st, 'ref')
                    elif known(eng.resolve(st, a[0])) and eng.truth(st, mk_eq(a[0], d)) is not True:
                        self.bad('ref', 'the entry of the path %s is erased at %s, the watch removed is on %s' % (show(a[0]), ev.where(), show(d)))
                elif ev.obj is N.mMovedOutsideWatches and ev.extra == 'it':
                    x = mk_proj(a[1], 'first')
                    if eng.truth(st, mk_eq(x, w)) is not True and known(x):
                        self.bad('moved', 'a pending move of another watch is forgotten at %s when a watch is removed' % ev.where())
                elif ev.obj is N.mMovedOutsideWatches:
                    self.put(st, 'moved')
                    x = a[0]
                    if ev.name == 'erase_if' and eng.truth(st, mk_eq(mk_proj(x, 'first'), w)) is not True and known(mk_proj(x, 'first')):
                        self.bad('moved', 'a pending move of another watch is forgotten at %s when a watch is removed' % ev.where())
            elif ev.name in ('push', 'insert', 'emplace', 'set'):
                if ev.obj is N.mDeletedWatches:
                    if any(self.isw(eng, st, x) for x in a):
                        self.put(st, 'queued')
                else:
                    for x in a:
                        for y in subterms(x):
                            if y.op == 'elem' and vroot(y.a[0], N.mWatches) and isinstance(y.a[1], T) and y.a[1].op == 'ek':
                                self.found[y.a[1]] = ev.obj
                                st.mon = tuple(z for z in st.mon if z[0] != 'took') + (('took', y.a[1]),)
                                if eng.truth(st, mk_eq(mk_proj(y, 'second'), self.watch(eng, st))) is not False and not self.same_id(eng, st, y):
                                    pass
            elif ev.name == 'clear' and ev.obj is N.mMovedOutsideWatches:
                self.put(st, 'moved')
        elif k == 'delete':
            if self.isw(eng, st, ev.obj):
                self.put(st, 'freed')
        elif k == 'call' and ev.name == 'inotify_rm_watch':
            if len(ev.args) > 1 and (eng.resolve(st, ev.args[1]) is self.id or same(eng, st, ev.args[1], mk('init', N.of(self.watch(eng, st), 'InotifyID')))):
                self.put(st, 'rm')
            elif len(ev.args) > 1 and known(eng.resolve(st, ev.args[1])):
                self.bad('rm', 'the system is told to end the watch %s at %s, the watch removed is %s' % (show(ev.args[1]), ev.where(), show(self.id)))
        elif k == 'rcall' and ev.name == self.fn.q:
            self.n['recursions'] += 1
            v = ev.args[self.iid]
            for y in subterms(v):
                if y.op == 'elem' and isinstance(y.a[1], T) and y.a[1].op == 'ek':
                    self.rec.add(y.a[1])
                    st.mon = tuple(z for z in st.mon if z[0] != 'took') + (('took', y.a[1]),)
            if self.bools and isint(ev.args[self.bools[0]]) and ev.args[self.bools[0]].a[0] != 0 and eng.truth(st, mk_eq(mk('param', self.bools[0], self.fn.params[self.bools[0]]['name']), NULL)) is not False:
                self.bad('child:rm', 'the system goes on watching a subdirectory of a removed watch ( %s )' % ev.where())
        elif k == 'step' and isinstance(ev.extra, T) and ev.extra.op == 'ek' and ev.args and isinstance(ev.args[0], T) and ev.args[0].op == 'it':
            if ev.args[0].a[0] is N.mMovedOutsideWatches and ev.name != 'erase':
                # a loop that erases the moves of the watch one by one
                V = ev.args[0].a[1]
                e = eng.elem(st, eng.read(st, ev.args[0].a[0]) if V.op == 'live' else V, ev.extra)
                if eng.truth(st, mk_eq(mk_proj(e, 'first'), self.watch(eng, st))) is not False:
                    self.put(st, 'move kept')
            self.step(eng, st, ev)

    def same_id(self, eng, st, y):
        return False

    def step(self, eng, st, ev):
        it = ev.args[0]
        ek = ev.extra
        took = ('took', ek) in st.mon
        st.mon = tuple(z for z in st.mon if z != ('took', ek))
        if ek not in self.collect:
            return
        self.n['elements'] += 1
        V = it.a[1]
        if V.op == 'live':
            V = eng.read(st, it.a[0])
        e = eng.elem(st, V, ek)
        if vroot(V, self.N.mWatches):
            x = mk_proj(e, 'second')
            w = self.watch(eng, st)
            tree = self.tree(eng, st, x, w)
            me = eng.truth(st, mk_eq(x, w))
            if not took and tree is not False and me is not True:
                self.bad('child:kept', 'a watch below the removed one is passed over ( next one taken at %s ) and stays active: %s' % (ev.where(), st.path(10)))
            if took and tree is False and me is not True:
                self.bad('child:other', 'a watch that is not below the removed one is removed with it ( %s ): %s' % (ev.where(), st.path(10)))
        elif not took:
            self.bad('child:list', 'a watch collected for removal is passed over ( next one taken at %s ): %s' % (ev.where(), st.path(10)))

    def tree(self, eng, st, x, w):
        for f, v in st.facts.items():
            if f.op == 'ap' and f.a[0] == 'b:inTree':
                if any(y is eng.resolve(st, x) or y is x for y in subterms(f.a[1])):
                    return v
        return None

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        if atom.op == 'atend' and val and atom.a[0] in self.collect:
            self.put(st, 'over', atom.a[0])
        if atom.op == 'vempty' and val:
            self.put(st, 'empty')
        if val and ('move kept',) not in st.mon and (
                atom.op == 'atend' and vroot(atom.a[1], self.N.mMovedOutsideWatches) or atom.op == 'vempty' and vroot(atom.a[0], self.N.mMovedOutsideWatches)):
            self.put(st, 'moved')
        # the path of the watch leads to no watch or to another one
        if atom.op == 'has' and not val and vroot(atom.a[0], self.N.mWatchesRef):
            self.put(st, 'other ref')
        if atom.op == 'eq' and not val and any(x.op == 'proj' and x.a[1] == 'second' and x.a[0].op == 'elem' and
                                               vroot(x.a[0].a[0], self.N.mWatchesRef) for x in atom.a):
            w = self.watch(eng, st)
            if any(x is self.id or x is mk('init', self.N.of(w, 'InotifyID')) for x in atom.a):
                self.put(st, 'other ref')


def analyse_removal(p):
    if hasattr(p, '_removal'):
        return p._removal
    fn, fam = remover(p)
    anch = {f.q: opaque for f in fam}
    d = RemMonitor(p, fn, lambda *a: None)
    Engine(p, d, anchors=anch, limit=60000).enter(fn)
    out = {}
    m = RemMonitor(p, fn, lambda k, t: out.setdefault(k, t))
    m.collect = {ek: 1 for ek in set(d.found) | d.rec}
    eng = Engine(p, m, anchors=anch, limit=60000)
    res = eng.enter(fn)
    N = m.N
    npaths = 0
    for st, _ in res:
        npaths += 1
        T_ = lambda x: eng.truth(st, x)
        w = m.watch(eng, st)
        V0 = mk('init', N.mWatches)
        has = lambda x: (x,) in st.mon
        marks = [x[0] for x in st.mon]
        path = st.path(12)
        if T_(mk('has', V0, m.id)) is False or not marks and T_(mk('has', V0, m.id)) is None:
            for x in ('watches', 'real', 'queued'):
                if x in marks:
                    m.bad('absent', 'a watch is removed that was not found: %s' % path)
            if 'watches' not in marks and T_(mk('has', V0, m.id)) is None:
                m.bad('nothing', 'a path removes nothing without having found that there is no such watch: %s' % path)
            continue
        for x, t in (('watches', 'the table of watches'), ('ref', 'the table of paths')):
            if x == 'ref' and 'other ref' in marks:
                continue
            if x not in marks:
                m.bad('left:' + x, 'a removed watch stays in %s: %s' % (t, path))
        top = T_(mk_eq(mk('init', N.of(w, 'Parent')), NULL))
        if 'real' not in marks and top is not False and T_(mk('has', mk('init', N.mRealWatches), mk('init', N.of(w, 'InotifyID')))) is not False and \
                not any(f.op == 'has' and not v and vroot(f.a[0], N.mRealWatches) for f, v in st.facts.items()):
            m.bad('left:real', 'a removed watch of the user stays in the table of user watches: %s' % path)
        if 'moved' not in marks:
            m.bad('left:moved', 'a pending move of a removed watch stays in the list of moves: %s' % path)
        if 'queued' not in marks and 'freed' not in marks:
            m.bad('lost', 'a removed watch is neither freed nor queued to be freed: %s' % path)
        if 'freed' in marks:
            m.bad('freed', 'a removed watch is freed at once although the worker may be using it: %s' % path)
        skip = [T_(mk_eq(mk('param', i, fn.params[i]['name']), NULL)) for i in m.bools]
        if 'rm' not in marks and skip and skip[0] is True or not m.bools and 'rm' not in marks:
            m.bad('norm', 'the system is not told to end a removed watch: %s' % path)
        if 'rm' in marks and skip and skip[0] is False:
            m.bad('rmkept', 'the system is told to end a watch that is to be kept for reuse: %s' % path)
        recur = T_(mk_eq(mk('init', N.of(w, 'Recursive')), NULL))
        want = recur is not True and (len(skip) < 2 or skip[1] is not True)
        if want:
            if not m.collect:
                m.bad('child:none', 'removing a recursive watch does not remove the watches below it: %s' % path)
            else:
                for ek in m.collect:
                    if ('over', ek) not in st.mon and 'empty' not in marks:
                        m.bad('child:early', 'removing a recursive watch does not go through all watches: %s' % path)
    m.n['paths'] = npaths
    p._removal = (out, m.n, fn)
    return p._removal


class ApiRemoval(Monitor):
    init = ()

    def __init__(self, fn, out, eraser):
        self.fn, self.out, self.eraser = fn, out, eraser
        self.locks = []

    def event(self, eng, st, ev):
        if ev.kind == 'rcall' and ev.name == self.fn.q:
            st.mon = st.mon[-3:] + (('call', ev.args, ev.where()),)
            self.locks.append((frozenset(st.locks), ev.where()))


def public_removals(p):
    """the entry points that remove a watch: (function, by path?)"""
    out = []
    for f in p.fns.values():
        if f.cls == CLS and f.n == 'removeWatch' and f.params:
            out.append((f, is_string(f.params[0]['t'])))
    return out


def api_removal(p, bad):
    fn, fam = remover(p)
    N = Names(p)
    locks = []
    n = 0
    for f, bypath in public_removals(p):
        m = ApiRemoval(fn, bad, None)
        eng = Engine(p, m, anchors={g.q: opaque for g in fam}, limit=60000)
        res = eng.enter(f)
        arg = mk('param', 0, f.params[0]['name'])
        iid = param(fn, lambda t: not is_bool(t))
        locks += m.locks
        for st, _ in res:
            n += 1
            off = any(g.op == 'ap' and g.a[0] == 'b:atomic' and not v for g, v in st.facts.items()) or 'mInitOK' in st.path(30) and not st.mon and st.path(30).count('->') == 0
            calls = [x for x in st.mon if x[0] == 'call']
            if bypath:
                key = None
                for g, v in st.facts.items():
                    if g.op == 'has' and vroot(g.a[0], N.mWatchesRef):
                        key = (g.a[1], v)
                if key and mk_slash(key[0]) is not key[0] and mk_slash(key[0]) is mk_slash(arg) and known(key[0]):
                    bad('slash', 'removeWatch looks the path up as %s, it is registered with its trailing separator: %s' % (show(key[0]), st.path(8)))
                if key and mk_slash(key[0]) is not mk_slash(arg) and known(key[0]):
                    bad('path', 'removeWatch looks up %s instead of the path given: %s' % (show(key[0]), st.path(8)))
                for c in calls:
                    v = eng.resolve(st, c[1][iid])
                    if v.op == 'proj' and v.a[0].op == 'elem' and vroot(v.a[0].a[0], N.mWatchesRef):
                        continue
                    if known(v) and v.op in ('int', 'param'):
                        bad('id', 'removeWatch by path removes %s at %s' % (show(v), c[2]))
                if key and key[1] and not calls:
                    bad('none', 'removeWatch does not remove the watch registered under the path: %s' % st.path(8))
            else:
                for c in calls:
                    v = eng.resolve(st, c[1][iid])
                    if v is not arg and known(v):
                        bad('id', 'removeWatch removes %s instead of the id given, at %s' % (show(v), c[2]))
                if not calls and not stopped(st):
                    bad('none', 'removeWatch by id returns without removing anything: %s' % st.path(8))
            for c in calls:
                rest = [c[1][i] for i, q in enumerate(fn.params) if is_bool(q['t'])]
                if rest and isint(rest[0]) and rest[0].a[0] != 0:
                    bad('skip', 'removeWatch leaves the watch active in the system, at %s' % c[2])
                if len(rest) > 1 and isint(rest[1]) and rest[1].a[0] == 0:
                    bad('children', 'removeWatch leaves the watches below active, at %s' % c[2])
    return locks, n


def stopped(st):
    """did the path find that the watcher is being destroyed ( or the id unknown )?"""
    return 'mInitOK' in st.path(40) or any(g.op == 'has' and not v for g, v in st.facts.items())


# -------------------------------------------------------------------- callbacks only while registered
class CbMonitor(Monitor):
    """mon = locks held without interruption since the watch was found to be registered ( None: never found )"""
    init = None

    def __init__(self, p, N, w, G, bad):
        self.p, self.N, self.w, self.G, self.bad = p, N, w, G, bad
        self.n = 0

    def event(self, eng, st, ev):
        if ev.kind == 'unlock':
            if st.mon is not None and ev.obj not in st.locks:
                st.mon = tuple(x for x in st.mon if x is not ev.obj)
        elif ev.kind == 'mut' and ev.name in ('set', 'insert', 'emplace') and ev.obj is self.N.mWatches:
            if any(isinstance(x, T) and x.op == 'new' for x in ev.args):
                st.mon = tuple(st.locks) or ()
        elif ev.kind == 'cb':
            self.n += 1
            if st.mon is None:
                self.bad('unchecked', 'a listener is called at %s without the watch having been found to be registered since the last call that could '
                         'have removed it: %s' % (ev.where(), st.path(10)))
            elif self.G and not any(x in self.G for x in st.mon):
                self.bad('unlocked', 'a listener is called at %s although another thread may have removed the watch since it was found to be registered: '
                         'no lock is held that removeWatch needs ( %s ): %s' % (ev.where(), ', '.join(show(x) for x in self.G), st.path(10)))
            st.mon = None
        elif ev.kind == 'rcall' and ev.name in self.re:
            st.mon = None

    re = ()

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        if atom.op == 'eq' and val:
            a, b = atom.a
            w = self.target(eng, st)
            for x, y in ((a, b), (b, a)):
                if w is not None and x is w and any(s.op == 'elem' and vroot(s.a[0], self.N.mWatches) for s in subterms(y)):
                    st.mon = tuple(st.locks)
        if atom.op == 'has' and val and vroot(atom.a[0], self.N.mWatches):
            # found under its own id
            w = self.target(eng, st)
            if w is not None and any(x is w for x in subterms(atom.a[1])):
                e = mk_proj(eng.elem(st, atom.a[0], mk('k', atom.a[1])), 'second')
                if same(eng, st, e, w):
                    st.mon = tuple(st.locks)

    def target(self, eng, st):
        return self.w


class AddCb(CbMonitor):
    """the same in the function that adds watches: the watch is the one just made"""

    def target(self, eng, st):
        for k, v in st.store.items():
            if v.op == 'new' and v.a[0].endswith('WatcherInotify'):
                return v
        return None


def callbacks(p, locks, bad):
    N = Names(p)
    G = None
    for l, _ in locks:
        G = set(l) if G is None else G & set(l)
    G = G or set()
    fn = handler(p)
    iw, iname, ia = handle_params(fn)
    w = mk('param', iw, fn.params[iw]['name'])
    ad = r_add.adder(p)
    n = 0
    held = None
    for m in list(MASK.values()) + list(OTHER.values()):
        mon = CbMonitor(p, N, w, G, bad)
        mon.re = (ad.q,)
        eng = Engine(p, mon, anchors=anchors_of(p), limit=100000)
        eng.forget = True
        eng.enter(fn, params={ia: INT(m), iw: w})
        n += mon.n
    # the function that adds watches: with the locks its callers hold
    mon = AddCb(p, N, None, G, bad)
    mon.re = (ad.q,)
    eng = Engine(p, mon, anchors=r_add.adder_anchors(p, ad), limit=100000)
    eng.forget = True

    def setup(st):
        st.locks = tuple(G)
    eng.enter(ad, setup=setup)
    n += mon.n
    return n, G


@rule('C05', 'Path-sensitive dataflow. ( 1 ) Every listener call of the dispatch function and of the function that adds watches is reached only after '
      'the watch was found in the table of watches, since the last call that could have removed it, and a lock that every removal '
      'from the API needs has been held since. ( 2 ) Removal erases the watch from every table on every path, forgets its pending moves, tells the '
      'system, and for a recursive watch removes every watch below it and no other. ( 3 ) removeWatch passes on the id given, or the one registered for the path. ( 4 ) In the polling backend every listener call is reached only with the listener of the watch set, which removal clears.',
      ['The worker is the only thread that handles notifications'], 'path-sensitive dataflow (registration typestate)')
def c05(p, tier):
    r = Result()
    out, n, fn = analyse_removal(p)
    for k, t in out.items():
        if k not in ('freed', 'lost', 'left:ref', 'ref', 'moved'):
            r.bad('remove:' + k, t)
    locks, na = api_removal(p, lambda k, t: r.bad('api:' + k, t))
    nc, G = callbacks(p, locks, lambda k, t: r.bad('call:' + k, t))
    r.counts.update({'removal_' + k: v for k, v in n.items()})
    r.obligations += sum(n.values()) + na + nc
    r.counts['removal_locks'] = sorted(show(x) for x in G)
    r.need('removals_by_api', len(locks), 1)
    r.need('listener_calls', nc, 3)
    from .r_life import generic_listeners
    r.part(generic_listeners, p, r)
    from .r_tree import tree_part
    r.part(tree_part, p, r, ('c05',), ('watch', 'dtor'))
    leaves(p, r, 'tree')
    return r
