"""C10-C13, C25: what the function that adds watches does on every path ( inotify backend )."""
from .prog import AnalysisError
from .result import Result
from .rules import rule
from .engine import *
from .ino import *
from .r_leaf import leaves
from .r_ino import handler, run_handler, excuse, ADD, ISDIR, MASK
from . import conc

NOTFOUND, REPEATED, SCOPE, UNREADABLE, REMOTE, FAILED, UNSPEC = -1, -2, -3, -4, -5, -6, -7
EN = {-1: 'FileNotFound', -2: 'FileRepeated', -3: 'FileOutOfScope', -4: 'FileNotReadable', -5: 'FileRemote', -6: 'WatcherFailed', -7: 'Unspecified'}


def watched(eng, st, c):
    return [(st, mk('ap', 'b:watched', mk_slash(c.args[0])))]


def removers(p):
    fam = recursive_family(p, CLS, 'inotify_add_watch')
    return [f for f in recursive_family(p, CLS, 'inotify_rm_watch') if f not in fam]


def removal(eng, st, c):
    """the function that removes a watch ( C05: it takes the watch with the id given out of every table )"""
    out = eng.external(c.fr, st, c, repo=True)
    ids = [a for a in c.args if a.op == 'ret' and a.a[0] == 'inotify_add_watch']
    if len(ids) != 1:
        return out
    N = Names(eng.p)
    for s, _ in out:
        for C in (N.mWatches, N.mRealWatches):
            eng.assume(s, mk('has', eng.value(s, C), ids[0]), False)
    return out


def registered_fn(p):
    """the test whether a path is watched already"""
    for f in p.fns.values():
        if f.cls == CLS and f.n == 'pathInWatches':
            return f
    return None


def adder_anchors(p, ad):
    a = {ad.q: opaque}
    for f in removers(p):
        a[f.q] = removal
    f = registered_fn(p)
    if f is not None:
        a[f.q] = watched
    return a


class Roles(object):
    """the parameters of the adder"""

    def __init__(self, ad):
        P = ad.params
        self.idir = param(ad, is_string)
        self.ilis = param(ad, is_ptr_to('FileWatchListener'))
        self.ipar = param(ad, is_ptr_to('Watcher'), 0) if 'Listener' not in P[param(ad, is_ptr_to('Watcher'))]['t'].get('s', '') else \
            param(ad, lambda t: 'WatcherInotify' in t.get('s', ''))
        b = [i for i, q in enumerate(P) if is_bool(q['t'])]
        self.irec = self.byname(ad, b, 'rec', 0)
        self.isyn = self.byname(ad, b, 'synth', 1)
        self.iint = self.byname(ad, b, 'intern', 2)

    def byname(self, ad, b, part, nth):
        k = [i for i in b if part in ad.params[i]['name'].lower()]
        if len(k) == 1:
            return k[0]
        return b[nth] if len(b) > nth else None

    def term(self, ad, i):
        return mk('param', i, ad.params[i]['name'])


class AddMonitor(Monitor):
    """mon = frozenset of markers"""
    init = ()

    def __init__(self, p, ad, out):
        self.p, self.ad = p, ad
        self.N = Names(p)
        self.R = Roles(ad)
        t = self.R.term
        self.dir, self.lis, self.rec, self.par = t(ad, self.R.idir), t(ad, self.R.ilis), t(ad, self.R.irec), t(ad, self.R.ipar)
        self.syn = t(ad, self.R.isyn) if self.R.isyn is not None else None
        self.int = t(ad, self.R.iint) if self.R.iint is not None else None
        self.bad = out
        self.n = {'subscriptions': 0, 'recursions': 0, 'reports': 0, 'elements': 0}
        self.D = mk_slash(self.dir)
        self.L = mk('ap', 'linktarget', mk_noslash(self.D))

    def put(self, st, *m):
        st.mon = tuple(x for x in st.mon if x[0] != m[0]) + (m,)

    def has(self, st, m):
        return next((x for x in st.mon if x[0] == m), None)

    # -------------------------------------------------------------- facts
    def flag(self, eng, st, name):
        """configuration flag of the facade"""
        for f, v in st.facts.items():
            if f.op == 'eq' and any(isint(x) and x.a[0] == 0 for x in f.a):
                for x in f.a:
                    if x.op == 'init' and show(x).endswith(name):
                        return not v
        for k, v in st.rep.items():
            if k.op == 'init' and show(k).endswith(name) and isint(v):
                return v.a[0] != 0
        return None

    def scope(self, eng, st):
        """is the target known to lie in the directory holding the link?"""
        r = None
        for f, v in st.facts.items():
            g, w = f, v
            if g.op == 'prefix' and any(x is self.L for x in subterms(g.a[1])) and any(x.op == 'dirname' for x in subterms(g.a[0])):
                r = w if r is None or w else r
        return r

    def allowed(self, eng, st):
        """None: not decided by the facts of this path"""
        f, o, s = self.flag(eng, st, 'mFollowSymlinks'), self.flag(eng, st, 'mOutOfScopeLinks'), self.scope(eng, st)
        child = eng.truth(st, mk_eq(self.par, NULL))
        if s is True:
            a = True
        elif f is True and o is True:
            a = True
        elif s is False and (f is False or o is False):
            a = False
        else:
            a = None
        if child is False:
            if f is False:
                return False
            if f is None:
                a = None if a is not False else False
        return a

    def event(self, eng, st, ev):
        N = self.N
        k = ev.kind
        if k == 'call' and ev.name == 'inotify_add_watch':
            self.n['subscriptions'] += 1
            self.subscribe(eng, st, ev)
        elif k == 'mut' and ev.obj in (N.mWatches, N.mRealWatches, N.mWatchesRef) and ev.name in ('set', 'insert', 'emplace'):
            self.put(st, {N.mWatches: 'w', N.mRealWatches: 'r', N.mWatchesRef: 'd'}[ev.obj], ev.args)
        elif k == 'new' and ev.name.endswith('WatcherInotify'):
            self.put(st, 'new', ev.obj if isinstance(ev.obj, T) else ev.extra)
        elif k == 'rcall' and ev.name == self.ad.q:
            self.recursion(eng, st, ev)
        elif k == 'cb':
            self.report(eng, st, ev)
        elif k == 'step' and ev.args and isinstance(ev.args[0], T):
            V = next((x for x in subterms(ev.args[0]) if x.op == 'listing'), None)
            if V is not None:
                self.element(eng, st, ev, V)

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        w = self.new(st)
        if atom.op == 'has' and not val and not isint(atom.a[1]) and vroot(atom.a[0], self.N.mWatches) and self.has(st, 'w') is None:
            # C14: every watch of the user is one of the watches
            eng.assume(st, mk('has', eng.value(st, self.N.mRealWatches), atom.a[1]), False)
        if atom.op == 'atend' and val and atom.a[1].op == 'listing':
            self.put(st, 'over', st.mon and self.has(st, 'loop') or None)
        if atom.op == 'vempty' and val and atom.a[0].op == 'listing':
            self.put(st, 'over', None)
        if w is not None and excuse(eng, st, self.N, w, atom, val):
            self.put(st, 'gone')
        if atom.op == 'ap' and atom.a[0] == 'b:atomic' and not val:
            self.put(st, 'gone')
        if atom.op == 'has' and not val and self.wd(st) is not None and vroot(atom.a[0], self.N.mWatches) and \
                any(x is self.wd(st) for x in subterms(atom.a[1])):
            self.put(st, 'gone')

    def new(self, st):
        w = self.has(st, 'w')
        return w[1][1] if w and isinstance(w[1][1], T) else None

    def subscribe(self, eng, st, ev):
        a = eng.resolve(st, ev.args[1])
        at = ev.where()
        T_ = lambda x: eng.truth(st, x)
        D, L = self.D, self.L
        self.put(st, 'path', a)
        link = T_(mk_eq(L, EMPTY))
        own = mk_slash(a) is D
        if not own and not any(x is L for x in subterms(a)):
            if known(a):
                self.bad('path', 'the system is asked to watch %s instead of the directory given or the target of the link, at %s' % (show(a), at))
            return
        if T_(mk('isdir', mk('fi', D))) is not True and T_(mk('isdir', mk('fi', a))) is not True:
            self.bad('c13:dir', 'a watch is made at %s on a path where the argument was not found to be a directory: %s' % (at, st.path(12)))
        if T_(mk('readable', mk('fi', D))) is not True and T_(mk('readable', mk('fi', a))) is not True:
            self.bad('c13:readable', 'a watch is made at %s on a path where the directory was not found to be readable: %s' % (at, st.path(12)))
        if registered_fn(self.p) is not None:
            if T_(mk('ap', 'b:watched', D)) is not False:
                self.bad('c13:repeated', 'a watch is made at %s without the directory having been looked for among the watched ones, or although it is one: %s' %
                         (at, st.path(12)))
            if not own and T_(mk('ap', 'b:watched', mk_slash(a))) is not False and T_(mk('ap', 'b:watched', mk_slash(L))) is not False:
                self.bad('c12:repeated', 'a linked directory is entered at %s without its target having been looked for among the watched ones: %s' %
                         (at, st.path(12)))
                if T_(mk_eq(self.par, NULL)) is True:
                    self.bad('c13:repeated:link', 'a watch is added at %s on a link without its target having been looked for among the watched ones, the directory could be watched twice: %s' %
                             (at, st.path(12)))
        if T_(mk_eq(self.par, NULL)) is not True and T_(mk('remote', D)) is not False and T_(mk('remote', a)) is not False:
            self.bad('c23:child', 'a subdirectory is watched at %s although it was not found to be on a local file system: %s' % (at, st.path(12)))
        if link is None:
            self.bad('c12:unchecked', 'a watch is made at %s without looking whether the path is a link: %s' % (at, st.path(12)))
        elif link is False:
            if own:
                self.bad('c12:target', 'a linked directory is watched under the path of the link and not of its target at %s: %s' % (at, st.path(12)))
            al = self.allowed(eng, st)
            if al is not True:
                self.bad('c12:entered', 'a linked directory is entered at %s on a path where this was not found to be allowed ( child: %s, follow links: %s, '
                         'out of scope links: %s, in scope: %s ): %s' %
                         (at, T_(mk_eq(self.par, NULL)) is not True, self.flag(eng, st, 'mFollowSymlinks'), self.flag(eng, st, 'mOutOfScopeLinks'),
                          self.scope(eng, st), st.path(14)))

    # -------------------------------------------------------------- the new watch
    def fields(self, eng, st, w, wd, path, at):
        if self.has(st, 'checked'):
            return
        self.put(st, 'checked')
        N = self.N
        par = eng.truth(st, mk_eq(self.par, NULL))
        want = [('InotifyID', wd), ('Directory', path), ('Listener', self.lis), ('Recursive', self.rec), ('Parent', self.par)]
        if self.syn is not None:
            want.append(('syntheticEvents', self.syn))
        if par is not None:
            want.append(('ID', wd if par else eng.read(st, N.of(self.par, 'ID'))))
        for n, x in want:
            v = eng.resolve(st, get(eng, st, w, n, N))
            x = eng.resolve(st, x) if x is not None else None
            if x is None or v is x or mk_slash(v) is mk_slash(x) or eng.truth(st, mk_eq(v, x)) is True:
                continue
            if eng.truth(st, mk_eq(v, NULL)) is not None and eng.truth(st, mk_eq(v, NULL)) == eng.truth(st, mk_eq(x, NULL)) and n in ('Recursive', 'syntheticEvents', 'Parent'):
                continue
            if unbool(v) is unbool(x):
                continue
            if known(v) or v.op == 'init':
                self.bad('field:' + n, 'the new watch gets %s = %s instead of %s, at %s' % (n, show(v), show(x), at))

    def wd(self, st):
        w = self.has(st, 'w')
        return w[1][0] if w else None

    def recursion(self, eng, st, ev):
        self.n['recursions'] += 1
        a = ev.args
        R = self.R
        at = ev.where()
        w = self.new(st)
        if w is not None and self.has(st, 'path'):
            self.fields(eng, st, w, self.wd(st), self.has(st, 'path')[1], at)
        if eng.truth(st, mk_eq(self.rec, NULL)) is not False:
            self.bad('c11:recursion', 'a subdirectory is added at %s although the watch was not found to be recursive: %s' % (at, st.path(12)))
        e = next((x for x in subterms(a[R.idir]) if x.op == 'elem' and x.a[0].op == 'listing'), None)
        if e is None:
            if known(eng.resolve(st, a[R.idir])):
                self.bad('c10:path', 'the path added for a subdirectory at %s is %s, which is no entry of the directory' % (at, show(a[R.idir])))
            return
        path = self.has(st, 'path')
        if path and mk_slash(e.a[0].a[0]) is not mk_slash(path[1]):
            self.bad('c10:listing', 'the directory listed at %s is %s, not the watched %s' % (at, show(e.a[0].a[0]), show(path[1])))
        pairs = [('listener', R.ilis, self.lis, N_(self, eng, st, w, 'Listener')), ('recursive flag', R.irec, self.rec, ONE)]
        if R.isyn is not None:
            pairs.append(('synthetic events flag', R.isyn, self.syn, N_(self, eng, st, w, 'syntheticEvents')))
        if w is not None:
            pairs.append(('parent', R.ipar, w, w))
        for n, i, x, y in pairs:
            v = eng.resolve(st, a[i])
            ok = any(t is not None and (v is eng.resolve(st, t) or eng.truth(st, mk_eq(v, t)) is True) for t in (x, y))
            if not ok and n.endswith('flag'):
                ok = eng.truth(st, mk_eq(v, NULL)) is not None and eng.truth(st, mk_eq(v, NULL)) == eng.truth(st, mk_eq(x, NULL))
            if not ok and known(v):
                self.bad('c10:arg:' + n, 'a subdirectory is added at %s with the %s %s instead of that of its parent: %s' % (at, n, show(v), st.path(8)))
        self.put(st, 'done', e.a[1])

    def element(self, eng, st, ev, V):
        self.n['elements'] += 1
        ek = ev.extra
        if not isinstance(ek, T) or ek.op != 'ek':
            return
        e = mk_elem(V, ek)
        fi = mk_proj(e, 'second')
        d = self.has(st, 'done')
        rep = self.has(st, 'rep')
        if ek in self.syncs:
            self.put(st, 'loop', 'syn')
        if ek in self.loops:
            if not (d and d[1] is ek):
                no = eng.truth(st, mk('isdir', fi)) is False or eng.truth(st, mk('readable', fi)) is False or eng.truth(st, mk('remote', mk_slash(mk_proj(fi, 'efsw::FileInfo::Filepath')))) is True
                if not no and eng.truth(st, mk_eq(self.rec, NULL)) is False and not self.has(st, 'gone'):
                    self.bad('c10:skipped', 'an entry of a recursively watched directory is passed over at %s although it was not found to be anything but a readable '
                             'directory: %s' % (ev.where(), st.path(10)))
        if ek in self.syncs and not (rep and rep[1] is ek):
            no = all(eng.truth(st, mk(x, fi)) is False for x in ('isreg', 'isdir', 'islink'))
            if not no and not self.has(st, 'gone'):
                self.bad('c25:skipped', 'an entry of a directory that appeared is not reported at %s although synthetic events were asked for: %s' % (ev.where(), st.path(10)))
        st.mon = tuple(x for x in st.mon if x[0] not in ('done', 'rep'))

    loops = frozenset()
    syncs = frozenset()

    def report(self, eng, st, ev):
        self.n['reports'] += 1
        N = self.N
        at = ev.where()
        for x, n in ((self.syn, 'synthetic events were asked for'), (self.int, 'the directory appeared under a watched one'), ):
            if x is not None and eng.truth(st, mk_eq(x, NULL)) is not False:
                self.bad('c25:asked', 'an Add is made up at %s although it is not established that %s: %s' % (at, n, st.path(10)))
        w = self.new(st)
        if w is None:
            return
        a = ev.args
        if ev.name != 'handleFileAction':
            return
        self.fields(eng, st, w, self.wd(st), self.has(st, 'path')[1] if self.has(st, 'path') else None, at)
        e = next((x for x in subterms(a[2]) if x.op == 'elem' and x.a[0].op == 'listing'), None)
        if isint(a[3]) and a[3].a[0] != ADD:
            self.bad('c25:action', 'an existing entry is reported with an action other than Add at %s' % at)
        for n, v, x in (('id', a[0], get(eng, st, w, 'ID', N)), ('directory', a[1], get(eng, st, w, 'Directory', N)),
                        ('name', a[2], mk_fname(mk_proj(mk_proj(e, 'second'), 'efsw::FileInfo::Filepath')) if e is not None else a[2])):
            v, x = eng.resolve(st, v), eng.resolve(st, x)
            if v is not x and eng.truth(st, mk_eq(v, x)) is not True and known(v):
                if n == 'name' and any(y is e.a[1] for y in subterms(v)) and v.op in ('proj', 'fname'):
                    y = mk_proj(e, 'first')
                    if v is y or v is mk_fname(y):
                        continue
                self.bad('c25:arg:' + n, 'the report of an existing entry at %s is given the %s %s instead of %s' % (at, n, show(v), show(x)))
        if e is not None:
            self.put(st, 'rep', e.a[1])


def N_(m, eng, st, w, f):
    return get(eng, st, w, f, m.N) if w is not None else None


class Discover(AddMonitor):
    """finds the loops over the listing that add or report"""

    def __init__(self, p, ad):
        AddMonitor.__init__(self, p, ad, lambda *a: None)
        self.L1, self.L2 = set(), set()

    def recursion(self, eng, st, ev):
        for x in subterms(ev.args[self.R.idir]):
            if x.op == 'elem' and x.a[0].op == 'listing' and isinstance(x.a[1], T):
                self.L1.add(x.a[1])
        st.mon = ()

    def report(self, eng, st, ev):
        for x in subterms(ev.args[2]):
            if x.op == 'elem' and x.a[0].op == 'listing' and isinstance(x.a[1], T):
                self.L2.add(x.a[1])


def analyse_adder(p):
    """[(key, text)], counters"""
    if hasattr(p, '_adder'):
        return p._adder
    ad = adder(p)
    d = Discover(p, ad)
    Engine(p, d, anchors=adder_anchors(p, ad), limit=100000).enter(ad)
    out = {}
    m = AddMonitor(p, ad, lambda k, t: out.setdefault(k, t))
    m.loops, m.syncs = frozenset(d.L1), frozenset(d.L2)
    eng = Engine(p, m, anchors=adder_anchors(p, ad), limit=100000)
    eng.stable = stable_tables(p, ad)
    res = eng.enter(ad)
    nret = 0
    for st, ret in res:
        nret += 1
        check_return(m, eng, st, ret)
    m.n['paths'] = nret
    m.n['loops'] = len(d.L1)
    p._adder = (out, m.n, eng)
    return p._adder


def check_return(m, eng, st, ret):
    N = m.N
    T_ = lambda x: eng.truth(st, x)
    ret = eng.resolve(st, ret) if isinstance(ret, T) else ret
    path = m.has(st, 'path')
    facts = {NOTFOUND: (T_(mk('isdir', mk('fi', m.D))) is False), UNREADABLE: T_(mk('readable', mk('fi', m.D))) is False}
    where = st.path(12)
    if isint(ret) and ret.a[0] < 0:
        c = ret.a[0]
        for t, n in (('w', 'watches'), ('r', 'user watches'), ('d', 'paths')):
            if m.has(st, t):
                m.bad('c13:left:' + n, 'a failed addWatch ( %s ) leaves an entry in the table of %s: %s' % (EN.get(c, c), n, where))
        L = T_(mk_eq(m.L, EMPTY))
        if path is None:
            why = {
                NOTFOUND: facts[NOTFOUND], UNREADABLE: facts[UNREADABLE],
                REPEATED: T_(mk('ap', 'b:watched', m.D)) is True or T_(mk('ap', 'b:watched', mk_slash(m.L))) is True or registered_fn(m.p) is None,
                REMOTE: any(f.op == 'remote' and v for f, v in st.facts.items()),
                SCOPE: L is False and m.allowed(eng, st) is False,
            }.get(c, False)
            if not why:
                m.bad('c13:code:%s' % EN.get(c, c), 'addWatch returns %s on a path where %s: %s' % (EN.get(c, c), 'that is not the reason', where))
        if facts[NOTFOUND] and c != NOTFOUND:
            m.bad('c13:notfound', 'addWatch returns %s and not FileNotFound when the argument is not a directory: %s' % (EN.get(c, c), where))
        return
    if path is None:
        if isinstance(ret, T) and known(ret):
            m.bad('c13:nothing', 'addWatch returns %s without a watch having been made: %s' % (show(ret), where))
        return
    # success
    w, d, r = m.has(st, 'w'), m.has(st, 'd'), m.has(st, 'r')
    neg = T_(mk_lt(ret, NULL)) if isinstance(ret, T) else None
    if neg is True:
        if w or d or r:
            m.bad('c13:failed', 'a watch is entered although the system refused it: %s' % where)
        return
    par = T_(mk_eq(m.par, NULL))
    if not w:
        m.bad('c14:table', 'a successful addWatch does not enter the watch into the table of watches: %s' % where)
        return
    if not d:
        m.bad('c14:ref', 'a successful addWatch does not enter the path of the watch into the table used to remove it by path: %s' % where)
    if par is True and not r:
        m.bad('c14:real', 'a watch added by the user is not entered into the table of user watches: %s' % where)
    if par is False and r:
        m.bad('c14:realchild', 'a watch on a subdirectory is entered into the table of watches of the user: %s' % where)
    wd, obj = w[1][0], w[1][1]
    if eng.resolve(st, wd) is not ret and T_(mk_eq(wd, ret)) is not True and known_wd(ret):
        m.bad('c13:id', 'addWatch returns %s, the watch was entered under %s: %s' % (show(ret), show(wd), where))
    if T_(mk_lt(wd, NULL)) is not False and wd.op == 'ret':
        m.bad('c13:failed', 'a watch is entered for a descriptor that was not checked to be valid: %s' % where)
    if d and (d[1][1] is not wd or mk_slash(d[1][0]) is not mk_slash(path[1])) and known(d[1][0]):
        m.bad('c14:refargs', 'the path %s is entered with the id %s; the watch on %s has the id %s' % (show(d[1][0]), show(d[1][1]), show(path[1]), show(wd)))
    if r and (r[1][0] is not wd or r[1][1] is not obj):
        m.bad('c14:realargs', 'the table of user watches gets %s -> %s, the table of watches %s -> %s' % (show(r[1][0]), show(r[1][1]), show(wd), show(obj)))
    m.fields(eng, st, obj, wd, path[1], where)
    if T_(mk_eq(m.rec, NULL)) is not True and not m.has(st, 'gone'):
        if not m.has(st, 'over'):
            m.bad('c10:initial', 'a recursive watch is added without going through the entries of its directory to the end: %s' % where)


def known_wd(t):
    return t.op in ('ret', 'int', 'param') or known(t)


def report(p, r, pref):
    out, n, eng = analyse_adder(p)
    for k, t in out.items():
        if any(k.startswith(x) for x in pref):
            r.bad(k, t)
    r.counts.update({'adder_' + k: v for k, v in n.items()})
    r.obligations += sum(n.values())
    r.need('subscriptions', n['subscriptions'], 1)


def polled(p, r, tree, add, lookup=None):
    """the same in the polling backend"""
    from . import r_tree, r_gen
    r.part(r_tree.tree_part, p, r, tree)
    r.part(r_gen.generic_adder, p, r, add)
    if lookup:
        r.part(r_gen.generic_lookup, p, r)


# -------------------------------------------------------------------- directories that appear
class Appear(Monitor):
    """handler: ( rcall of the adder, excuses )"""
    init = ()

    def __init__(self, p, N, w, nm, ad, bad):
        self.p, self.N, self.w, self.nm, self.ad, self.bad = p, N, w, nm, ad, bad
        self.R = Roles(ad)
        self.n = 0

    def event(self, eng, st, ev):
        N, w = self.N, self.w
        if ev.kind == 'rcall' and ev.name == self.ad.q:
            self.n += 1
            at = ev.where()
            a, R = ev.args, self.R
            path = mk_slash(mk_cat(get(eng, st, w, 'Directory', N), self.nm))
            rec = eng.truth(st, mk_eq(get(eng, st, w, 'Recursive', N), NULL))
            if rec is not False:
                self.bad('c11:appear', 'a directory that appears in a watched one is added at %s although the watch was not found to be recursive: %s' % (at, st.path(12)))
            pairs = [('path', R.idir, path), ('listener', R.ilis, get(eng, st, w, 'Listener', N)), ('parent', R.ipar, w),
                     ('recursive flag', R.irec, ONE)]
            if R.isyn is not None:
                pairs.append(('synthetic events flag', R.isyn, get(eng, st, w, 'syntheticEvents', N)))
            if R.iint is not None:
                pairs.append(('internal flag', R.iint, ONE))
            for n, i, x in pairs:
                v, x = eng.resolve(st, a[i]), eng.resolve(st, x)
                if v is x or eng.truth(st, mk_eq(v, x)) is True or n == 'path' and mk_slash(v) is mk_slash(x):
                    continue
                if n == 'recursive flag' and eng.truth(st, mk_eq(v, NULL)) is False:
                    continue
                if known(v):
                    self.bad('c10:appear:' + n, 'a directory that appears in a watched one is added at %s with the %s %s instead of %s' % (at, n, show(v), show(x)))
            st.mon = tuple(x for x in st.mon if x not in ('gone', 'added')) + ('added',)

        elif ev.kind == 'mut' and ev.obj is N_watches(self.N) and ev.name == 'erase' and 'removed' not in st.mon:
            st.mon += ('removed',)

    def branch(self, eng, st, atom, val, fr, line):
        if excuse(eng, st, self.N, self.w, atom, val) and 'gone' not in st.mon and 'added' not in st.mon:
            st.mon += ('gone',)
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        N = self.N
        if atom.op == 'eq' and val and 'found' not in st.mon:
            # a watch with that path exists already
            path = mk_slash(mk_cat(get(eng, st, self.w, 'Directory', N), self.nm))
            for x, y in (atom.a, atom.a[::-1]):
                if mk_slash(x) is path and (any(s.op in ('elem',) for s in subterms(y))):
                    st.mon += ('found',)
                    break
        if atom.op == 'found' or atom.op == 'has' and val and vroot(atom.a[0], N.mWatchesRef):
            if 'found' not in st.mon:
                st.mon += ('found',)


def N_watches(N):
    return N.mWatches


def dropped(p, r):
    """a watch the system has dropped ( IN_IGNORED: its directory is gone or was replaced ) is forgotten, and what took its place is watched"""
    fn = handler(p)
    from .r_ino import handle_params, anchors_of
    iw, iname, ia = handle_params(fn)
    N = Names(p)
    w, nm = mk('param', iw, fn.params[iw]['name']), mk('param', iname, fn.params[iname]['name'])
    mon = Appear(p, N, w, nm, adder(p), lambda *a: None)
    eng = Engine(p, mon, anchors=anchors_of(p), limit=100000)
    n = added = 0
    for st, _ in eng.enter(fn, params={ia: INT(0x8000), iw: w, iname: EMPTY}):
        if 'removed' in st.mon:
            n += 1
            added += 'added' in st.mon
        elif 'gone' not in st.mon and eng.truth(st, mk_eq(mk('init', N.of(w, 'Parent')), NULL)) is not True:
            r.bad('c10:dropped', 'a watch of a subdirectory that the system has dropped stays registered, a directory that takes its place would be taken for watched: %s' % st.path(14))
    if n and not added:
        r.bad('c10:replaced', 'a directory that has taken the place of a watched one is not looked for when the watch is dropped by the system ( %s )' % fn.q)
    return n


def appear(p, r):
    fn = handler(p)
    from .r_ino import handle_params, anchors_of
    ad = adder(p)
    iw, iname, ia = handle_params(fn)
    N = Names(p)
    w = mk('param', iw, fn.params[iw]['name'])
    nm = mk('param', iname, fn.params[iname]['name'])
    n = 0
    for label, m in (('IN_CREATE', 0x100), ('IN_MOVED_TO', 0x80), ('IN_MODIFY', 2), ('IN_CLOSE_WRITE', 8)):
        mon = Appear(p, N, w, nm, ad, r.bad)
        eng = Engine(p, mon, anchors=anchors_of(p), limit=100000)
        res = eng.enter(fn, params={ia: INT(m | (ISDIR if label in ('IN_CREATE', 'IN_MOVED_TO') else 0)), iw: w, iname: nm})
        n += len(res)
        if label not in ('IN_CREATE', 'IN_MOVED_TO'):
            continue
        for st, _ in res:
            if 'added' in st.mon or 'gone' in st.mon or 'found' in st.mon:
                continue
            T_ = lambda x: eng.truth(st, x)
            path = mk_slash(mk_cat(mk('init', N.of(w, 'Directory')), nm))
            if T_(mk_eq(mk('init', N.of(w, 'Recursive')), NULL)) is True or T_(mk_eq(get(eng, st, w, 'Recursive', N), NULL)) is True:
                continue
            if any(f.op == 'isdir' and v is False for f, v in st.facts.items()):
                continue
            r.bad('c10:appear:none:' + label, 'a directory that appears in a recursively watched one ( %s ) is not added on a path of %s: %s' % (label, fn.q, st.path(14)))
    return n


@rule('C10', 'Path-sensitive dataflow over the function that adds watches and over the dispatch function. On every path on which a recursive watch is '
      'made the entries of exactly its directory are gone through to the end, every entry that is not found to be no directory, not readable or remote '
      'is handed to the same function with its own path, the listener, the flags and the new watch as parent, and the loop may stop early only behind a test that '
      'the watch is gone or the watcher is being destroyed; every IN_CREATE and every IN_MOVED_TO ( also a rename inside the directory, which may have been made before the directory was watched ) of a recursive watch reaches '
      'that function for Directory + name unless the path is no directory, is watched already or the watch is gone. A watch dropped by the system is forgotten and its path looked at again. The new watch inherits the id of its parent.',
      ['The directory listing contains every entry'], 'path-sensitive dataflow (coverage obligations)')
def c10(p, tier):
    r = Result()
    report(p, r, ('c10:', 'field:ID', 'field:Directory', 'field:Listener', 'field:Recursive', 'field:Parent', 'path'))
    r2 = Result()
    n = appear(p, r2)
    for k, t in r2.findings:
        if k.startswith('c10'):
            r.bad(k, t)
    r.need('dispatch_paths', n, 10)
    r.part(lambda: r.need('dropped_paths', dropped(p, r), 0))
    r.part(polled, p, r, ('c10',), ('c10:',), 'DirWatcherGeneric')
    leaves(p, r, 'listing')
    return r


@rule('C11', 'Path-sensitive dataflow: every call that adds a watch for a subdirectory, from the function that adds watches or from the dispatch of a '
      'notification, is reached only on paths where the watch was tested to be recursive.', [], 'path-sensitive dataflow (guard obligations)')
def c11(p, tier):
    r = Result()
    report(p, r, ('c11:',))
    r2 = Result()
    n = appear(p, r2)
    for k, t in r2.findings:
        if k.startswith('c11'):
            r.bad(k, t)
    r.need('dispatch_paths', n, 10)
    r.obligations += n
    r.part(polled, p, r, ('c11',), ('c11:',))
    return r


@rule('C12', 'Path-sensitive dataflow over the function that adds watches: at the call that subscribes, the facts of the path must say whether the argument is a '
      'link; if it is, the path subscribed is the target, the target was looked for among the watched directories, and the link was '
      'allowed: in scope, or following and out-of-scope links both enabled, and below another watch only with following enabled.',
      ['The link target is what the link reader returns'], 'path-sensitive dataflow (guard obligations)')
def c12(p, tier):
    r = Result()
    report(p, r, ('c12:', 'c13:code:FileOutOfScope', 'path'))
    r.part(polled, p, r, ('c12',), ('c12:', 'c13:code:FileOutOfScope'))
    leaves(p, r, 'link', 'dirname', 'prefix', 'islink')
    return r


@rule('C13', 'Path-sensitive dataflow over the function that adds watches: a subscription is made only where the path was found to be a directory, readable and '
      'not watched; each error code is returned only on paths whose facts give that reason; after a failure no table was written; on '
      'success the value returned is the id under which the watch was entered, never an unchecked descriptor, and the watch carries '
      'the listener, path, flags and parent that were given.', ['Directory tests mean what their names say (their bodies: C15, C21)'],
      'path-sensitive dataflow (argument validation)')
def c13(p, tier):
    r = Result()
    report(p, r, ('c13:', 'field:InotifyID', 'field:Directory', 'field:Listener', 'field:Recursive'))
    r.part(polled, p, r, ('c13',), ('c13:', 'field:', 'c16:root'), 'FileWatcherGeneric')
    leaves(p, r, 'isdir', 'readable', 'root')
    return r
