"""What FileWatcherGeneric::addWatch does on every path ( polling backend ): the parts of C12, C13, C16 and C23 that concern it."""
from .prog import AnalysisError
from .engine import *
from .ino import *
from .r_tree import DIR, WATCH, GEN, anchors, method, constructor, family, plain, mine, watched
from .r_add import AddMonitor, EN, NOTFOUND, REPEATED, SCOPE, UNREADABLE
from . import conc

FAILED = NOTFOUND


class AddGeneric(Monitor):
    """mon = markers ( key, value... )"""
    init = ()
    flag, scope = AddMonitor.flag, AddMonitor.scope
    put, has = AddMonitor.put, AddMonitor.has

    def __init__(self, p, fn, out):
        self.p, self.fn, self.out = p, fn, out
        P = fn.params
        i = param(fn, is_string)
        l = param(fn, is_ptr_to('FileWatchListener'))
        b = [j for j, q in enumerate(P) if is_bool(q['t'])]
        if i is None or l is None or len(b) != 1:
            raise AnalysisError('%s: its parameters are not known' % fn.q)
        t = lambda j: mk('param', j, P[j]['name'])
        self.dir, self.lis, self.rec = t(i), t(l), t(b[0])
        self.D = mk_slash(self.dir)
        self.L = mk('ap', 'linktarget', mk_noslash(self.D))
        self.mWatches = mk_fld(mk_obj(THIS), F(p, GEN, 'mWatches'))
        self.n = {'watches made': 0, 'ends': 0, 'failures': 0}

    def bad(self, k, text, st):
        if any(x.op in ('any', 'out') for f in st.facts for x in f.sy):
            return
        self.out(k, text + ': ' + st.path(12))

    def allowed(self, eng, st):
        f, o, s = self.flag(eng, st, 'mFollowSymlinks'), self.flag(eng, st, 'mOutOfScopeLinks'), self.scope(eng, st)
        if s is True or f is True and o is True:
            return True
        if s is False and (f is False or o is False):
            return False
        return None

    def event(self, eng, st, ev):
        k, n = ev.kind, ev.name
        if k == 'new' and n.endswith('::WatcherGeneric'):
            self.n['watches made'] += 1
            if self.has(st, 'new'):
                self.bad('c13:two', 'a second watch is made at %s' % ev.where(), st)
            self.put(st, 'new', ev.obj if isinstance(ev.obj, T) else ev.extra)
        elif (k == 'ctor' or k == 'rcall' or k == 'call') and (n == DIR or n == DIR + '::DirWatcherGeneric'):
            o = ev.obj
            self.put(st, 'dir', o.a[0] if isinstance(o, T) and o.op == 'obj' else o, ev.args)
        elif k in ('rcall', 'call') and n == DIR + '::addChildren':
            self.put(st, 'children', ev.obj, ev.args)
        elif k == 'mut' and ev.obj is self.mWatches:
            if ev.name in ('push', 'push_back', 'push_front', 'emplace_back', 'emplace_front', 'insert', 'emplace'):
                v = [x for x in ev.args if isinstance(x, T) and x.op != 'it']
                if self.has(st, 'in'):
                    self.bad('c13:twice', 'a watch is entered twice into the list of watches at %s' % ev.where(), st)
                self.put(st, 'in', v[-1] if v else None)
            else:
                self.bad('c13:list', 'addWatch changes the list of watches with %s at %s' % (ev.name, ev.where()), st)
        elif k == 'delete' and self.has(st, 'in') and ev.obj is self.has(st, 'in')[1]:
            self.bad('c13:deleted', 'a watch that was entered is deleted at %s' % ev.where(), st)

    def end(self, eng, st, ret):
        self.n['ends'] += 1
        T_ = lambda x: eng.truth(st, x)
        D, L = self.D, self.L
        ret = eng.resolve(st, ret) if isinstance(ret, T) else ret
        new, inl = self.has(st, 'new'), self.has(st, 'in')
        link = T_(mk_eq(L, EMPTY))
        d, rd = T_(mk('isdir', mk('fi', D))), T_(mk('readable', mk('fi', D)))
        if isint(ret) and ret.a[0] <= 0:
            self.n['failures'] += 1
            c = ret.a[0]
            if inl:
                self.bad('c13:left', 'a failed addWatch ( %s ) leaves its watch in the list of watches' % EN.get(c, c), st)
            why = {
                NOTFOUND: d is False, UNREADABLE: rd is False,
                REPEATED: T_(mk('ap', 'b:watched', D)) is True or T_(mk('ap', 'b:watched', mk_slash(L))) is True,
                SCOPE: link is False and self.allowed(eng, st) is False,
            }.get(c, False)
            if not why:
                self.bad('c13:code:%s' % EN.get(c, c), 'addWatch returns %s on a path where that is not the reason' % EN.get(c, c), st)
            if d is False and c != NOTFOUND:
                self.bad('c13:notfound', 'addWatch returns %s and not FileNotFound when the argument is not a directory' % EN.get(c, c), st)
            return
        if inl is None:
            self.bad('c13:nothing', 'addWatch returns %s without having entered a watch' % (show(ret) if isinstance(ret, T) else ret), st)
            return
        w = inl[1]
        if new is None or w is None or w is not new[1]:
            if w is None or not isinstance(w, T) or not plain(w):
                raise AnalysisError('the watch entered is not known')
            self.bad('c13:entered', 'addWatch enters %s and not the watch it made' % show(w), st)
            return
        if d is not True:
            self.bad('c13:dir', 'a watch is made on a path where the argument was not found to be a directory', st)
        if rd is not True:
            self.bad('c13:readable', 'a watch is made on a path where the directory was not found to be readable', st)
        if T_(mk('ap', 'b:watched', D)) is not False:
            self.bad('c13:repeated', 'a watch is made without the directory having been looked for among the watched ones, or although it is one', st)
        if link is None:
            self.bad('c12:unchecked', 'a watch is made without looking whether the path is a link', st)
        elif link is False:
            if T_(mk('ap', 'b:watched', mk_slash(L))) is not False:
                self.bad('c12:repeated', 'a linked directory is watched without its target having been looked for among the watched ones', st)
                self.bad('c13:repeated:link', 'a watch is added on a link without its target having been looked for among the watched ones, the directory could be watched twice', st)
            if self.allowed(eng, st) is not True:
                self.bad('c12:entered', 'a linked directory is watched although this was not found to be allowed ( follow links: %s, out of scope links: %s, in scope: %s )' %
                         (self.flag(eng, st, 'mFollowSymlinks'), self.flag(eng, st, 'mOutOfScopeLinks'), self.scope(eng, st)), st)
        # the fields of the watch
        o = lambda q: eng.resolve(st, eng.read(st, mk_fld(mk_obj(w), q)))
        path = mk_slash(L) if link is False else D
        B = 'efsw::Watcher'
        got = {n: o(F(self.p, B, n)) for n in ('ID', 'Directory', 'Listener', 'Recursive')}
        if got['ID'] is not ret and T_(mk_eq(got['ID'], ret)) is not True and isinstance(ret, T) and plain(ret) and plain(got['ID']):
            self.bad('c13:id', 'addWatch returns %s, the watch has the id %s' % (show(ret), show(got['ID'])), st)
        for n, x in (('Directory', path), ('Listener', self.lis), ('Recursive', self.rec)):
            if not self.same(eng, st, got[n], x):
                if n == 'Directory' and link is False and mk_slash(got[n]) is D:
                    self.bad('c12:target', 'a linked directory is watched under the path of the link and not of its target', st)
                    continue
                self.bad('field:' + n, 'the new watch gets %s = %s instead of %s' % (n, show(got[n]), show(x)), st)
        # its tree
        m = self.has(st, 'dir')
        root = o(F(self.p, WATCH, 'DirWatch'))
        if m is None or root is NULL:
            self.bad('c16:root', 'a watch is made without the snapshot of its directory', st)
            return
        if root is not m[1] and plain(root):
            self.bad('c16:root', 'the directory of the new watch is %s and not the one that was made' % show(root), st)
        ci = constructor(self.p, DIR)
        a = list(m[2])
        for x, q in zip(a, ci.params):
            want = None
            s = q['t'].get('s', '')
            if is_string(q['t']):
                want = path
            elif s.replace(' ', '').endswith('DirWatcherGeneric*'):
                want = NULL
            elif s.replace(' ', '').endswith('WatcherGeneric*'):
                want = w
            elif is_bool(q['t']):
                want = self.rec if 'rec' in q['name'].lower() else NULL
            if want is not None and not self.same(eng, st, eng.resolve(st, x), want):
                self.bad('c16:root:' + q['name'], 'the directory of the new watch is made with %s = %s instead of %s' % (q['name'], show(x), show(want)), st)
        ch = self.has(st, 'children')
        if ch is None or ch[1] is not m[1]:
            if T_(mk_eq(self.rec, NULL)) is not True:
                self.bad('c10:initial', 'a watch is made without the directories below it having been looked for', st)
        elif ch[2] and not self.same(eng, st, eng.resolve(st, ch[2][0]), NULL):
            self.bad('c16:initial', 'the content a directory has when it is added is reported', st)

    def same(self, eng, st, v, x):
        if not isinstance(v, T) or not plain(v):
            return True
        if v is x or mk_slash(v) is mk_slash(x) or eng.truth(st, mk_eq(v, x)) is True or unbool(v) is unbool(x):
            return True
        if x in (NULL, self.rec):
            a, b = eng.truth(st, mk_eq(v, NULL)), eng.truth(st, mk_eq(x, NULL))
            return a is not None and a == b or a is None and not isint(v)
        return False


def analyse(p):
    if hasattr(p, '_addgen'):
        return p._addgen
    fn = method(p, GEN, 'addWatch')
    out = {}
    m = AddGeneric(p, fn, lambda k, t: out.setdefault(k, '%s ( polling backend )' % t if ': ' not in t else t))
    a = anchors(p)
    eng = Engine(p, m, backend=GEN, anchors=a, noinline=[DIR], limit=20000)
    for st, ret in eng.enter(fn):
        m.end(eng, st, ret)
    p._addgen = (out, m)
    return p._addgen


def generic_adder(p, r, pref):
    out, m = analyse(p)
    for k, t in out.items():
        if any(k.startswith(x) for x in pref):
            r.bad('generic:' + k, 'FileWatcherGeneric::addWatch: ' + t)
    r.counts.update({'generic_adder_' + k: v for k, v in m.n.items()})
    r.obligations += sum(m.n.values())
    r.need('generic watches made', m.n['watches made'], 1)
    r.need('generic failures', m.n['failures'], 3)


# -------------------------------------------------------------------- is the path watched?
class Looked(Monitor):
    """mon = ( sources gone through to the end, own path compared, ( element, compared, asked ) )"""
    init = (frozenset(), None, None, False)

    def __init__(self, p, fn, own, item, coll, bad, note):
        self.p, self.fn, self.own, self.item, self.coll, self.bad_, self.note = p, fn, own, item, coll, bad, note
        self.x = mk('param', 0, fn.params[0]['name'])
        self.n = {'elements': 0, 'ends': 0}

    def same_path(self, f, loc):
        """is the fact a comparison of the path with this field?"""
        if f.op != 'eq':
            return False
        for a, b in (f.a, f.a[::-1]):
            if mk_slash(a) is mk_slash(self.x) and any(y is loc for y in subterms(b)):
                return True
        return False

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        over, own, cur, hit = st.mon
        if atom.op == 'atend' and vroot(atom.a[1], self.coll):
            if hit and cur is not None:
                self.settle(eng, st, cur, hit)
                over, own, cur, hit = st.mon
            if val:
                over = over | {1}
                cur = None
            else:
                cur = (mk_elem(atom.a[1], atom.a[0]), None, None)
        elif atom.op == 'vempty' and val and vroot(atom.a[0], self.coll):
            over = over | {1}
        elif self.own is not None and self.same_path(atom, self.own):
            own = val
        elif cur is not None:
            e = self.target(cur[0])
            if self.item is not None and self.same_path(atom, mk_fld(mk_obj(e), self.item)):
                cur = (cur[0], val, cur[2])
            elif atom.op == 'ap' and atom.a[0] == 'b:asked' and atom.a[1] is e:
                cur = (cur[0], cur[1], val)
        st.mon = (over, own, cur, hit)

    def target(self, e):
        return e

    def event(self, eng, st, ev):
        over, own, cur, hit = st.mon
        if ev.kind == 'step' and cur is not None and ev.args and isinstance(ev.args[0], T) and ev.args[0].op == 'it' and ev.args[0].a[2] is cur[0].a[1]:
            self.n['elements'] += 1
            t = mk('ap', 'b:asked', self.target(cur[0]))
            if cur[2] is None and any(any(x is t for x in subterms(v)) for v in st.store.values()):
                st.mon = (over, own, cur, ev.where())        # the answer was kept and is looked at later
            else:
                self.settle(eng, st, cur, ev.where())

    def settle(self, eng, st, cur, at):
        over, own, _, _ = st.mon
        self.element(eng, st, cur, at)
        st.mon = (over, own, None, False)
        for k in list(st.store):
            if any(x is cur[0].a[1] for x in k.sy):
                del st.store[k]

    def element(self, eng, st, cur, at):
        if cur[1] is not False and self.item is not None and cur[2] is not False:
            self.bad_('lookup:skipped', 'an element of %s is passed over at %s without its path having been compared: %s' % (show(self.coll), at, st.path(8)))
        elif cur[1] is True or cur[2] is True:
            self.bad_('lookup:ignored', 'an element of %s that has the path is passed over at %s: %s' % (show(self.coll), at, st.path(8)))
        elif cur[2] is None:
            self.bad_('lookup:below', 'an element of %s is passed over at %s without the directories below it having been looked at: %s' % (show(self.coll), at, st.path(8)))

    def end(self, eng, st, ret):
        over, own, cur, hit = st.mon
        self.n['ends'] += 1
        t = eng.truth(st, mk_eq(ret, NULL)) if isinstance(ret, T) else None
        pos = own is True or cur is not None and (cur[1] is True or cur[2] is True)
        ask = [x for x in subterms(ret) if x.op == 'ap' and x.a[0] == 'b:asked'] if isinstance(ret, T) else []
        if t is None and cur is not None and any(x.a[1] is self.target(cur[0]) for x in ask):
            if not over:
                self.bad_('lookup:early', '%s answers with what one element of %s says: %s' % (self.fn.q, show(self.coll), st.path(8)))
            return
        if t is None:
            self.note('%s: what it returns is not known' % self.fn.q)
        elif t:         # no
            if pos:
                self.bad_('lookup:no', '%s denies a path that was found: %s' % (self.fn.q, st.path(8)))
            elif not over:
                self.bad_('lookup:early', '%s denies a path without having looked through all of %s: %s' % (self.fn.q, show(self.coll), st.path(8)))
            elif self.own is not None and own is None:
                self.bad_('lookup:own', '%s denies a path without having compared it with its own: %s' % (self.fn.q, st.path(8)))
        elif not pos:
            self.bad_('lookup:yes', '%s claims a path that was not found: %s' % (self.fn.q, st.path(8)))


def asked(eng, st, c):
    o = c.obj
    o = o.a[0] if isinstance(o, T) and o.op == 'obj' else o
    return [(st, mk('ap', 'b:asked', o))]


class LookedTree(Looked):
    def target(self, e):
        return mk_proj(e, 'second')


def generic_lookup(p, r):
    """the two functions that tell whether a path is watched say no only after having looked everywhere"""
    n = 0
    from .r_snap import snap_field
    o = mk_obj(THIS)
    snap = mk_fld(o, F(p, DIR, 'DirSnap'))
    own = mk_fld(mk_fld(snap, snap_field(p, lambda s: s == 'efsw::FileInfo')), F(p, 'efsw::FileInfo', 'Filepath'))
    for cls, c, own, item, coll in ((GEN, Looked, None, F(p, 'efsw::Watcher', 'Directory'), mk_fld(o, F(p, GEN, 'mWatches'))),
                                    (DIR, LookedTree, own, None, mk_fld(o, F(p, DIR, 'Directories')))):
        fn = method(p, cls, 'pathInWatches')
        m = c(p, fn, own, item, coll, lambda k, t, q=cls: r.bad('%s:%s' % (q.split('::')[-1], k), t), r.note)
        a = {WATCH + '::pathInWatches': asked, DIR + '::pathInWatches': asked}
        eng = Engine(p, m, backend=GEN, anchors=a, limit=5000)
        for st, ret in eng.enter(fn):
            m.end(eng, st, ret)
        r.need('%s: elements' % fn.q, m.n['elements'], 1)
        r.need('%s: ends' % fn.q, m.n['ends'], 2)
        n += sum(m.n.values())
    # the watch asks its directory
    fn = method(p, WATCH, 'pathInWatches')

    class One(Monitor):
        init = 0

        def event(self, eng, st, ev):
            pass
    eng = Engine(p, One(), backend=GEN, anchors={DIR + '::pathInWatches': asked}, limit=500)
    for st, ret in eng.enter(fn):
        n += 1
        if not (isinstance(ret, T) and any(x.op == 'ap' and x.a[0] == 'b:asked' for x in subterms(ret))):
            if isint(ret) or isinstance(ret, T) and plain(ret):
                if not any(f.op == 'ap' and f.a[0] == 'b:asked' for f in st.facts):
                    r.bad('watch:lookup', '%s answers without having asked the directory of the watch: %s' % (fn.q, st.path(6)))
    r.obligations += n
