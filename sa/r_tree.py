"""The tree of polled directories ( generic backend ): C16, and the parts of C05, C10-C13 and C23 that concern it."""
from .prog import AnalysisError
from .engine import *
from .ino import *
from .r_leaf import leaves
from .r_snap import LISTS, DIFF, SNAPSHOT, diff_fields, snap_field
from .rules import rule, Result
from . import conc

DIR = 'efsw::DirWatcherGeneric'
WATCH = 'efsw::WatcherGeneric'
GEN = 'efsw::FileWatcherGeneric'
ADD, DELETE, MODIFIED, MOVED = 1, 2, 3, 4
ACTION = {'Created': ADD, 'Modified': MODIFIED, 'Deleted': DELETE, 'Moved': MOVED}
ANAME = {1: 'Add', 2: 'Delete', 3: 'Modified', 4: 'Moved'}
NOIN = ('efsw::DirectorySnapshot', 'efsw::FileSystem', 'efsw::FileInfo', DIR, WATCH)


def plain(t):
    """a value the analysis can name"""
    return isinstance(t, T) and not any(x.op in ('any', 'out', 'big', 'undef') for x in subterms(t)) and \
        not any(x.op == 'ret' and not x.a[0].endswith('scan') for x in subterms(t))


def mine(eng, st, c):
    """is the path watched by ( the tree of ) this object?"""
    return [(st, mk('ap', 'b:mine', mk_slash(c.args[0])))]


def watched(eng, st, c):
    """is the path watched by any watch of the user?"""
    return [(st, mk('ap', 'b:watched', mk_slash(c.args[0])))]


def method(p, cls, name, n=1):
    fs = [f for f in p.fns.values() if f.q == '%s::%s' % (cls, name)]
    if len(fs) != n:
        raise AnalysisError('%d functions %s::%s' % (len(fs), cls, name))
    return fs[0]


def constructor(p, cls):
    fs = [f for f in p.fns.values() if f.cls == cls and f.isctor and len(f.params) > 2]
    if len(fs) != 1:
        raise AnalysisError('%d constructors of %s' % (len(fs), cls))
    return fs[0]


def destructor(p, cls):
    fs = [f for f in p.fns.values() if f.cls == cls and f.isdtor]
    if len(fs) != 1:
        raise AnalysisError('%d destructors of %s' % (len(fs), cls))
    return fs[0]


def scanner(p):
    fns = [f for f in p.fns.values() if f.cls == SNAPSHOT and DIFF.split('::')[-1] in f.ret.get('s', '') and not f.params]
    if len(fns) != 1:
        raise AnalysisError('%d functions compare a directory with its snapshot' % len(fns))
    return fns[0]


def family(p):
    """the methods of a directory of the tree that call themselves for its children"""
    cg = callees(p)
    return [f for f in p.fns.values() if f.cls == DIR and not f.isctor and not f.isdtor and
            any(f.usr in conc.reach(cg, u) or u == f.usr for u in cg.get(f.usr, ()))]


def anchors(p):
    a = {'%s::%s' % (DIR, n): opaque for n in ('watch', 'addChildren', 'resetDirectory', 'findDirWatcher')}
    a[scanner(p).q] = opaque
    a[DIR + '::pathInWatches'] = mine
    a[WATCH + '::pathInWatches'] = mine
    for c in ('efsw::FileWatcherImpl', GEN):
        a[c + '::pathInWatches'] = watched
    return a


class Tree(Monitor):
    """mon = ( what the current element is: ( list or 'children' or 'entries' or None, its container value, its key ), what was done for it, flags )"""
    init = (None, (), frozenset())
    config = ('mFollowSymlinks', 'mOutOfScopeLinks')
    drop_param = False
    hold = None

    def __init__(self, p, fn, out, note):
        self.p, self.fn, self.note = p, fn, note
        self.out = out
        self.lists = {F(p, DIFF, n): n for n in LISTS}
        o = mk_obj(THIS)
        self.L = {n: mk_fld(o, F(p, DIR, n)) for n in ('Parent', 'Watch', 'DirSnap', 'Directories', 'Recursive', 'Deleted')}
        self.snapinfo = snap_field(p, lambda s: s == 'efsw::FileInfo')
        self.snapfiles = snap_field(p, lambda s: s.startswith(MAPS))
        self.qpath = F(p, 'efsw::FileInfo', 'Filepath')
        self.files = mk_fld(self.L['DirSnap'], self.snapfiles)
        self.shared = {mk_fld(o, F(p, GEN, n)) for n in ('mWatches', 'mDeletedWatches')}
        self.qdel = F(p, DIR, 'Deleted')
        self.dirs = self.L['Directories']
        self.n = {'elements': 0, 'reports': 0, 'created': 0, 'left out': 0, 'children': 0, 'ends': 0}

    def bad(self, k, t, st):
        if self.hold is not None:
            if any(x.op in ('any', 'out') for f in st.facts for x in f.sy):
                self.note('%s: not decided: %s' % (self.fn.q, t[:160]))
            else:
                self.hold.append((k, t))
            return
        if any(x.op in ('any', 'out') for f in st.facts for x in f.sy):
            self.note('%s: not decided: %s' % (self.fn.q, t[:160]))
            return
        self.out(k, t)

    # ------------------------------------------------------------ terms
    def val(self, eng, st, n):
        return eng.value(st, self.L[n])

    def dirpath(self, eng, st):
        return eng.value(st, mk_fld(mk_fld(self.L['DirSnap'], self.snapinfo), self.qpath))

    def wfield(self, eng, st, n):
        W = self.val(eng, st, 'Watch')
        return eng.value(st, mk_fld(mk_obj(W), F(self.p, 'efsw::Watcher', n)))

    def silent(self, eng, st):
        """the watch was removed by its listener"""
        return eng.truth(st, mk_eq(self.wfield(eng, st, 'Listener'), NULL)) is True

    def yes(self, eng, st, v):
        """a flag"""
        if isint(v):
            return v.a[0] != 0
        t = eng.truth(st, v)
        if t is None:
            t = eng.truth(st, mk_eq(v, NULL))
            t = None if t is None else not t
        return t

    def name_of(self, elem, l):
        if l is None or l in ('entries', 'children'):
            return mk_proj(elem, 'first')
        if l.endswith('Moved'):
            return mk_fname(mk_proj(mk_proj(elem, 'second'), self.qpath))
        return mk_fname(mk_proj(elem, self.qpath))

    def names(self, elem, l):
        """the terms that all are the bare name of the element"""
        x = self.name_of(elem, l)
        s = {x, mk_fname(x)}
        if l == 'entries':
            s.add(mk_fname(mk_proj(mk_proj(elem, 'second'), self.qpath)))
        return s

    def olds(self, elem):
        x = mk_proj(elem, 'first')
        return {x, mk_fname(x)}

    def source(self, V):
        """which collection does a container value belong to?"""
        if V.op == 'proj' and V.a[1] in self.lists and V.a[0].op in ('ret', 'hv', 'init', 'v'):
            return self.lists[V.a[1]]
        if V.op in ('hv', 'init') and V.a[0].op == 'fld' and V.a[0].a[1] in self.lists:
            return self.lists[V.a[0].a[1]]
        if vroot(V, self.dirs):
            return 'children'
        if vroot(V, self.files):
            return 'entries'
        return None

    # ------------------------------------------------------------ widening
    def widen(self, st, mine=None, ek=None):
        drop = lambda x: x.op in ('old', 'gen', 'cv', 'new') or x is ek
        for k in list(st.store):
            v = st.store[k]
            if k is mine:
                continue
            if k is self.dirs:
                st.store[k] = mk('hv', k)
            elif any(drop(x) for x in k.sy):
                del st.store[k]
            elif any(drop(x) for x in v.sy) and k.op == 'v':
                st.store[k] = mk('big', 'any', k.id)
        st.facts = {f: v for f, v in st.facts.items() if not any(drop(x) for x in f.sy) and not any(x.op in ('ins', 'del', 'app') for x in subterms(f))}
        st.rep = {k: v for k, v in st.rep.items() if not any(drop(x) for x in k.sy | v.sy)}

    def settle(self, eng, st):
        """drops what has no bearing on the lists still to come, so that the paths meet again"""
        keep = mk_eq(self.wfield(eng, st, 'Listener'), NULL)

        def out(f):
            if f is keep:
                return False
            if f.op == 'vempty':
                return self.source(f.a[0]) in LISTS
            if f.op == 'eq' and any(isint(x) for x in f.a):
                return any(x.op == 'proj' and x.a[1] not in self.lists and x.a[0].op == 'ret' or
                           x.op == 'init' and x.a[0].op == 'fld' and any(x.a[0].a[1].endswith(e) for e in self.config) or self.drop_param and x.op == 'param' for x in f.a)
            return False
        st.facts = {f: v for f, v in st.facts.items() if not out(f)}
        st.rep = {k: v for k, v in st.rep.items() if mk_eq(k, v) is keep or not out(mk_eq(k, v))}
        for k in list(st.store):
            if k.op == 'tmp':
                del st.store[k]
            elif k in self.shared or k is self.dirs:
                st.store[k] = mk('hv', k)

    # ------------------------------------------------------------ events
    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        cur, done, fl = st.mon
        if atom.op == 'atend':
            ek, V = atom.a
            s = self.source(V)
            if s is None:
                return
            if cur is not None and cur[3]:
                self.pending(st)
                self.widen(st)
                self.settle(eng, st)
                cur, done, fl = st.mon
            if cur is not None and cur[2] is not ek and s in LISTS and s != cur[0]:
                cur, done = None, ()                     # that loop was left before its end
                st.mon = (cur, done, fl)
            if val:
                if cur is None or cur[2] is ek:
                    st.mon = (None, (), fl | {('over', s)})
            elif cur is None:
                self.settle(eng, st)
                st.mon = ((s, V, ek, None), (), fl)
                self.n['elements'] += 1
        elif atom.op == 'eq' and val and any(x is NULL for x in atom.a) and \
                any(x.op == 'proj' and x.a[1] == 'second' and self.child_key(x) is not None for x in atom.a):
            self.do(st, 'nochild')
        elif atom.op == 'vempty':
            s = self.source(atom.a[0])
            if s is None:
                return
            if val:
                st.mon = (cur, done, fl | {('over', s)})
            elif s == 'children':
                st.mon = (cur, done, fl - {('over', s)})

    def do(self, st, *what):
        cur, done, fl = st.mon
        if len(done) > 30:
            raise AnalysisError('%s: a loop was not recognised' % self.fn.q)
        st.mon = (cur, done + (what,), fl)

    def event(self, eng, st, ev):
        k = ev.kind
        cur, done, fl = st.mon
        if k == 'cb':
            if ev.name != 'handleFileAction' or len(ev.args) < 5:
                return
            self.n['reports'] += 1
            self.dangling(eng, st, ev, 'a report is made')
            self.cb_args(eng, st, ev)
            self.do(st, 'cb', ev.args[2], ev.args[3], ev.args[4], ev.where())
            if cur is None:
                self.stray(eng, st, ev)
        elif k == 'mut' and ev.obj is self.dirs:
            if ev.name == 'erase' and ev.args:
                self.do(st, 'erase', ev.args[0], ev.where())
            elif ev.name in ('set', 'insert', 'emplace'):
                self.do(st, 'set', ev.args[0], ev.args[1] if len(ev.args) > 1 else None, ev.where())
            elif ev.name != 'clear':
                self.do(st, 'unknown', ev.name)
            else:
                self.do(st, 'clear', ev.where())
        elif k in ('rcall', 'call', 'ctor'):
            n = ev.name.split('::')[-1]
            if k == 'ctor' and ev.name == DIR or ev.name == DIR + '::' + DIR.split('::')[-1]:
                o = ev.obj
                o = o.a[0] if isinstance(o, T) and o.op == 'obj' else o
                self.do(st, 'make', o, ev.args, ev.where())
            elif ev.name == self.scan_q:
                st.mon = (cur, done, fl | {'scanned'})
            elif ev.name.startswith(DIR + '::'):
                self.do(st, n, ev.obj, ev.args, ev.where())
        elif k == 'write' and ev.name == self.qdel and isinstance(ev.obj, T) and ev.obj.op == 'fld':
            o = ev.obj.a[0]
            self.do(st, 'flag', o.a[0] if o.op == 'obj' else o, ev.args[0], ev.where())
        elif k == 'delete' and isinstance(ev.obj, T) and ev.obj is not NULL and DIR.split('::')[-1] in ev.name:
            self.dangling(eng, st, ev, 'another directory is deleted')
            self.do(st, 'delete', ev.obj, ev.where())
        elif k == 'step' and ev.args and isinstance(ev.args[0], T) and ev.args[0].op == 'it':
            C, V, ek = ev.args[0].a
            if cur is None or ek is not cur[2] or cur[3]:
                return
            self.hold = []
            try:
                self.judge(eng, st, ev.where())
            finally:
                hold, self.hold = tuple(self.hold), None
            fl = st.mon[2]
            if hold:
                # what follows may still be about this element
                st.mon = (cur[:3] + (hold, len(done)), done, fl)
                return
            self.widen(st, ev.obj, ek)
            self.settle(eng, st)
            st.mon = (None, (), fl)

    def pending(self, st):
        cur, done, fl = st.mon
        if len(done) > cur[4]:
            self.note('%s: what is done for an element after the next one was looked for is not decided' % self.fn.q)
        else:
            for k, t in cur[3]:
                self.out(k, t)
        st.mon = (None, (), fl)

    def finish(self, eng, st):
        if st.mon[0] is not None and st.mon[0][3]:
            self.pending(st)

        class End(object):
            kind = 'ret'
            where = lambda self_: 'its end'
        self.dangling(eng, st, End(), '%s returns' % self.fn.q)
        self.end(eng, st, End())

    def dangling(self, eng, st, ev, what):
        """a deleted child that is still in the tree"""
        done = st.mon[1]
        for i, d in enumerate(done):
            if d[0] == 'delete':
                key = self.child_key(d[1])
                if key is not None and not any(e[0] == 'clear' or e[0] == 'erase' and e[1] is key for e in done) and \
                        not any(e[0] == 'set' and e[1] is key for e in done[i:]):
                    self.bad('c05:dangling', 'a directory deleted at %s is still in the tree when %s at %s: a listener that adds a watch makes the watcher look at it: %s' %
                             (d[2], what, ev.where(), st.path(8)), st)

    def child_key(self, o):
        for x in subterms(o):
            if x.op == 'elem' and vroot(x.a[0], self.dirs):
                k = x.a[1]
                return k.a[0] if k.op == 'k' else mk_proj(x, 'first')
        return None

    def cb_args(self, eng, st, ev):
        a, at = ev.args, ev.where()
        for n, v, x in (('id', a[0], self.wfield(eng, st, 'ID')), ):
            self.same('arg:' + n, eng, st, v, x, 'a report at %s is given the %s %%s instead of %%s' % (at, n))
        if st.mon[0] is not None:
            self.same('arg:dir', eng, st, a[1], self.dirpath(eng, st), 'a report at %s is given the directory %%s instead of %%s' % at)

    def same(self, key, eng, st, v, x, text):
        v, x = eng.resolve(st, v), eng.resolve(st, x)
        if v is x or eng.truth(st, mk_eq(v, x)) is True or mk_slash(v) is mk_slash(x):
            return True
        if plain(v):
            self.bad(key, text % (show(v)[:120], show(x)[:120]), st)
            return False
        return None

    scan_q = None

    # ------------------------------------------------------------ judgements
    def stray(self, eng, st, ev):
        if any(x.op == 'elem' and self.source(x.a[0]) is None for a in ev.args for x in subterms(a)):
            self.note('%s: what is reported at %s was not recognised' % (self.fn.q, ev.where()))
            st.mon = (st.mon[0], st.mon[1], st.mon[2] | {'foreign'})
            return
        self.bad('stray', '%s makes a report at %s that belongs to no difference: %s' % (self.fn.q, ev.where(), st.path(8)), st)

    def report(self, eng, st, l, elem, done, action, at, how):
        cbs = [d for d in done if d[0] == 'cb']
        if self.silent(eng, st):
            return
        if not cbs:
            self.bad('lost:' + str(l), 'an entry of %s is not reported ( %s ): %s' % (l, at, how), st)
            return
        if len(cbs) > 1:
            self.bad('twice:' + str(l), 'an entry of %s is reported twice, at %s and %s: %s' % (l, cbs[0][4], cbs[1][4], how), st)
            return
        _, name, act, old, w = cbs[0]
        act = eng.resolve(st, act)
        if isint(act) and act.a[0] != action:
            self.bad('action:' + str(l), 'an entry of %s is reported as %s at %s' % (l, ANAME.get(act.a[0], act.a[0]), w), st)
        ok = self.names(elem, l)
        name = eng.resolve(st, name)
        if not any(name is x for x in ok) and plain(name):
            self.bad('name:' + str(l), 'the report of an entry of %s at %s is given the name %s instead of %s' % (l, w, show(name)[:120], show(self.name_of(elem, l))), st)
        old = eng.resolve(st, old)
        if action == MOVED:
            if not any(old is x for x in self.olds(elem)) and plain(old):
                self.bad('old:' + str(l), 'the report of a moved entry at %s is given the old name %s instead of %s' % (w, show(old)[:120], show(mk_proj(elem, 'first'))), st)
        elif old is not EMPTY and plain(old):
            self.bad('old:' + str(l), 'the report of an entry of %s at %s is given the old name %s' % (l, w, show(old)[:120]), st)

    def has_child(self, eng, st, names):
        """was a child with one of the names in the tree?"""
        r = None
        for f, v in st.facts.items():
            if f.op == 'has' and self.source(f.a[0]) == 'children' and any(f.a[1] is x for x in names):
                r = v
        for x in names:
            if any(f.op == 'vempty' and v and self.source(f.a[0]) == 'children' for f, v in st.facts.items()):
                r = False
        return r

    def no_child(self, eng, st):
        """the path goes on with a NULL entry of the tree; there is none"""
        return any(d[0] == 'nochild' for d in st.mon[1])

    def is_child(self, o, names):
        k = self.child_key(o)
        return k is not None and any(k is x for x in names)

    def judge(self, eng, st, at):
        (l, V, ek), done, fl = st.mon[0][:3], st.mon[1], st.mon[2]
        elem = mk_elem(V, ek)
        how = st.path(8)
        if any(d[0] == 'unknown' for d in done):
            self.note('%s: the tree is changed by %s, not recognised' % (self.fn.q, [d[1] for d in done if d[0] == 'unknown'][0]))
            return
        if l == 'children':
            self.n['children'] += 1
            self.child(eng, st, elem, done, at, how)
        elif l == 'entries':
            self.entry(eng, st, elem, done, at, how)
        else:
            self.difference(eng, st, l, elem, done, at, how)

    def child(self, eng, st, elem, done, at, how):
        pass

    def entry(self, eng, st, elem, done, at, how):
        pass

    def difference(self, eng, st, l, elem, done, at, how):
        pass

    def end(self, eng, st, ev):
        pass

    # ------------------------------------------------------------ a directory that is to be watched
    def flag(self, eng, st, name):
        for f, v in st.facts.items():
            if f.op == 'eq' and any(isint(x) and x.a[0] == 0 for x in f.a):
                for x in f.a:
                    if x.op == 'init' and show(x).endswith(name):
                        return not v
        for k, v in st.rep.items():
            if k.op == 'init' and show(k).endswith(name) and isint(v):
                return v.a[0] != 0
        return None

    def scope(self, st, L):
        r = None
        for f, v in st.facts.items():
            if f.op == 'prefix' and any(x is L for x in subterms(f.a[1])) and any(x.op == 'dirname' for x in subterms(f.a[0])):
                r = v if r is None or v else r
        return r

    def eligible(self, eng, st, l, elem, P, names, done, at, how, report, both):
        """judges whether a new directory gets its place in the tree; P: its path"""
        T_ = lambda x: eng.truth(st, x)
        P = mk_slash(P)
        L = mk('ap', 'linktarget', mk_noslash(P))
        fis = [mk('fi', P), mk('fi', mk_noslash(P))] + ([mk_proj(elem, 'second')] if l == 'entries' else [elem])
        q = lambda op: next((v for v in (T_(mk(op, x)) for x in fis) if v is not None), None)
        remote = next((v for v in (T_(mk('remote', x)) for x in (P, mk_noslash(P), mk_proj(fis[-1], self.qpath))) if v is not None), None)
        link = T_(mk_eq(L, EMPTY))
        w = lambda op, *xs: next((v for v in (T_(mk('ap', op, mk_slash(x))) for x in xs) if v is not None), None)
        f, o, s = self.flag(eng, st, 'mFollowSymlinks'), self.flag(eng, st, 'mOutOfScopeLinks'), self.scope(st, L)
        rec = self.yes(eng, st, self.val(eng, st, 'Recursive'))
        own = [P] + list(names)
        makes = [d for d in done if d[0] == 'make']
        if not makes:
            self.n['left out'] += 1
            if rec is False or q('isdir') is False or q('readable') is False or remote is True:
                return
            if w('b:watched', *own) or w('b:mine', *own):
                return
            if link is False and (f is False or w('b:watched', L) or w('b:mine', L) or s is False and (f is False or o is False)):
                return
            self.bad('c10:left', 'a directory of %s is left out at %s although it is not known to be excluded: %s' % (l, at, how), st)
            return
        self.n['created'] += 1
        if len(makes) > 1:
            self.bad('c10:twice', 'two watchers are made for one directory, at %s and %s' % (makes[0][3], makes[1][3]), st)
            return
        _, new, a, where = makes[0]
        if rec is not True:
            self.bad('c11:recursion', 'a directory found in a watched one is watched too at %s although the watch is not known to be recursive: %s' % (where, how), st)
        for n, v in (('a directory', q('isdir')), ('readable', q('readable'))):
            if v is not True:
                self.bad('c13:' + n.split()[-1], 'a directory found in a watched one is watched at %s without being known to be %s: %s' % (where, n, how), st)
        if remote is not False:
            self.bad('c23:child', 'a directory found in a watched one is watched at %s although it was not found to be on a local file system: %s' % (where, how), st)
        path = eng.resolve(st, a[2])
        if link is None:
            self.bad('c12:unchecked', 'a directory found in a watched one is watched at %s without looking whether it is a link: %s' % (where, how), st)
        elif link is False:
            if f is not True:
                self.bad('c12:follow', 'a linked directory is entered at %s although following links is not known to be enabled: %s' % (where, how), st)
            elif not (s is True or o is True):
                self.bad('c12:scope', 'a linked directory is entered at %s that may be out of scope: %s' % (where, how), st)
            if w('b:watched', L) is not False or both and w('b:mine', L) is not False:
                self.bad('c12:repeated', 'a linked directory is entered at %s without its target having been looked for among the watched ones: %s' % (where, how), st)
            if mk_slash(path) is not mk_slash(L) and plain(path):
                self.bad('c12:target', 'a linked directory is watched at %s under %s and not under its target: %s' % (where, show(path)[:100], how), st)
        else:
            if mk_slash(path) is not P and not any(path is x for x in names) and plain(path):
                self.bad('path', 'a new directory is watched at %s under %s instead of %s' % (where, show(path)[:100], show(P)[:100]), st)
        self.same('parent', eng, st, a[0], self.this(), 'a new directory at %s gets the parent %%s instead of %%s' % where)
        self.same('watch', eng, st, a[1], self.val(eng, st, 'Watch'), 'a new directory at %s gets the watch %%s instead of %%s' % where)
        if len(a) > 3 and self.yes(eng, st, eng.resolve(st, a[3])) is False:
            self.bad('c11:child', 'a directory of a recursive watch is made non-recursive at %s: %s' % (where, how), st)
        if len(a) > 4:
            self.same('files', eng, st, a[4], report, 'whether the files of a new directory are reported is %%s instead of %%s at %s' % where)
        kids = [d for d in done if d[0] == 'addChildren' and d[1] is new]
        sets = [d for d in done if d[0] == 'set']
        good = [d for d in sets if any(d[1] is x for x in names)]
        if not kids and not (len(sets) and any(d[0] == 'addChildren' and self.is_child(d[1], names) for d in done)):
            self.bad('c10:below', 'the directories below a new one are not looked for ( %s ): %s' % (where, how), st)
        for d in done:
            if d[0] == 'addChildren' and d[2]:
                v, x = self.yes(eng, st, eng.resolve(st, d[2][0])), self.yes(eng, st, report)
                if v is not None and x is not None and v is not x:
                    self.bad('dirs', 'the directories below a new one are %sreported ( %s ): %s' % ('' if v else 'not ', d[3], how), st)
        if not sets and self.has_child(eng, st, names):
            pass
        elif not sets:
            self.bad('c10:stored', 'a new directory does not get its place in the tree ( %s ): it is not polled: %s' % (where, how), st)
        elif not good and plain(eng.resolve(st, sets[0][1])):
            self.bad('key', 'a new directory is entered into the tree at %s under %s instead of %s' % (sets[0][3], show(sets[0][1])[:120], show(self.name_of(elem, l))), st)
        elif good and good[-1][2] is not new and good[-1][2] is not None and plain(good[-1][2]):
            self.bad('stored', 'the tree gets %s instead of the new directory at %s' % (show(good[-1][2])[:100], good[-1][3]), st)

    def this(self):
        return THIS


class Poll(Tree):
    """a poll of one directory"""
    config = Tree.config + ('DirWatcherGeneric::Recursive', 'DirWatcherGeneric::Parent')
    drop_param = True

    def stray(self, eng, st, ev):
        own = [eng.truth(st, mk_eq(mk('param', i, q['name']), NULL)) for i, q in enumerate(self.fn.params) if is_bool(q['t'])]
        if not any(v is False for v in own):
            Tree.stray(self, eng, st, ev)

    def difference(self, eng, st, l, elem, done, at, how):
        what = l[4:] if l.startswith('Dirs') else l[5:]
        self.report(eng, st, l, elem, done, ACTION[what], at, how)
        names = self.names(elem, l)
        sets = [d for d in done if d[0] == 'set']
        gone = [d for d in done if d[0] == 'erase']
        dels = [d for d in done if d[0] == 'delete']
        if l == 'DirsCreated':
            P = mk_cat(mk_slash(self.dirpath(eng, st)), self.name_of(elem, l))
            self.eligible(eng, st, l, elem, P, names, done, at, how, ONE, False)
            if dels or gone:
                self.bad('tree:' + l, 'a directory is taken out of the tree at %s for an entry of %s' % ((dels or gone)[0][2], l), st)
        elif l == 'DirsDeleted':
            h = self.has_child(eng, st, names)
            if h is False or self.no_child(eng, st):
                return
            d = [x for x in dels if self.is_child(x[1], names)]
            if dels and not d and plain(dels[0][1]):
                self.bad('tree:' + l, 'the directory deleted at %s is %s, not the one that is gone' % (dels[0][2], show(dels[0][1])[:100]), st)
            elif not dels:
                self.bad('stays', 'a directory that is gone stays in the tree ( %s ): what was in it is not reported as deleted: %s' % (at, how), st)
            else:
                i = done.index(dels[0])
                fl = [x for x in done[:i] if x[0] == 'flag' and self.is_child(x[1], names) and self.yes(eng, st, x[2]) is True]
                if not fl:
                    self.bad('contents', 'a directory that is gone is deleted at %s without the mark that makes it report its contents as deleted: %s' % (dels[0][2], how), st)
                if not any(any(x[1] is y for y in names) for x in gone) and not any(x[0] == 'clear' for x in done):
                    self.bad('c05:dangling', 'a directory deleted at %s stays in the tree: %s' % (dels[0][2], how), st)
        elif l == 'DirsMoved':
            olds = self.olds(elem)
            h = self.has_child(eng, st, olds)
            if h is False:
                return
            if dels:
                self.bad('tree:' + l, 'a directory that was renamed is deleted at %s: %s' % (dels[0][2], how), st)
                return
            s = [x for x in sets if any(x[1] is y for y in names)]
            if not any(any(x[1] is y for y in olds) for x in gone):
                self.bad('moved:old', 'a directory that was renamed stays in the tree under its old name ( %s ): %s' % (at, how), st)
            if not s and self.has_child(eng, st, names):
                pass
            elif not s:
                self.bad('moved:new', 'a directory that was renamed is not entered into the tree under its new name ( %s ): it is not polled any more: %s' % (at, how), st)
            elif s[-1][2] is not None and not self.is_child(s[-1][2], olds) and plain(s[-1][2]):
                self.bad('moved:new', 'the tree gets %s at %s instead of the directory that was renamed' % (show(s[-1][2])[:100], s[-1][3]), st)
            rs = [x for x in done if x[0] == 'resetDirectory']
            if not rs:
                self.bad('moved:path', 'a directory that was renamed keeps its old path ( %s ): it looks deleted from then on: %s' % (at, how), st)
            else:
                v = eng.resolve(st, rs[-1][2][0]) if rs[-1][2] else None
                full = mk_slash(mk_cat(mk_slash(self.dirpath(eng, st)), self.name_of(elem, l)))
                if v is not None and not any(v is y or mk_slash(v) is full for y in names) and plain(v):
                    self.bad('moved:path', 'a directory that was renamed gets the path %s instead of %s at %s' % (show(v)[:100], show(self.name_of(elem, l)), rs[-1][3]), st)
                # the new path is that of its place: who asks must be the child
                if not self.is_child(rs[-1][1], olds) and not self.is_child(rs[-1][1], names) and plain(rs[-1][1]):
                    self.bad('moved:path', 'the new path at %s goes to %s, not to the directory that was renamed' % (rs[-1][3], show(rs[-1][1])[:100]), st)
        elif sets or gone or dels:
            self.bad('tree:' + l, 'the tree is changed at %s for an entry of %s: %s' % ((sets or gone or dels)[0][-1], l, how), st)

    def child(self, eng, st, elem, done, at, how):
        if self.silent(eng, st):
            return
        if not any(d[0] == 'watch' and d[1] is mk_proj(elem, 'second') for d in done) and \
                not any(d[0] == 'watch' and not plain(d[1]) and d[1].op not in ('elem', 'proj', 'init') for d in done):
            self.bad('unpolled', 'a directory of the tree is passed over by the poll at %s: %s' % (at, how), st)

    def end(self, eng, st, ev):
        self.n['ends'] += 1
        fl = st.mon[2]
        at, how = ev.where(), st.path(8)
        if 'scanned' not in fl:
            self.bad('scan', '%s returns at %s without having compared the directory with its snapshot: %s' % (self.fn.q, at, how), st)
        if self.silent(eng, st):
            return
        if 'scanned' in fl:
            left = [l for l in LISTS if ('over', l) not in fl]
            if left and 'foreign' not in fl:
                self.bad('unreported', '%s returns at %s without having gone through %s: %s' % (self.fn.q, at, ', '.join(left), how), st)
        if ('over', 'children') not in fl:
            self.bad('unpolled', '%s returns at %s without having polled every directory of the tree: %s' % (self.fn.q, at, how), st)


class Children(Tree):
    """the directories found when a directory enters the tree"""

    def __init__(self, *a):
        Tree.__init__(self, *a)
        b = [i for i, q in enumerate(self.fn.params) if is_bool(q['t'])]
        self.rep = mk('param', b[0], self.fn.params[b[0]]['name']) if len(b) == 1 else None

    def entry(self, eng, st, elem, done, at, how):
        fi = mk_proj(elem, 'second')
        d = eng.truth(st, mk('isdir', fi))
        rep = self.yes(eng, st, self.rep) if self.rep is not None else None
        cbs = [x for x in done if x[0] == 'cb']
        if cbs:
            if rep is not True:
                self.bad('asked', 'a directory that is no news may be reported at %s: %s' % (cbs[0][4], how), st)
            if d is not True:
                self.bad('kind', 'an entry that may be no directory is reported at %s: the files are reported already: %s' % (cbs[0][4], how), st)
            self.report(eng, st, 'entries', elem, done, ADD, at, how)
        elif rep is not False and d is not False and self.yes(eng, st, self.val(eng, st, 'Recursive')) is not False:
            self.report(eng, st, 'entries', elem, done, ADD, at, how)
        self.eligible(eng, st, 'entries', elem, mk_proj(fi, self.qpath), self.names(elem, 'entries'), done, at, how, self.rep or ONE, True)
        if any(x[0] in ('erase', 'delete', 'clear') for x in done):
            self.bad('tree', 'a directory is taken out of the tree while it is built, near %s: %s' % (at, how), st)

    def end(self, eng, st, ev):
        self.n['ends'] += 1
        if self.yes(eng, st, self.val(eng, st, 'Recursive')) is False:
            return
        if ('over', 'entries') not in st.mon[2]:
            self.bad('c10:entries', '%s returns at %s without having looked at every entry of the directory: %s' % (self.fn.q, ev.where(), st.path(8)), st)


class Construct(Tree):
    """a directory enters the tree"""

    def __init__(self, *a):
        Tree.__init__(self, *a)
        P = self.fn.params
        b = [i for i, q in enumerate(P) if is_bool(q['t'])]
        if len(b) != 2:
            raise AnalysisError('%s: parameters not recognised' % self.fn.q)
        t = lambda i: mk('param', i, P[i]['name'])
        self.rep = t(b[1])
        self.given = {'Recursive': t(b[0]), 'Parent': t(param(self.fn, is_ptr_to('DirWatcherGeneric'))),
                      'Watch': t(next(i for i, q in enumerate(P) if q['t'].get('s', '').replace('efsw::', '').startswith('WatcherGeneric'))), 'Deleted': NULL}
        self.dir = t(param(self.fn, is_string))

    def difference(self, eng, st, l, elem, done, at, how):
        rep = self.yes(eng, st, self.rep)
        if l == 'FilesCreated':
            if rep is not False and (rep or any(d[0] == 'cb' for d in done)):
                self.report(eng, st, l, elem, done, ADD, at, how)
            if rep is not True and any(d[0] == 'cb' for d in done):
                self.bad('asked', 'a file that is no news may be reported at %s: %s' % (at, how), st)
        elif any(d[0] == 'cb' for d in done) and l != 'DirsCreated':
            self.bad('stray', 'an entry of %s is reported at %s by a directory that is new: %s' % (l, at, how), st)

    def event(self, eng, st, ev):
        if ev.kind == 'rcall' and ev.name == self.scan_q and not any(d[0] == 'resetDirectory' for d in st.mon[1]) and 'path' not in st.mon[2]:
            self.bad('order', '%s compares the directory at %s before it has its path: %s' % (self.fn.q, ev.where(), st.path(8)), st)
        Tree.event(self, eng, st, ev)
        if ev.kind == 'rcall' and ev.name.endswith('::resetDirectory'):
            self.same('path', eng, st, ev.args[0], self.dir, '%s is given the path %%s instead of %%s' % self.fn.q)
            cur, done, fl = st.mon
            st.mon = (cur, done, fl | {'path'})

    def end(self, eng, st, ev):
        self.n['ends'] += 1
        fl = st.mon[2]
        how = st.path(8)
        if 'scanned' not in fl:
            self.bad('scan', '%s leaves the snapshot of a new directory empty: everything in it is reported by the next poll: %s' % (self.fn.q, how), st)
        if 'path' not in fl and self.dirpath(eng, st).op in ('init', 'def', 'undef'):
            self.bad('path', '%s does not set the path of the directory: %s' % (self.fn.q, how), st)
        if self.yes(eng, st, self.rep) is not False and not self.silent(eng, st) and ('over', 'FilesCreated') not in fl and 'foreign' not in fl:
            self.bad('files', '%s does not report every file of a new directory: %s' % (self.fn.q, how), st)
        for n, x in self.given.items():
            v = eng.resolve(st, self.val(eng, st, n))
            if v is x or unbool(v) is unbool(x) or eng.truth(st, mk_eq(v, x)) is True:
                continue
            a, b = self.yes(eng, st, v), self.yes(eng, st, x)
            if a is not None and a is b and n not in ('Parent', 'Watch'):
                continue
            if plain(v):
                self.bad('field:' + n, '%s sets %s to %s instead of %s' % (self.fn.q, n, show(v)[:80], show(x)), st)


class Destruct(Tree):
    """a directory leaves the tree"""

    def difference(self, eng, st, l, elem, done, at, how):
        if l in ('FilesDeleted', 'DirsDeleted'):
            if any(d[0] == 'cb' for d in done) or self.gone(st) is not False:
                self.report(eng, st, l, elem, done, DELETE, at, how)
            if self.deleted(eng, st) is not True and any(d[0] == 'cb' for d in done):
                self.bad('undeleted', 'the contents of a directory that was not deleted are reported as deleted at %s: %s' % (at, how), st)
        elif any(d[0] == 'cb' for d in done) and not self.silent(eng, st):
            self.bad('stray', 'an entry of %s is reported at %s by a directory that is gone: %s' % (l, at, how), st)

    def deleted(self, eng, st):
        return self.yes(eng, st, self.val(eng, st, 'Deleted'))

    def gone(self, st):
        """was the directory found to be gone? False: it is there and a directory"""
        r, d = None, None
        for f, v in st.facts.items():
            if f.op == 'exists':
                r = v
            elif f.op == 'isdir':
                d = v
        return False if r and d else None

    def event(self, eng, st, ev):
        Tree.event(self, eng, st, ev)
        cur, done, fl = st.mon
        if ev.kind == 'delete' and isinstance(ev.obj, T) and ev.obj is not NULL and DIR.split('::')[-1] in ev.name:
            key = self.child_key(ev.obj)
            if key is None:
                return
            self.n['children'] += 1
            own = self.deleted(eng, st)
            o = ev.obj
            v = self.yes(eng, st, eng.value(st, mk_fld(mk_obj(o), self.qdel)))
            set_ = [d for d in done if d[0] == 'flag' and d[1] is o]
            if own is not False and not (set_ and self.yes(eng, st, set_[-1][2]) is True):
                if not (set_ and eng.resolve(st, set_[-1][2]) is self.val(eng, st, 'Deleted')):
                    self.bad('contents', 'a directory below one that is gone is deleted at %s without the mark that makes it report its contents: %s' % (ev.where(), st.path(8)), st)
            if own is False and set_ and self.yes(eng, st, set_[-1][2]) is True:
                self.bad('undeleted', 'a directory below one that was not deleted is marked as deleted at %s: %s' % (ev.where(), st.path(8)), st)
            self.round_over(eng, st)
        elif ev.kind == 'mut' and ev.obj is self.dirs:
            self.round_over(eng, st)

    def round_over(self, eng, st):
        """a loop that empties the tree"""
        cur, done, fl = st.mon
        if cur is not None:
            return
        gone = [e for e in done if e[0] == 'erase']
        if len(gone) > 1 and not any(d[0] == 'delete' for d in done) and not self.no_child(eng, st):
            self.bad('leak', 'a directory is taken out of the tree at %s and not deleted: %s' % (gone[0][2], st.path(8)), st)
        if any(d[0] == 'delete' and any(e[1] is self.child_key(d[1]) for e in gone) for d in done) or len(gone) > 1:
            self.widen(st)
            for k in list(st.store):
                if k.op == 'v' and self.child_key(st.store[k]) is not None:
                    st.store[k] = mk('big', 'any', k.id)
            st.facts = {f: v for f, v in st.facts.items() if not any(self.source(x) == 'children' for x in subterms(f) if x.op in ('del', 'hv', 'init'))}
            st.mon = (None, (), fl - {('over', 'children')})

    def child(self, eng, st, elem, done, at, how):
        if not any(d[0] == 'delete' and d[1] is mk_proj(elem, 'second') for d in done):
            self.bad('leak', 'a directory of the tree is passed over at %s when its parent is deleted: %s' % (at, how), st)

    def dangling(self, eng, st, ev, what):
        if ev.kind != 'ret':
            Tree.dangling(self, eng, st, ev, what)

    def end(self, eng, st, ev):
        self.n['ends'] += 1
        fl = st.mon[2]
        at, how = ev.where(), st.path(8)
        if ('over', 'children') not in fl:
            self.bad('leak', '%s ends at %s without having deleted every directory below: %s' % (self.fn.q, at, how), st)
        if self.deleted(eng, st) is not False and not self.silent(eng, st):
            if self.deleted(eng, st) is None:
                self.note('%s: mark not tested' % self.fn.q)
                return
            if 'scanned' in fl and self.gone(st) is False:
                return
            left = [l for l in ('FilesDeleted', 'DirsDeleted') if ('over', l) not in fl]
            if left and 'foreign' not in fl:
                self.bad('contents', '%s ends at %s without having reported the contents of a directory that is gone ( %s ): %s' % (self.fn.q, at, ', '.join(left), how), st)


class Reset(Tree):
    """a directory gets its path"""

    def __init__(self, *a):
        Tree.__init__(self, *a)
        self.dir = mk('param', param(self.fn, is_string), self.fn.params[param(self.fn, is_string)]['name'])

    def child(self, eng, st, elem, done, at, how):
        c = mk_proj(elem, 'second')
        rs = [d for d in done if d[0] == 'resetDirectory']
        if not rs:
            if not any(any(x is c for x in subterms(f)) for f in st.facts):
                self.bad('below', 'a directory below one that was renamed keeps its old path ( %s ): %s' % (at, how), st)
        elif rs[-1][1] is c:
            v = eng.resolve(st, rs[-1][2][0])
            if v is not mk_proj(elem, 'first') and v is not mk_fname(mk_proj(elem, 'first')) and plain(v):
                self.bad('below', 'a directory below one that was renamed gets the name %s instead of %s at %s' % (show(v)[:80], show(mk_proj(elem, 'first')), rs[-1][3]), st)

    def end(self, eng, st, ev):
        self.n['ends'] += 1
        how = st.path(8)
        at = ev.where()
        if ('over', 'children') not in st.mon[2]:
            self.bad('below', '%s returns at %s without having given their paths to the directories below: %s' % (self.fn.q, at, how), st)
        v = eng.value(st, mk_fld(self.L['DirSnap'], self.snapinfo))
        if eng.truth(st, mk_eq(self.dir, EMPTY)) is True:
            return
        if v.op != 'fi':
            if v.op in ('init', 'hv'):
                self.bad('path', '%s returns at %s without having set the path: %s' % (self.fn.q, at, how), st)
            return
        par = self.val(eng, st, 'Parent')
        root = eng.truth(st, mk_eq(par, NULL))
        full = None
        if root is not True:
            pd = eng.value(st, mk_fld(mk_fld(mk_fld(mk_obj(par), F(self.p, DIR, 'DirSnap')), self.snapinfo), self.qpath))
            full = mk_slash(mk_cat(mk_slash(pd), self.dir))
            if mk_slash(v.a[0]) is mk_slash(mk_cat(mk_slash(pd), mk_slash(self.dir))):
                return
        x = mk_slash(v.a[0])
        W = self.wfield(eng, st, 'Directory')
        isroot = eng.truth(st, mk_eq(W, self.dir))
        if x is mk_slash(self.dir):
            # fine for a path; a bare name needs its parent
            if root is False and isroot is False and not self.looked(st):
                self.bad('path', '%s takes the name %s for a path at %s: %s' % (self.fn.q, show(self.dir), at, how), st)
        elif full is not None and x is full:
            pass
        elif plain(x):
            self.bad('path', '%s sets the path to %s instead of %s at %s: %s' % (self.fn.q, show(x)[:120], show(full if full is not None else self.dir)[:120], at, how), st)

    def looked(self, st):
        """was the argument looked at to find out whether it is a path?"""
        return any(contains(f, self.dir) and v and f.op == 'eq' and not any(y.op == 'init' for y in f.a) for f, v in st.facts.items())


def explore(p, r, cls, fn, keys=None, noin=NOIN, setup=None, limit=60000):
    """runs one of the monitors over its function; the findings are kept by key"""
    cache = p.__dict__.setdefault('_tree', {})
    if fn.usr not in cache:
        out, notes = {}, []
        m = cls(p, fn, lambda k, t: out.setdefault(k, t), notes.append)
        m.scan_q = scanner(p).q
        eng = Engine(p, m, backend=GEN, anchors=anchors(p), noinline=[x for x in noin], limit=limit)
        for st, _ in eng.enter(fn):
            m.finish(eng, st)
        cache[fn.usr] = (out, notes, m, eng)
    out, notes, m, eng = cache[fn.usr]
    for k, t in out.items():
        if keys is None and not (k[0] == 'c' and k[1:3].isdigit() and k[:3] not in ('c05', 'c10')) or keys is not None and any(k.startswith(x) for x in keys):
            r.bad('%s:%s' % (cls.__name__.lower(), k), t)
    for t in notes:
        r.note(t)
    return m


def tree_part(p, r, keys, which=('watch', 'addChildren')):
    n = 0
    for name in which:
        cls = {'watch': Poll, 'addChildren': Children}.get(name)
        if name == 'dtor':
            m = explore(p, r, Destruct, destructor(p, DIR), keys)
        elif name == 'ctor':
            m = explore(p, r, Construct, constructor(p, DIR), keys)
        else:
            m = explore(p, r, cls, method(p, DIR, name), keys)
        for k, v in m.n.items():
            n += v
            r.counts['tree_%s_%s' % (name, k)] = v
    r.obligations += n
    return n


# ------------------------------------------------------------------------------------------ one watch, one round
class Forward(Monitor):
    """a poll of a watch polls the directory it watches"""
    init = 0

    def __init__(self, name, field):
        self.name, self.field = name, field

    def event(self, eng, st, ev):
        if ev.kind in ('rcall', 'call') and ev.name == self.name and isinstance(ev.obj, T) and ev.obj.op == 'init' and ev.obj.a[0] is self.field:
            st.mon += 1


def c16_watch(p, r):
    f = method(p, WATCH, 'watch')
    m = Forward(DIR + '::watch', mk_fld(mk_obj(THIS), F(p, WATCH, 'DirWatch')))
    eng = Engine(p, m, backend=GEN, anchors=anchors(p))
    for st, _ in eng.enter(f):
        r.ok()
        if st.mon == 0 and eng.truth(st, mk_eq(mk('init', m.field), NULL)) is not True:
            r.bad('watch:none', '%s does not poll the directory of the watch: %s' % (f.q, st.path(6)))
        elif st.mon > 1:
            r.bad('watch:twice', '%s polls the directory of the watch %d times: %s' % (f.q, st.mon, st.path(6)))


class Round(Monitor):
    """mon = ( current watch, polled, every watch was looked at, the list was taken since the lock was ) """
    init = (None, False, False)

    def __init__(self, p, bad):
        self.p, self.bad = p, bad
        self.mWatches = mk_fld(mk_obj(THIS), F(p, GEN, 'mWatches'))
        self.listener = F(p, 'efsw::Watcher', 'Listener')
        self.n = {'watches': 0, 'rounds': 0}

    def src(self, V):
        return vroot(V, self.mWatches)

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        if not val and any(x.op == 'fld' and x.a[1].endswith('::mInitOK') for x in subterms(atom)):
            st.mon = st.mon[:2] + (True,)                # the watcher is going away
        if atom.op == 'atend' and self.src(atom.a[1]):
            cur, done, over = st.mon
            st.mon = (None, False, True) if val else (mk_elem(atom.a[1], atom.a[0]), False, over)
        elif atom.op == 'vempty' and val and self.src(atom.a[0]):
            st.mon = st.mon[:2] + (True,)

    def event(self, eng, st, ev):
        cur, done, over = st.mon
        k = ev.kind
        if k in ('rcall', 'call') and ev.name == WATCH + '::watch':
            self.n['watches'] += 1
            st.mon = (cur, True if ev.obj is cur else done, over)
        elif k == 'step' and ev.args and isinstance(ev.args[0], T) and ev.args[0].op == 'it' and cur is not None and ev.args[0].a[2] is cur.a[1]:
            if not done:
                loc = mk_fld(mk_obj(cur), self.listener)
                if eng.truth(st, mk_eq(st.store.get(loc, mk('init', loc)), NULL)) is not True:
                    self.bad('round:skipped', 'the worker passes over a watch at %s that was not removed: %s' % (ev.where(), st.path(8)))
            st.mon = (None, False, over)
        elif k in ('rcall', 'call') and ev.name.split('::')[-1] == 'sleep':
            self.finish(eng, st, ev.where())
            st.mon = (cur, done, False)

    def finish(self, eng, st, at):
        self.n['rounds'] += 1
        if not st.mon[2]:
            self.bad('round:early', 'a round of the worker ends at %s without every watch having been polled: %s' % (at, st.path(8)))


def c16_round(p, r):
    from .r_life import run_worker
    m = Round(p, lambda k, t: r.bad(k, t))
    run_worker(p, GEN, m)
    r.need('watches_polled', m.n['watches'], 1)
    r.need('rounds', m.n['rounds'], 1)
    r.obligations += m.n['watches'] + m.n['rounds']


@rule('C16', 'the function that polls a directory, those that build, rename and delete a part of the tree and the worker are followed along every path, one element of each list '
      'of differences at a time: every element has to lead to one report with the action of its list, the bare name, the directory and the '
      'old name, and to the matching change of the tree ( child made and stored, marked, deleted and taken out, moved and given its new path ); no list, no child and no '
      'watch may be passed over', ['The lists of differences are right ( C15 )', 'A directory moves with everything below it'],
      'typestate over the elements of the difference lists, loop rounds summarised by widening')
def c16(p, tier):
    r = Result()
    for cls, fn, least in ((Poll, method(p, DIR, 'watch'), {'elements': 9, 'reports': 8, 'created': 2, 'left out': 4, 'children': 1, 'ends': 1}),
                           (Children, method(p, DIR, 'addChildren'), {'elements': 1, 'created': 2, 'left out': 4, 'ends': 1}),
                           (Construct, constructor(p, DIR), {'reports': 1, 'ends': 1}),
                           (Destruct, destructor(p, DIR), {'reports': 2, 'children': 1, 'ends': 2}),
                           (Reset, method(p, DIR, 'resetDirectory'), {'children': 1, 'ends': 2})):
        def one():
            m = explore(p, r, cls, fn)
            for k, v in least.items():
                r.need('%s: %s' % (fn.n, k), m.n[k], v)
            r.ok(sum(m.n.values()), '%s: %s' % (fn.q, m.n))
        r.part(one)
    r.part(c16_watch, p, r)
    r.part(c16_round, p, r)
    from .r_gen import generic_adder
    r.part(generic_adder, p, r, ('c16:', 'c10:initial'))
    leaves(p, r, 'fname', 'slash', 'noslash')
    return r
