"""C14: the tables of watches; C25: options and synthetic events."""
from .prog import AnalysisError
from .engine import *
from .ino import *
from . import r_add, r_rem
from .r_leaf import leaves
from .rules import rule, Result

GEN = 'efsw::FileWatcherGeneric'


def methods(p, cls, name):
    return [f for f in p.fns.values() if f.cls == cls and f.n == name]


class Table(object):
    """the container of the user's watches of a backend"""

    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        if cls == CLS:
            self.C = Names(p).mRealWatches
            self.watch = lambda V, ek: mk_proj(mk_elem(V, ek), 'second')
            self.W = 'efsw::WatcherInotify'
        else:
            self.C = mk_fld(mk_obj(THIS), F(p, cls, 'mWatches'))
            self.watch = lambda V, ek: mk_elem(V, ek)
            self.W = 'efsw::WatcherGeneric'
        self.dir = F(p, self.W, 'Directory')

    def directory(self, eng, st, V, ek):
        return eng.read(st, mk_fld(mk_obj(self.watch(V, ek)), self.dir))


class ListDirs(Monitor):
    """mon = pushed the directory of the current element? ; ended"""
    init = (False, False)

    def __init__(self, t, bad):
        self.t, self.bad = t, bad
        self.n = 0

    def elem_of(self, v):
        for x in subterms(v):
            if x.op == 'elem' and vroot(x.a[0], self.t.C):
                return x
        return None

    def event(self, eng, st, ev):
        if ev.kind == 'step' and ev.args[0].op == 'it' and ev.args[0].a[0] is self.t.C:
            self.n += 1
            if not st.mon[0]:
                self.bad('dirs:missed', 'directories() passes a watch over at %s: %s' % (ev.where(), st.path(8)))
            st.mon = (False, st.mon[1])
        elif ev.kind == 'mut' and ev.name in ('push', 'insert', 'set') and ev.obj is not self.t.C:
            for v in ev.args:
                if not isinstance(v, T):
                    continue
                v = eng.resolve(st, v)
                e = self.elem_of(v)
                o = next((x for x in subterms(v) if x.op == 'elem' and not vroot(x.a[0], self.t.C)), None)
                if o is not None and field_of(v) == self.t.dir and known(v):
                    self.bad('dirs:table', 'directories() lists the elements of %s instead of the watches of the user, at %s' % (show(o.a[0]), ev.where()))
                    self.n += 1
                if e is None:
                    if v.op in ('str', 'param') and known(v):
                        self.bad('dirs:other', 'directories() lists %s at %s' % (show(v), ev.where()))
                    continue
                if field_of(v) != self.t.dir and known(v):
                    self.bad('dirs:other', 'directories() lists %s instead of the directory of the watch at %s' % (show(v), ev.where()))
                if st.mon[0]:
                    self.bad('dirs:twice', 'directories() lists a watch twice at %s: %s' % (ev.where(), st.path(8)))
                st.mon = (True, st.mon[1])
        elif ev.kind == 'mut' and ev.obj is self.t.C:
            self.bad('dirs:changes', 'directories() changes the table of watches at %s' % ev.where())

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        if atom.op == 'atend' and val and vroot(atom.a[1], self.t.C) or atom.op == 'vempty' and val and vroot(atom.a[0], self.t.C):
            st.mon = (st.mon[0], True)


def directories(p, r):
    for cls in (CLS, GEN):
        t = Table(p, cls)
        for fn in methods(p, cls, 'directories'):
            m = ListDirs(t, lambda k, s: r.bad('%s:%s' % (cls, k), '%s: %s' % (cls, s)))
            eng = Engine(p, m, backend=cls)
            res = eng.enter(fn)
            r.ok(len(res))
            if not m.n:
                r.note('%s: no loop over the watches recognised' % fn.q)
                continue
            for st, _ in res:
                if not st.mon[1]:
                    r.bad(cls + ':dirs:early', '%s returns without having gone through all watches: %s' % (fn.q, st.path(8)))


class Search(Monitor):
    """mon = ( compared and found equal, went through all )"""
    init = (False, False, False)

    def __init__(self, t, arg, bad):
        self.t, self.arg, self.bad = t, arg, bad
        self.n = 0

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        if atom.op in ('atend', 'none', 'vempty') and val and any(vroot(x, self.t.C) for x in atom.a if isinstance(x, T)):
            st.mon = (st.mon[0], True, st.mon[2])
        elif atom.op == 'eq':
            a, b = atom.a
            for x, y in ((a, b), (b, a)):
                if x is self.arg:
                    e = next((z for z in subterms(y) if z.op == 'elem' and vroot(z.a[0], self.t.C)), None)
                    if e is not None:
                        self.n += 1
                        if field_of(y) != self.t.dir and known(y):
                            self.bad('path:other', 'pathInWatches compares the path with %s' % show(y))
                        st.mon = (st.mon[0] or val, st.mon[1], True)

    def event(self, eng, st, ev):
        if ev.kind == 'step' and ev.args[0].op == 'it' and ev.args[0].a[0] is self.t.C:
            if not st.mon[2]:
                self.bad('path:missed', 'pathInWatches passes a watch over at %s: %s' % (ev.where(), st.path(8)))
            st.mon = (st.mon[0], st.mon[1], False)


def path_search(p, r):
    t = Table(p, CLS)
    for fn in methods(p, CLS, 'pathInWatches'):
        arg = mk('param', 0, fn.params[0]['name'])
        m = Search(t, arg, lambda k, s: r.bad(k, '%s: %s' % (CLS, s)))
        eng = Engine(p, m, raw={fn.q})
        res = eng.enter(fn)
        r.ok(len(res))
        if not m.n:
            r.note('%s: no comparison with the watches recognised' % fn.q)
            continue
        for st, v in res:
            v = eng.truth(st, mk_eq(v, NULL)) if v is not None and v.op != 'int' else (v is NULL or v is INT(0))
            if v is False and not st.mon[0]:
                r.bad('path:false', '%s returns true although no watch with that path was found: %s' % (fn.q, st.path(8)))
            if v is True and st.mon[0]:
                r.bad('path:found', '%s returns false although a watch has that path: %s' % (fn.q, st.path(8)))
            if v is True and not st.mon[0] and not st.mon[1]:
                r.bad('path:early', '%s returns false without having compared all watches: %s' % (fn.q, st.path(8)))


class Entry(Monitor):
    init = ()

    def __init__(self, ad):
        self.q = ad.q

    def event(self, eng, st, ev):
        if ev.kind == 'rcall' and ev.name == self.q:
            st.mon = (st.mon + (('add', tuple(ev.args), ev.where()),))[-3:]


def add_entry(p, r, syn_only=False):
    """the public addWatch hands its arguments on"""
    ad = adder(p)
    R = r_add.Roles(ad)
    n = 0
    for fn in methods(p, CLS, 'addWatch'):
        if fn.usr == ad.usr or len(fn.params) < 4 or not fn.params[3]['t'].get('s', '').count('vector'):
            continue
        m = Entry(ad)
        eng = Engine(p, m, anchors={ad.q: opaque, 'efsw::FileWatcherImpl::getOptionValue': opaque}, backend=CLS)
        pr = [mk('param', i, q['name']) for i, q in enumerate(fn.params)]
        res = eng.enter(fn)
        for st, v in res:
            n += 1
            calls = [x for x in st.mon if x[0] == 'add']
            if len(calls) > 1:
                r.bad('entry:twice', '%s adds the watch more than once: %s' % (fn.q, st.path(8)))
            if not calls:
                if not stopped(st, v):
                    r.bad('entry:none', '%s returns %s without adding the watch: %s' % (fn.q, show(v) if v is not None else 'nothing', st.path(8)))
                continue
            a, at = calls[0][1], calls[0][2]
            for what, i, x in (('directory', R.idir, pr[0]), ('listener', R.ilis, pr[1]), ('recursive flag', R.irec, pr[2])):
                y = eng.resolve(st, a[i])
                ok = y is x or what == 'directory' and mk_slash(y) is mk_slash(x) or what.endswith('flag') and \
                    eng.truth(st, mk_eq(y, NULL)) is not None and eng.truth(st, mk_eq(y, NULL)) == eng.truth(st, mk_eq(x, NULL))
                if not ok and known(y) and not syn_only:
                    r.bad('entry:' + what, '%s adds the watch with the %s %s instead of the one given, at %s' % (fn.q, what, show(y), at))
            y = eng.resolve(st, a[R.ipar])
            if known(y) and y is not NULL and not (isint(y) and y.a[0] == 0) and not syn_only:
                r.bad('entry:parent', '%s gives the new watch a parent at %s' % (fn.q, at))
            if v is not None and not syn_only and v.op != 'ret' and known(v) and not any(s.op == 'ret' for s in subterms(v)):
                r.bad('entry:result', '%s returns %s instead of the result of the addition: %s' % (fn.q, show(v), st.path(8)))
            if R.isyn is not None:
                y = eng.resolve(st, a[R.isyn])
                check_syn(r, eng, st, y, pr[3], fn, at)
            if R.iint is not None:
                y = eng.resolve(st, a[R.iint])
                if known(y) and eng.truth(st, mk_eq(y, NULL)) is not True:
                    r.bad('entry:internal', '%s marks a watch of the user as having appeared, its existing entries would be reported, at %s' % (fn.q, at))
    return n


def check_syn(r, eng, st, y, opts, fn, at):
    """the flag is option LinuxProduceSyntheticEvents, default 0, tested against 0"""
    u = unbool(y)
    if u.op == 'eq' and any(z.op == 'ret' for z in u.a) and any(isint(z) and z.a[0] != 0 for z in u.a):
        r.bad('c25:entry', '%s takes only one value of the option for synthetic events as on, at %s: %s' % (fn.q, at, show(u)))
    if isint(y) or y is NULL:
        # constant on this path: it must agree with a fact on the option value
        for t, v in list(st.facts.items()):
            if t.op == 'eq' and any(s.op == 'ret' and 'getOptionValue' in str(s.a[0]) for s in subterms(t)):
                z = [x for x in t.a if isint(x) or x is NULL]
                if z and (z[0] is NULL or z[0].a[0] == 0):
                    if v == (isint(y) and y.a[0] != 0):
                        r.bad('c25:entry', '%s inverts the option for synthetic events at %s: %s' % (fn.q, at, st.path(8)))
                    return
        if isint(y):
            r.bad('c25:entry', '%s ignores the option for synthetic events and hands on %s at %s' % (fn.q, y.a[0], at))


def stopped(st, v):
    return 'mInitOK' in st.path(40)


class Opt(Monitor):
    """calls of getOptionValue made by the public addWatch"""
    init = ()

    def __init__(self):
        self.calls = []

    def event(self, eng, st, ev):
        if ev.kind == 'rcall' and ev.name.endswith('::getOptionValue'):
            self.calls.append((tuple(ev.args), ev.where()))


def option_calls(p, r):
    val = {}
    for n in p.enums.get('efsw::Options::Option', {}).get('consts', ()):
        val[n['n']] = n['v']
    n = 0
    ad = adder(p)
    for cls in (CLS,):
        for fn in methods(p, cls, 'addWatch'):
            if fn.usr == ad.usr:
                continue
            m = Opt()
            Engine(p, m, anchors={ad.q: opaque, 'efsw::FileWatcherImpl::getOptionValue': opaque}, backend=cls).enter(fn)
            opts = [i for i, q in enumerate(fn.params) if 'vector' in q['t'].get('s', '')]
            for a, at in m.calls:
                n += 1
                if opts and not any(x.op in ('param', 'P') and x.a[0] == opts[0] for x in [a[0]] + list(subterms(a[0]))) and known(a[0]):
                    r.bad('opt:list', 'the option is looked up in %s instead of the options given, at %s' % (show(a[0]), at))
                if isint(a[1]) and a[1].a[0] != val.get('LinuxProduceSyntheticEvents', a[1].a[0]):
                    r.bad('opt:which', 'synthetic events are made to depend on option %s, at %s' % (a[1].a[0], at))
                if isint(a[2]) and a[2].a[0] != 0:
                    r.bad('opt:default', 'synthetic events are on by default, at %s' % at)
    return n


class GenRem(Monitor):
    """polling backend, removal: mon = ( element found, erased, went through all )"""
    init = (None, False, False)

    def __init__(self, t, fn, bad):
        self.t, self.bad, self.fn = t, bad, fn
        self.bypath = is_string(fn.params[0]['t'])
        self.arg = mk('param', 0, fn.params[0]['name'])
        self.id = F(t.p, t.W, 'ID')
        self.n = 0

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        if atom.op in ('atend', 'vempty', 'none') and val and any(vroot(x, self.t.C) for x in atom.a if isinstance(x, T)):
            st.mon = (st.mon[0], st.mon[1], True)
        if atom.op != 'eq':
            return
        for x, y in (atom.a, atom.a[::-1]):
            e = next((z for z in subterms(y) if z.op == 'elem' and vroot(z.a[0], self.t.C)), None)
            if e is None or not any(z is self.arg for z in subterms(x)):
                continue
            self.n += 1
            if field_of(y) != (self.t.dir if self.bypath else self.id) and known(y):
                self.bad('rem:key', '%s compares the argument with %s' % (self.fn.q, show(y)))
            wx = mk_slash(self.arg) if self.bypath else self.arg
            if x is not wx and known(x):
                self.bad('rem:arg', '%s looks for %s instead of %s' % (self.fn.q, show(x), show(wx)))
            if val:
                st.mon = (e.a[1], st.mon[1], st.mon[2])

    def event(self, eng, st, ev):
        if ev.kind == 'mut' and ev.obj is self.t.C:
            if ev.name not in ('erase', 'erase_if', 'remove'):
                self.bad('rem:mut', '%s changes the table of watches by %s at %s' % (self.fn.q, ev.name, ev.where()))
            elif ev.name == 'erase':
                k = ev.args[0] if ev.args else None
                if st.mon[0] is None or isinstance(k, T) and k.op == 'ek' and k is not st.mon[0]:
                    self.bad('rem:wrong', '%s removes a watch that was not found to be the one asked for, at %s: %s' % (self.fn.q, ev.where(), st.path(8)))
                st.mon = (st.mon[0], True, st.mon[2])


def generic_removal(p, r):
    t = Table(p, GEN)
    n = 0
    for fn in methods(p, GEN, 'removeWatch'):
        m = GenRem(t, fn, r.bad)
        eng = Engine(p, m, backend=GEN, noinline=('efsw::DirWatcherGeneric',), limit=60000)
        res = eng.enter(fn)
        n += len(res)
        if not m.n:
            r.note('%s: no comparison with the watches recognised' % fn.q)
            continue
        for st, _ in res:
            found, erased, over = st.mon
            if found is not None and not erased:
                r.bad('rem:left', '%s leaves the watch it found in the table: %s' % (fn.q, st.path(8)))
            if found is None and not over:
                r.bad('rem:early', '%s gives up before all watches were compared: %s' % (fn.q, st.path(8)))
    r.obligations += n
    return n


def generic_ids(p, r):
    """the id of a new watch comes from a counter of the backend that only ever goes up"""
    n = 0
    counters = set()
    for fn in methods(p, GEN, 'addWatch'):
        eng = Engine(p, Monitor(), backend=GEN, limit=60000, noinline=(
            'efsw::DirWatcherGeneric', GEN + '::pathInWatches', 'efsw::FileWatcherImpl::linkAllowed'))
        for st, ret in eng.enter(fn):
            n += 1
            if ret is None or isint(ret) or ret is NULL:
                continue
            ret = eng.resolve(st, ret)
            x = ret
            while x.op in ('cast', 'icast'):
                x = x.a[0]
            if x.op == 'bin' and x.a[0] == '+' and any(isint(y) and y.a[0] > 0 for y in x.a[1:]):
                x = next((y for y in x.a[1:] if not isint(y)), x)
                if x.op == 'init':
                    x = mk('inc', x.a[0], NULL)
            if x.op == 'inc':
                c = counter_field(p, x.a[0])
                if c is not None:
                    counters.add(c)
                    continue
            if any(y.op in ('vsize', 'size') and any(vroot(y.a[0], C) for C in [mk_fld(mk_obj(THIS), F(p, GEN, 'mWatches'))]) for y in subterms(ret)):
                r.bad('id:count', '%s: the id of a new watch is computed from the number of watches, and so can be the id of another watch after a removal: %s' % (fn.q, show(ret)[:120]))
            elif counter_field(p, x) is not None or x.op == 'init' and counter_field(p, x.a[0]) is not None:
                r.bad('id:same', '%s: the id of a new watch is the current value of %s, which is not advanced: %s' % (fn.q, show(x)[:80], st.path(8)))
            elif not (x.op == 'ret' or x.op == 'param'):
                r.note('%s: where the id comes from is not understood: %s' % (fn.q, show(ret)[:100]))
    for c in counters:
        for fn in p.fns.values():
            for i, x in fn.nodes.items():
                tgt = x.get('l') if x['k'] == 'assign' else x.get('e', x.get('sub')) if x['k'] == 'un' and x.get('op') in ('++', '--') else None
                m = fn.nodes.get(tgt) if tgt is not None else None
                if m is None or m['k'] != 'mem' or m.get('f') != c:
                    continue
                n += 1
                op = x.get('op')
                if op in ('++', '+='):
                    continue
                own = fn.isdtor or fn.n == 'addWatch' or getattr(fn, 'isctor', False)
                if op == '=':
                    src, todo = [], [x['r']]
                    while todo:
                        k = todo.pop()
                        y = fn.nodes.get(k)
                        if y is None:
                            continue
                        src.append(y)
                        todo += [z for f in ('l', 'r', 'e', 'sub') for z in [y.get(f)] if isinstance(z, int)]
                    if any(y['k'] == 'mem' and y.get('f') == c for y in src):
                        continue
                if own:
                    continue
                r.bad('id:back', '%s sets the counter of the ids, %s, back at %s:%s: an id can be given to two watches' % (fn.q, c.rsplit('::', 1)[-1], fn.file, x.get('line', 0)))
    r.need('generic_ids', n, 3)
    r.counts['id_counters'] = len(counters)


def counter_field(p, loc):
    if loc.op == 'fld' and loc.a[1].startswith(GEN + '::'):
        return loc.a[1]
    return None


@rule('C14', 'Path-sensitive dataflow over every function that touches the tables of watches. Adding enters the watch under its id, its path and, for a watch of the user, in the '
      'list of user watches, each with the same watch; removal takes it out of each of them on every path; removeWatch by path looks up the '
      'path with its trailing separator and removes the id registered for it, and an unknown argument changes nothing; directories() of both backends goes '
      'through all watches of the user and lists exactly the directory of each once; the repeated-path test compares with every watch of the user. '
      'The id of a watch of the polling backend comes from a counter that was advanced and is set back nowhere. '
      'The contracts of the functions that add and remove the trailing separator are checked on their own bodies.',
      [], 'path-sensitive dataflow (agreement of the tables)')
def c14(p, tier):
    r = Result()
    r.part(r_add.report, p, r, ('c14:', 'field:Directory', 'field:InotifyID', 'field:ID', 'path'))

    def removal():
        out, n, fn = r_rem.analyse_removal(p)
        for k, t in out.items():
            if k in ('ref', 'real', 'absent', 'nothing', 'left:watches', 'left:ref', 'left:real'):
                r.bad('remove:' + k, t)
        r.obligations += sum(n.values())
        r.counts.update({'removal_' + k: v for k, v in n.items()})
        locks, na = r_rem.api_removal(p, lambda k, t: r.bad('api:' + k, t) if k in ('slash', 'path', 'id', 'none') else None)
        r.obligations += na
        r.need('removals_by_api', len(locks), 1)
    r.part(removal)
    r.part(directories, p, r)
    r.part(path_search, p, r)
    r.part(generic_removal, p, r)
    r.part(generic_ids, p, r)
    r2 = Result()
    r.part(add_entry, p, r2)
    for k, t in r2.findings:
        if not k.startswith('c25') and k != 'entry:internal':
            r.bad(k, t)
    r.notes += r2.notes
    leaves(p, r, 'slash', 'noslash')
    return r


@rule('C25', 'Path-sensitive dataflow. The option lookup returns the value of the first matching entry and the default only after the whole list was compared; the public addWatch '
      'looks up the option for synthetic events in the list given, default 0, and hands the result on; an Add is made up only where the '
      'synthetic flag is set and the directory appeared below a watched one, once for every file, directory and link listed, with the id, directory and listener '
      'of the new watch and the bare name; subdirectory watches get the flag of their parent.', [],
      'path-sensitive dataflow (option flow and guard obligations)')
def c25(p, tier):
    r = Result()
    r.part(r_add.report, p, r, ('c25:', 'field:syntheticEvents', 'c10:arg:synthetic', 'c10:arg:internal'))
    r2 = Result()
    n = r.part(r_add.appear, p, r2) or 0
    for k, t in r2.findings:
        if 'synthetic' in k or 'internal' in k:
            r.bad(k, t)
    r2 = Result()
    m = r.part(add_entry, p, r2, True) or 0
    for k, t in r2.findings:
        if k.startswith('c25') or k == 'entry:internal':
            r.bad(k, t)
    r.need('option_lookups', r.part(option_calls, p, r) or 0, 1)
    r.obligations += n + m
    leaves(p, r, 'option', 'fname')
    return r
