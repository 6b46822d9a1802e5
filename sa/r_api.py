"""C17: the C interface; C18: the life of the C callbacks; C19: the last error; C24: the front of the watcher."""
from .prog import AnalysisError
from .engine import *
from .ino import *
from . import r_add
from .r_life import thread_field, SLEEPS
from .rules import rule, Result

FW = 'efsw::FileWatcher'
IMPL = 'efsw::FileWatcherImpl'
GEN = 'efsw::FileWatcherGeneric'
LISTENER = 'efsw::FileWatchListener'
LOG = 'efsw::Errors::Log'


def fn_named(p, n):
    out = [f for f in p.fns.values() if f.q == n or f.q.split('::')[-1] == n and not f.cls and n.startswith('efsw_')]
    if len(out) != 1:
        raise AnalysisError('expected one function %s, found %d' % (n, len(out)))
    return out[0]


def whole(p, *classes):
    """the classes and all their methods"""
    return tuple(classes) + tuple(sorted({f.q for f in p.fns.values() if f.cls in classes}))


def P(fn, i):
    return mk('param', i, fn.params[i]['name'])


def absent(eng, st, fn):
    """a path on which some pointer the caller passed is NULL"""
    return any('*' in q['t'].get('s', '') and eng.truth(st, mk_eq(P(fn, i), NULL)) is True for i, q in enumerate(fn.params))


def flag_ok(eng, st, a, x):
    """is the truth value a that of the number x?  True / False / None"""
    a = eng.resolve(st, a)
    if unbool(a) is x or a is x:
        return True
    zero = eng.truth(st, mk_eq(x, NULL))
    if isint(a) or a is NULL:
        v = not (a is NULL or a.a[0] == 0)
        if zero is not None:
            return v is (not zero)
        return False
    av = eng.truth(st, mk_eq(a, NULL))
    if av is not None and zero is not None:
        return av is zero
    if known(a) and not contains(a, x):
        return False
    return None


class Calls(Monitor):
    """mon = calls of methods of the watcher, in order"""
    init = ()

    def __init__(self, cls, limit=4):
        self.cls, self.limit = cls, limit

    def event(self, eng, st, ev):
        if ev.kind == 'rcall' and ev.name.rsplit('::', 1)[0] in self.cls and len(st.mon) < self.limit:
            st.mon = st.mon + ((ev.name.rsplit('::', 1)[1], ev.obj, tuple(ev.args), ev.where()),)


# ---------------------------------------------------------------- C17
class Bridge(object):
    """the listener class behind the C callbacks; the roles of its fields are those its calls give them"""

    def __init__(self, p, r):
        self.p = p
        cl = {f.cls for f in p.fns.values() if f.n == 'handleFileAction' and f.cls and LISTENER in p.bases(f.cls)}
        if len(cl) != 1:
            raise AnalysisError('expected one listener class, found %s' % sorted(cl))
        self.cls = cl.pop()
        self.roles = {}
        self.calls(r)

    def method(self, n):
        return next((f for f in self.p.fns.values() if f.cls == self.cls and f.n == n), None)

    def role(self, name, v, r, where):
        f = field_of(v)
        if f is None or v.op != 'init' or v.a[0].a[0] is not mk_obj(THIS):
            if known(v):
                r.bad('call:%s' % name, 'the C callback gets %s as %s, at %s' % (show(v), name, where))
            return
        if self.roles.setdefault(name, f) != f:
            r.bad('call:%s:two' % name, '%s is taken from %s in one callback and from %s in another' % (name, self.roles[name], f))

    def calls(self, r):
        for mname, want in (('handleFileAction', 7), ('handleMissedFileActions', 3)):
            fn = self.method(mname)
            if fn is None:
                r.bad('call:none:' + mname, '%s does not implement %s, the event never reaches the C callback' % (self.cls, mname))
                continue
            pc = []

            class M(Monitor):
                init = ()

                def event(s, eng, st, ev):
                    if ev.kind == 'pcall':
                        st.mon = st.mon + ((ev.obj, tuple(ev.args), ev.where()),)
                        pc.append(ev)
            eng = Engine(self.p, M())
            res = eng.enter(fn)
            r.ok(len(res))
            if not pc:
                r.bad('call:lost:' + mname, '%s never calls the C function' % fn.q)
                continue
            for st, _ in res:
                cs = st.mon
                if len(cs) > 1:
                    r.bad('call:twice:' + mname, '%s calls the C function more than once: %s' % (fn.q, st.path(6)))
                for o, a, at in cs:
                    o = eng.resolve(st, o)
                    if o.op == 'fld':
                        o = mk('init', o)
                    self.role('the function' if want == 7 else 'the missed-actions function', o, r, at)
                    if len(a) != want:
                        continue
                    self.role('the watcher', eng.resolve(st, a[0]), r, at)
                    for i in range(1, min(want, 6)):
                        v = eng.resolve(st, a[i])
                        x = P(fn, i - 1)
                        if i in (2, 3, 5):
                            ok = v is x or v.op == 'init' and v.a[0] is x
                        else:
                            ok = v is x
                        if not ok and known(v):
                            r.bad('call:arg:%s:%d' % (mname, i), '%s passes %s where the C callback expects %s, at %s' % (fn.q, show(v), fn.params[i - 1]['name'], at))
                    if want == 7:
                        self.role('the user parameter', eng.resolve(st, a[6]), r, at)
                if not cs:
                    f = [v for v in (mk('init', mk_fld(mk_obj(THIS), x)) for x in self.fields()) if eng.truth(st, mk_eq(v, NULL)) is True]
                    if not f:
                        r.bad('call:skipped:' + mname, '%s does not call the C function on the path %s' % (fn.q, st.path(8)))

    def fields(self):
        return [f['n'] for f in self.p.records[self.cls]['fields']]


class AddC(Calls):
    """mon = ( calls, option still to be passed on, has the list been begun / gone through, has one been passed on )"""
    init = ((), None, None, False)

    def __init__(self, p, fn, bad):
        Calls.__init__(self, (FW,))
        self.p, self.fn, self.bad = p, fn, bad
        self.iopt = next((i for i, q in enumerate(fn.params) if 'option' in q['t'].get('s', '')), None)
        self.inum = next((i for i, q in enumerate(fn.params) if 'option' in q['name'] and i != self.iopt and 'int' in q['t'].get('s', '')), None)
        self.n = 0
        self.seen = False

    def mention(self, *ts):
        for i in (self.iopt, self.inum):
            if i is not None and any(isinstance(t, T) and contains(t, P(self.fn, i)) for t in ts):
                self.seen = True

    def index(self, v, f):
        """the index of the option a term is the field f of"""
        v = v.a[0] if v.op == 'init' else v
        if v.op == 'fld' and v.a[1].split('::')[-1] == f or v.op == 'proj' and isinstance(v.a[1], str) and v.a[1].split('::')[-1] == f:
            for x in subterms(v):
                if x.op == 'idx' and contains(x.a[0], P(self.fn, self.iopt)):
                    return x.a[1] if isinstance(x.a[1], T) else INT(x.a[1])
        return None

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        self.mention(atom)
        if self.iopt is None or self.inum is None:
            return
        calls, owed, done, put = st.mon
        N = P(self.fn, self.inum)
        if atom.op == 'lt' and atom.a[1] is N:
            i = atom.a[0]
            if owed is not None:
                self.bad('options:lost', 'the option with index %s is not passed on: %s' % (show(owed), st.path(8)))
            if done is None and isint(i) and i.a[0] != 0:
                self.bad('options:first', 'the first option looked at is that with index %s: %s' % (show(i), st.path(8)))
            st.mon = (calls, i if val else None, bool(done) or not val, put)
        elif atom.op == 'lt' and atom.a[1].op == 'bin' and contains(atom.a[1], N) and not contains(atom.a[1], P(self.fn, self.iopt)):
            self.bad('options:last', 'the loop over the options ends at %s' % show(atom.a[1]))

    def event(self, eng, st, ev):
        calls, owed, done, put = st.mon
        if ev.kind not in ('decl', 'ret'):
            self.mention(ev.obj, *ev.args)
        if ev.kind == 'mut' and ev.name in ('push', 'insert', 'append') and self.iopt is not None:
            for v in ev.args:
                if not isinstance(v, T):
                    continue
                v = eng.resolve(st, v)
                o, x = eng.resolve(st, eng.project(st, v, 'efsw::WatcherOption::mOption')), eng.resolve(st, eng.project(st, v, 'efsw::WatcherOption::mValue'))
                i, j = self.index(o, 'option'), self.index(x, 'value')
                if i is None and j is None:
                    continue
                self.n += 1
                at = ev.where()
                if i is None and (known(o) or self.index(o, 'value') is not None) or j is None and (known(x) or self.index(x, 'option') is not None):
                    self.bad('options:fields', 'an option is passed on as ( %s, %s ) at %s' % (show(o), show(x), at))
                elif i is not None and j is not None and i is not j:
                    self.bad('options:mixed', 'the option of index %s is passed on with the value of index %s at %s' % (show(i), show(j), at))
                elif owed is None:
                    if any(f.op == 'lt' and f.a[1] is P(self.fn, self.inum) for f in st.facts):
                        self.bad('options:twice', 'an option is passed on twice at %s: %s' % (at, st.path(8)))
                elif i is not None and i is not owed:
                    if known(i):
                        self.bad('options:index', 'the option with index %s is passed on instead of that with index %s at %s' % (show(i), show(owed), at))
                st.mon = (calls, None, done, True)
        elif ev.kind == 'step' and ev.name in ('++', '+=', '--', '-=') and self.inum is not None:
            if len(ev.args) > 1 and isint(ev.args[1]) and ev.args[1].a[0] != 1 and owed is not None or owed is not None and len(ev.args) > 1 and isint(ev.args[1]) and ev.args[1].a[0] != 1:
                self.bad('options:step', 'options are skipped at %s' % ev.where())
        elif ev.kind == 'rcall' and ev.name.rsplit('::', 1)[0] == FW:
            if owed is not None:
                self.bad('options:lost', 'the option with index %s is not passed on: %s' % (show(owed), st.path(8)))
            if len(calls) < 4:
                # the fields of the listener as they are now
                fs = ()
                if ev.name.endswith('::addWatch') and len(ev.args) > 1:
                    op = eng.resolve(st, ev.args[3]) if len(ev.args) > 3 else mk('list', ())
                    if put and op.op == 'list' and not op.a[0]:
                        self.bad('options:dropped', 'the options collected are not handed over at %s: %s' % (ev.where(), st.path(8)))
                    lis = eng.resolve(st, ev.args[1])
                    fs = tuple((f, eng.resolve(st, eng.read(st, mk_fld(mk_obj(lis), f)))) for f in self.fields)
                st.mon = (calls + ((ev.name.rsplit('::', 1)[1], ev.obj, tuple(ev.args), ev.where(), fs),), owed, done, put)


def c_add(p, r, B, name, keys):
    fn = fn_named(p, name)
    m = AddC(p, fn, lambda k, s: r.bad('%s:%s' % (name, k), '%s: %s' % (name, s)) if 'c17' in keys else None)
    m.fields = B.fields()
    eng = Engine(p, m, noinline=whole(p, FW), limit=60000)
    res = eng.enter(fn)
    r.ok(len(res))
    idx = {q['name']: i for i, q in enumerate(fn.params)}
    iw = next(i for i, q in enumerate(fn.params) if 'watcher' in q['name'])
    idir = param(fn, lambda t: 'char' in t.get('s', ''))
    irec = next((i for i, q in enumerate(fn.params) if 'recursive' in q['name']), None)
    if irec is None:
        irec = param(fn, lambda t: t.get('s', '') == 'int')
    fnp = [i for i, q in enumerate(fn.params) if 'pfn' in q['t'].get('s', '') or '(*)' in q['t'].get('s', '') or 'callback' in q['name']]
    iusr = next((i for i, q in enumerate(fn.params) if q['name'] == 'param'), None)
    if iusr is None:
        iusr = next((i for i, q in enumerate(fn.params) if i != iw and 'void *' == q['t'].get('s', '')), None)
    want = {'the watcher': P(fn, iw), 'the function': P(fn, fnp[0]) if fnp else None, 'the user parameter': P(fn, iusr) if iusr is not None else None,
            'the missed-actions function': P(fn, fnp[1]) if len(fnp) > 1 else NULL}
    opts = next((i for i, q in enumerate(fn.params) if 'option' in q['t'].get('s', '')), None)
    for st, v in res:
        calls = [c for c in st.mon[0] if c[0] == 'addWatch']
        if 'c17' in keys:
            other = [c for c in st.mon[0] if c[0] not in ('addWatch', 'directories', 'followSymlinks', 'allowOutOfScopeLinks')]
            if other:
                r.bad(name + ':more', '%s also calls %s at %s' % (name, other[0][0], other[0][3]))
            if len(calls) != 1:
                if not absent(eng, st, fn):
                    r.bad(name + ':calls', '%s adds the watch %d times on the path %s' % (name, len(calls), st.path(8)))
                continue
        for _, o, a, at, fs in calls:
            lis = eng.resolve(st, a[1])
            if 'c17' in keys:
                if eng.resolve(st, o) is not want['the watcher'] and known(eng.resolve(st, o)):
                    r.bad(name + ':obj', '%s adds the watch to %s at %s' % (name, show(o), at))
                d = eng.resolve(st, a[0])
                if d is not P(fn, idir) and known(d):
                    r.bad(name + ':dir', '%s adds a watch on %s at %s' % (name, show(d), at))
                rec = a[2] if len(a) > 2 else NULL
                if flag_ok(eng, st, rec, P(fn, irec)) is False:
                    r.bad(name + ':recursive', '%s passes %s for the flag %s at %s: %s' % (name, show(rec), fn.params[irec]['name'], at, st.path(8)))
                op = eng.resolve(st, a[3]) if len(a) > 3 else mk('list', ())
                if opts is not None and op.op == 'list' and not op.a[0] and not m.seen:
                    r.bad(name + ':options', '%s ignores its options on the path %s' % (name, st.path(8)))
                v = eng.resolve(st, v) if v is not None else None
                if v is not None and (isint(v) or v.op == 'param' or v is NULL or known(v)):
                    r.bad(name + ':result', '%s returns %s, not the result of addWatch: %s' % (name, show(v), st.path(8)))
            new = lis.op == 'new'
            vals = dict(fs)
            seen = [x for x, f in B.roles.items() if eng.truth(st, mk_eq(vals[f], want[x])) is not None] if want['the function'] is not None else []
            for x, f in sorted(B.roles.items()):
                w = want[x]
                if w is None:
                    continue
                t = eng.truth(st, mk_eq(vals[f], w))
                if t is True:
                    continue
                if new and 'c17' in keys and (known(vals[f]) or t is False):
                    r.bad('%s:listener:%s' % (name, x), '%s registers a listener with %s as %s at %s: %s' % (name, show(vals[f]), x, at, st.path(8)))
                elif not new and 'c18' in keys and seen and (t is False or known(vals[f])):
                    r.bad('%s:reuse:%s' % (name, x), '%s reuses a listener although %s was not found to be the same: %s' % (name, x, st.path(10)))
                elif not seen and not new:
                    r.note('%s: reuse of a listener by a comparison that is not recognised' % name)
    if opts is not None and not m.n and 'c17' in keys:
        r.note('%s: the loop over the options is not recognised' % name)


SIMPLE = (
    ('efsw_removewatch', 'removeWatch', ((0, 'same', 1),), None),
    ('efsw_removewatch_byid', 'removeWatch', ((0, 'same', 1),), None),
    ('efsw_watch', 'watch', (), None),
    ('efsw_follow_symlinks', 'followSymlinks', ((0, 'flag', 1),), None),
    ('efsw_allow_outofscopelinks', 'allowOutOfScopeLinks', ((0, 'flag', 1),), None),
    ('efsw_follow_symlinks_isenabled', 'followSymlinks', (), 'value'),
    ('efsw_outofscopelinks_isallowed', 'allowOutOfScopeLinks', (), 'value'),
)
GETTERS = ('followSymlinks', 'allowOutOfScopeLinks', 'directories')


def c_simple(p, r):
    for name, meth, args, val in SIMPLE:
        fn = fn_named(p, name)
        eng = Engine(p, Calls((FW,)), noinline=whole(p, FW))
        res = eng.enter(fn)
        r.ok(len(res))
        for st, v in res:
            if absent(eng, st, fn):
                continue
            cs = [c for c in st.mon if not (c[0] in GETTERS and not c[2] and (c[0] != meth or args))]
            if len(cs) != 1 or cs[0][0] != meth:
                r.bad(name, '%s calls %s instead of %s once: %s' % (name, ', '.join(c[0] for c in cs) or 'nothing', meth, st.path(6)))
                continue
            _, o, a, at = cs[0]
            o = eng.resolve(st, o)
            if o is not P(fn, 0) and known(o):
                r.bad(name + ':obj', '%s acts on %s at %s' % (name, show(o), at))
            if len(a) != len(args):
                r.bad(name + ':args', '%s calls %s with %d arguments at %s' % (name, meth, len(a), at))
                continue
            for i, how, k in args:
                x = eng.resolve(st, a[i])
                if how == 'same' and x is not P(fn, k) and known(x):
                    r.bad(name + ':arg', '%s passes %s instead of %s at %s' % (name, show(x), fn.params[k]['name'], at))
                if how == 'flag' and flag_ok(eng, st, x, P(fn, k)) is False:
                    r.bad(name + ':arg', '%s passes %s for the flag %s at %s: %s' % (name, show(x), fn.params[k]['name'], at, st.path(6)))
            if val:
                v = eng.resolve(st, v)
                tv = eng.truth(st, mk_eq(v, NULL))
                src = next((x for x in subterms(v) if x.op == 'ret' and x.a[0] == meth), None)
                if src is None:
                    # decided by a branch on the result
                    br = [(f, b) for f, b in st.facts.items() if any(x.op == 'ret' and x.a[0] == meth for x in subterms(f)) and f.op == 'eq']
                    if isint(v) and br:
                        f, b = br[0]
                        z = next((y for y in f.a if isint(y) or y is NULL), None)
                        if z is not None and (z is NULL or z.a[0] == 0) and (tv is not b):
                            r.bad(name + ':value', '%s returns %s when the option is %s' % (name, show(v), 'off' if b else 'on'))
                    elif known(v):
                        r.bad(name + ':value', '%s returns %s, not the setting' % (name, show(v)))
                elif v.op == 'not' and not (v.a[0].op == 'eq'):
                    r.bad(name + ':value', '%s returns the opposite of the setting' % name)
                elif v.op == 'eq' and any(z is NULL or isint(z) and z.a[0] == 0 for z in v.a):
                    r.bad(name + ':value', '%s returns the opposite of the setting' % name)


def c_log(p, r):
    for name, meth, val in (('efsw_getlasterror', 'getLastErrorLog', True), ('efsw_clearlasterror', 'clearLastError', False)):
        fn = fn_named(p, name)
        eng = Engine(p, Calls((LOG,)), noinline=whole(p, LOG))
        res = eng.enter(fn)
        r.ok(len(res))
        for st, v in res:
            cs = [c[0] for c in st.mon]
            if meth not in cs or any(c in ('createLastError', 'clearLastError') and c != meth for c in cs):
                r.bad(name, '%s calls %s instead of %s: %s' % (name, ', '.join(cs) or 'nothing', meth, st.path(6)))
            elif val:
                v = eng.resolve(st, v)
                if not contains_ret(v, meth) and known(v):
                    r.bad(name + ':value', '%s returns %s, not the last error' % (name, show(v)))


def contains_ret(v, n):
    return any(x.op == 'ret' and x.a[0] == n for x in subterms(v))


def c_create(p, r):
    fn = fn_named(p, 'efsw_create')
    ctors = []

    class M(Monitor):
        init = ()

        def event(s, eng, st, ev):
            if ev.kind == 'ctor' and ev.name == FW and len(st.mon) < 4:
                st.mon = st.mon + ((ev.obj, tuple(ev.args), ev.where()),)
    eng = Engine(p, M(), noinline=whole(p, FW))
    res = eng.enter(fn)
    r.ok(len(res))
    for st, v in res:
        if len(st.mon) != 1:
            r.bad('efsw_create:count', 'efsw_create makes %d watchers: %s' % (len(st.mon), st.path(6)))
            continue
        o, a, at = st.mon[0]
        a0 = a[0] if a else NULL
        if flag_ok(eng, st, a0, P(fn, 0)) is False:
            r.bad('efsw_create:mode', 'efsw_create passes %s for generic_mode at %s: %s' % (show(a0), at, st.path(6)))
        v = eng.resolve(st, v)
        if v.op != 'new' and known(v):
            r.bad('efsw_create:value', 'efsw_create returns %s: %s' % (show(v), st.path(6)))


def plain(n):
    n = n.lower().replace('_', '')
    for x in ('efswopt', 'efsw', 'file'):
        if n.startswith(x):
            n = n[len(x):]
    return n


def c_enums(p, r):
    for cpp, c in (('efsw::Actions::Action', 'efsw_action'), ('efsw::Errors::Error', 'efsw_error'), ('efsw::Options::Option', 'efsw_option')):
        if cpp not in p.enums or c not in p.enums:
            raise AnalysisError('enumeration %s or %s not found' % (cpp, c))
        a = {plain(x['n']): (x['n'], x['v']) for x in p.enums[cpp]['consts']}
        b = {plain(x['n']): (x['n'], x['v']) for x in p.enums[c]['consts']}
        for k in sorted(set(a) & set(b)):
            r.ok()
            if a[k][1] != b[k][1]:
                r.bad('enum:%s' % b[k][0], '%s is %s in the C interface, %s is %s in the C++ one' % (b[k][0], b[k][1], a[k][0], a[k][1]))
        for k in sorted(set(b) - set(a)):
            if b[k][1] not in {x[1] for x in a.values()}:
                r.bad('enum:%s' % b[k][0], '%s = %s has no counterpart in %s' % (b[k][0], b[k][1], cpp))
        for k in sorted(set(a) - set(b)):
            if a[k][1] not in {x[1] for x in b.values()} and a[k][1] != 0:
                r.bad('enum:%s' % a[k][0], '%s = %s has no counterpart in %s' % (a[k][0], a[k][1], c))
        if 'option' not in c:
            for e, t in ((c, b), (cpp, a)):
                vs = [x[1] for x in t.values()]
                for x in t.values():
                    if vs.count(x[1]) > 1:
                        r.bad('enum:dup:%s' % e, 'two codes of %s have the value %s' % (e, x[1]))
    r.need('codes', r.obligations, 15)


@rule('C17', 'Every function of the C interface is followed on all its paths, with the methods of FileWatcher as events: which method is called, on which object, with which arguments ( the truth of '
      'flags, every option of the list in order, the fields of the listener at the moment it is registered ), and what is returned. The fields of the listener get their roles from the calls of the C '
      'function pointers in it, whose arguments are compared with those of the C++ callback. The enumerations of both interfaces are compared by name and value.',
      assume=['Calls through a null watcher or null string are the callers\' business.'],
      tech='path-sensitive dataflow over the resolved program ( argument and result mapping ), comparison of enumerations')
def c17(p, tier):
    r = Result()
    r.part(c_enums, p, r)
    B = r.part(Bridge, p, r)
    if B is not None:
        for n in ('efsw_addwatch', 'efsw_addwatch_withoptions'):
            r.part(c_add, p, r, B, n, ('c17',))
    r.part(c_simple, p, r)
    r.part(c_log, p, r)
    r.part(c_create, p, r)
    r.need('functions of the C interface', len([f for f in p.fns.values() if f.q.startswith('efsw_')]), 13)
    return r


# ---------------------------------------------------------------- C18
class Table(Calls):
    """mon = listeners entered into a container"""
    init = ()

    def __init__(self, B):
        self.B = B
        self.tables = {}
        self.deleted = []

    def event(self, eng, st, ev):
        if ev.kind == 'mut' and ev.name in ('push', 'insert', 'set'):
            for v in ev.args:
                v = eng.resolve(st, v) if isinstance(v, T) else None
                if v is not None and v.op == 'new' and v.a[0] == self.B.cls:
                    self.tables[ev.obj] = ev.where()
                    st.mon = st.mon + (('in', v, ev.obj, ev.where()),)
        elif ev.kind == 'mut' and ev.name in ('erase', 'clear', 'pop') and ev.obj in self.tables:
            st.mon = st.mon + (('out', None, ev.obj, ev.where()),)
        elif ev.kind == 'delete' and ev.name == self.B.cls:
            v = eng.resolve(st, ev.obj)
            st.mon = st.mon + (('del', v, None, ev.where()),)
        elif ev.kind == 'rcall' and ev.name == FW + '::addWatch' and len(ev.args) > 1:
            st.mon = st.mon + (('add', eng.resolve(st, ev.args[1]), None, ev.where()),)
        elif ev.kind == 'dtor' and ev.name == self.B.cls:
            st.mon = st.mon + (('del', ev.obj, None, ev.where()),)
        if len(st.mon) > 8:
            st.mon = st.mon[-8:]


def c18_add(p, r, B):
    tables = {}
    for name in ('efsw_addwatch', 'efsw_addwatch_withoptions'):
        fn = fn_named(p, name)
        m = Table(B)
        eng = Engine(p, m, noinline=whole(p, FW), limit=60000)
        res = eng.enter(fn)
        r.ok(len(res))
        tables.update(m.tables)
        for st, v in res:
            for i, e in enumerate(st.mon):
                if e[0] == 'add':
                    lis = e[1]
                    gone = [x for x in st.mon[i + 1:] if x[0] == 'del' and (x[1] is lis)]
                    inn = any(x[0] == 'in' and x[1] is lis for x in st.mon)
                    if lis.op == 'new' and not inn and not gone:
                        r.bad('%s:leak' % name, '%s registers a new listener at %s that is not entered into any table, so nothing frees it: %s' % (name, e[3], st.path(8)))
                    if lis.op not in ('new', 'elem', 'hv', 'ret', 'proj', 'init') and known(lis):
                        r.bad('%s:local' % name, '%s registers the listener %s at %s' % (name, show(lis), e[3]))
                elif e[0] == 'del':
                    lis = e[1]
                    failed = v is not None and eng.truth(st, mk_lt(v, NULL)) is True
                    if not (lis.op == 'new' and failed):
                        r.bad('%s:freed' % name, '%s frees the listener %s at %s although a watch may still call it: %s' % (name, show(lis), e[3], st.path(8)))
                    elif any(x[0] == 'in' and x[1] is lis for x in st.mon) and not any(x[0] == 'out' for x in st.mon):
                        r.bad('%s:dangling' % name, '%s frees the listener %s at %s and leaves it in the table: %s' % (name, show(lis), e[3], st.path(8)))
    return tables


class Release(Monitor):
    """mon = ( watcher deleted, comparison of the current entry, deleted, owed, went to the end )"""
    init = (False, None, False, None, False)

    def __init__(self, B, fn, C, bad):
        self.B, self.fn, self.C, self.bad = B, fn, C, bad
        self.watcher = P(fn, 0)
        self.F = B.roles['the watcher']
        self.n = 0
        self.touched = False
        self.alien = None       # a way of going through or rebuilding the table this does not follow

    def mine(self, t):
        return next((x for x in subterms(t) if x.op == 'elem' and vroot(x.a[0], self.C)), None)

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        d, t, x, o, e = st.mon
        if atom.op == 'eq':
            for a, b in (atom.a, atom.a[::-1]):
                if a is self.watcher and self.mine(b) is not None and field_of(b) == self.F:
                    self.n += 1
                    if self.mine(b).a[1].op != 'ek':
                        self.alien = 'entries are reached by index'
                    st.mon = (d, val, x, o, e)
        elif atom.op in ('atend', 'vempty') and val and any(isinstance(z, T) and vroot(z, self.C) for z in atom.a):
            st.mon = (d, t, x, o, True)

    def leave(self, st, at):
        d, t, x, o, e = st.mon
        if o is not None:
            self.bad('leak', 'the entry taken out of the table before %s is not freed: %s' % (at, st.path(8)))
        if t is True and not x:
            self.bad('kept', 'a listener of the released watcher is kept in the table at %s: %s' % (at, st.path(8)))
        if t is True and x:
            self.bad('dangling', 'a freed listener is left in the table at %s: %s' % (at, st.path(8)))

    def event(self, eng, st, ev):
        d, t, x, o, e = st.mon
        if ev.kind == 'delete' and ev.name == self.B.cls or ev.obj is self.C or any(isinstance(z, T) and contains(z, self.C) for z in ev.args):
            self.touched = True
        if ev.kind == 'mut' and ev.name not in ('erase', 'clear') and (ev.obj is self.C or any(z is self.C for z in ev.args)):
            self.alien = 'the table is changed by %s' % ev.name
        if ev.kind == 'delete' and eng.resolve(st, ev.obj) is self.watcher:
            if d:
                self.bad('twice', 'the watcher is deleted twice at %s' % ev.where())
            st.mon = (True, t, x, o, e)
        elif ev.kind == 'delete' and ev.name == self.B.cls:
            if not d:
                self.bad('order', 'a listener is freed at %s before the watcher, whose thread may still call it, has been deleted: %s' % (ev.where(), st.path(8)))
            v = eng.resolve(st, ev.obj)
            m = self.mine(v)
            if o is not None and v is o:
                st.mon = (d, t, False, None, e)
            elif m is not None:
                if t is not True and self.n:
                    self.bad('other', 'a listener is freed at %s although it was not found to belong to the released watcher: %s' % (ev.where(), st.path(8)))
                if x:
                    self.bad('double', 'a listener is freed twice at %s: %s' % (ev.where(), st.path(8)))
                st.mon = (d, t, True, o, e)
        elif ev.kind == 'step' and ev.args and isinstance(ev.args[0], T) and ev.args[0].op == 'it' and ev.args[0].a[0] is self.C:
            if ev.name == 'erase':
                if o is not None:
                    self.bad('leak', 'the entry taken out of the table before %s is not freed: %s' % (ev.where(), st.path(8)))
                if t is not True and self.n:
                    self.bad('other', 'a listener is taken out of the table at %s although it was not found to belong to the released watcher: %s' % (ev.where(), st.path(8)))
                it = ev.args[0]
                owed = None if x else eng.resolve(st, eng.elem(st, it.a[1], it.a[2]))
                st.mon = (d, None, False, owed, e)
            else:
                self.leave(st, ev.where())
                if t is None and self.n:
                    self.bad('passed', 'an entry of the table is passed over at %s: %s' % (ev.where(), st.path(8)))
                st.mon = (d, None, False, None, e)
        elif ev.kind == 'mut' and ev.obj is self.C and ev.name == 'clear':
            self.bad('clear', 'the whole table of callbacks is emptied at %s' % ev.where())


def c18_release(p, r, B, tables):
    fn = fn_named(p, 'efsw_release')
    for C in tables:
        out = []
        m = Release(B, fn, C, lambda k, s: out.append((k, s)))
        eng = Engine(p, m, noinline=whole(p, FW))
        res = eng.enter(fn)
        if not m.n:
            # without a comparison only the order can be judged
            out = [x for x in out if x[0] in ('order', 'twice', 'clear')]
            if not m.touched:
                r.bad('release:never', 'efsw_release does not free the listeners of the watcher')
            r.note('efsw_release: no comparison of the watcher of the entries recognised')
        if m.alien:
            out = [x for x in out if x[0] in ('order', 'twice')]
            r.note('efsw_release: not followed: %s' % m.alien)
        for k, s in out:
            r.bad('release:' + k, 'efsw_release: ' + s)
        r.ok(len(res))
        for st, _ in res:
            if absent(eng, st, fn):
                continue
            if not st.mon[0]:
                r.bad('release:watcher', 'efsw_release does not delete the watcher on the path %s' % st.path(6))
            if m.n and not m.alien and not st.mon[4]:
                r.bad('release:early', 'efsw_release ends without having gone through all callbacks: %s' % st.path(8))
            if m.n and not m.alien and st.mon[3] is not None:
                r.bad('release:leak', 'efsw_release: a listener taken out of the table is not freed: %s' % st.path(8))
    if not tables:
        r.note('no table of callbacks recognised')


def c18_others(p, r, B, tables):
    """no other function of the C interface touches the listeners"""
    for f in p.fns.values():
        if not f.q.startswith('efsw_') or f.q in ('efsw_release', 'efsw_addwatch', 'efsw_addwatch_withoptions'):
            continue

        class M(Monitor):
            init = ()

            def event(s, eng, st, ev):
                if ev.kind == 'delete' and ev.name == B.cls:
                    r.bad('%s:freed' % f.q, '%s frees a listener at %s although other watches may use it' % (f.q, ev.where()))
                elif ev.kind == 'mut' and ev.obj in tables and ev.name in ('erase', 'clear', 'pop'):
                    r.bad('%s:table' % f.q, '%s takes a listener out of the table at %s' % (f.q, ev.where()))
        Engine(p, M(), noinline=whole(p, FW)).enter(f)
        r.ok()


@rule('C18', 'In every function of the C interface the allocation, registration, reuse and release of the listeners behind C callbacks are followed on all paths: a new listener is entered into the table '
      'of callbacks, one taken from the table is reused only after each of its fields was compared with the arguments, efsw_release deletes the watcher before any listener, then goes through the whole '
      'table and frees and removes exactly the entries whose watcher is the released one, and no other function frees a listener or takes one out.',
      assume=['The destructor of the watcher ends its thread before it returns ( C04 ).'],
      tech='typestate analysis of table entries over all paths of the C interface')
def c18(p, tier):
    r = Result()
    B = r.part(Bridge, p, Result())
    if B is None:
        r.note('the listener class is not recognised')
        return r
    for n in ('efsw_addwatch', 'efsw_addwatch_withoptions'):
        r.part(c_add, p, r, B, n, ('c18',))
    t = r.part(c18_add, p, r, B) or {}
    r.part(c18_release, p, r, B, t)
    r.part(c18_others, p, r, B, t)
    r.need('tables of callbacks', len(t), 1)
    return r


# ---------------------------------------------------------------- C19
WORDS = {-1: ('not found',), -2: ('repeat', 'already'), -3: ('scope',), -4: ('readable',), -5: ('remote',), -6: ('watcher failed',)}


def read_of(p, r, meth):
    """the variable a getter of the last error returns"""
    fn = fn_named(p, LOG + '::' + meth)
    eng = Engine(p, Monitor())
    locs = set()
    for st, v in eng.enter(fn):
        v = eng.resolve(st, v)
        if v is not None and v.op == 'init' and v.a[0].op == 'g':
            locs.add(v.a[0])
        elif v is not None and known(v):
            r.bad('getter:' + meth, '%s returns %s, which is no record of the last error: %s' % (fn.q, show(v), st.path(6)))
    if len(locs) != 1:
        raise AnalysisError('%s: the variable it returns is not recognised' % fn.q)
    return locs.pop()


def the_log(p, r):
    code, text = read_of(p, r, 'getLastErrorCode'), read_of(p, r, 'getLastErrorLog')
    fn = fn_named(p, LOG + '::clearLastError')
    eng = Engine(p, Monitor())
    for st, _ in eng.enter(fn):
        r.ok()
        c, t = eng.resolve(st, eng.read(st, code)), eng.resolve(st, eng.read(st, text))
        if not (c is NULL or isint(c) and c.a[0] == 0) and (known(c) or c.op == 'init'):
            r.bad('clear:code', 'clearLastError leaves the last error code as %s: %s' % (show(c), st.path(6)))
        if not (t.op == 'str' and t.a[0] == '') and t is not EMPTY and known(t):
            r.bad('clear:text', 'clearLastError leaves the text as %s: %s' % (show(t), st.path(6)))
    fn = fn_named(p, LOG + '::createLastError')
    ie = param(fn, lambda t: 'Error' in t.get('s', ''))
    il = param(fn, is_string)
    texts = {}
    for c in [x['v'] for x in p.enums['efsw::Errors::Error']['consts'] if x['v'] < 0]:
        eng = Engine(p, Monitor())
        for st, v in eng.enter(fn, params={ie: INT(c)}):
            r.ok()
            v, k, t = eng.resolve(st, v), eng.resolve(st, eng.read(st, code)), eng.resolve(st, eng.read(st, text))
            if isint(v) and v.a[0] != c:
                r.bad('create:return:%d' % c, 'createLastError( %s ) returns %s: %s' % (ename(p, c), show(v), st.path(6)))
            if (isint(k) or k is NULL or k.op == 'init') and not (isint(k) and k.a[0] == c):
                r.bad('create:code:%d' % c, 'createLastError( %s ) leaves the last error code as %s: %s' % (ename(p, c), show(k), st.path(6)))
            logs = [x for x in subterms(t) if x.op in ('param', 'P') and x.a[0] == il]
            if not logs and known(t):
                r.bad('create:log:%d' % c, 'the text for %s is %s and does not contain the path or message given: %s' % (ename(p, c), show(t), st.path(6)))
                continue
            if t.op == 'cat' or t.op in ('param', 'P', 'init'):
                words = ''.join(x.a[0] for x in subterms(t) if x.op == 'str').lower()
                texts.setdefault(c, set()).add(words)
    for c, ws in sorted(texts.items()):
        for w in ws:
            for o, k in WORDS.items():
                if o != c and any(x in w for x in k) and not any(x in w for x in WORDS.get(c, ())):
                    r.bad('create:text:%d' % c, 'the text for %s ( "%s" ) names the problem of %s' % (ename(p, c), w, ename(p, o)))
            if not w.strip(' ()') and c != -7:
                r.bad('create:text:%d' % c, 'the code %s has no text of its own' % ename(p, c))
            for d, vs in texts.items():
                if d != c and w in vs and w.strip(' ()'):
                    r.bad('create:same:%d' % max(c, d), 'the codes %s and %s have the same text "%s"' % (ename(p, c), ename(p, d), w))
    r.need('texts of error codes', len(texts), 7)
    return code, text


def ename(p, c):
    return next((x['n'] for x in p.enums['efsw::Errors::Error']['consts'] if x['v'] == c), str(c))


class LastCode(Monitor):
    """mon = ( last code set, log text known empty, where )"""
    init = (None, False, '')

    def __init__(self, code, text):
        self.code, self.text = code, text
        self.n = 0

    def event(self, eng, st, ev):
        if ev.kind == 'write' and ev.obj is self.code:
            self.n += 1
            st.mon = (eng.resolve(st, ev.args[0]), st.mon[1], ev.where())
        elif ev.kind == 'rcall' and ev.name == LOG + '::createLastError':
            self.n += 1
            v = eng.resolve(st, ev.args[0])
            t = eng.resolve(st, ev.args[1])
            st.mon = (v, t.op == 'str' and t.a[0] == '' or t is EMPTY, ev.where())
        elif ev.kind == 'rcall' and ev.name == LOG + '::clearLastError':
            st.mon = (INT(0), False, ev.where())


def returns(p, r, code, text, cls, tier):
    for fn in [f for f in p.fns.values() if f.cls == cls and f.n == 'addWatch']:
        if cls == CLS and not any(is_ptr_to('FileWatchListener')(q['t']) for q in fn.params):
            continue
        m = LastCode(code, text)
        if cls == CLS:
            ad = r_add.adder(p)
            anch = dict(r_add.adder_anchors(p, ad))
            anch.pop(ad.q, None)
        else:
            anch = {GEN + '::pathInWatches': r_add.watched, 'efsw::DirWatcherGeneric::addChildren': opaque}
        anch[LOG + '::createLastError'] = create
        eng = Engine(p, m, backend=cls, anchors=anch, noinline=('efsw::DirWatcherGeneric', LOG + '::clearLastError') + (whole(p, IMPL, CLS, GEN) if cls == FW else ()), limit=100000)
        res = eng.enter(fn)
        r.ok(len(res))
        for st, v in res:
            if v is None:
                continue
            v = eng.resolve(st, v)
            c, empty, at = st.mon
            if isint(v) and v.a[0] < 0:
                if c is None:
                    r.bad('%s:unset:%d' % (fn.q, v.a[0]), '%s returns %s without setting the last error: %s' % (fn.q, ename(p, v.a[0]), st.path(10)))
                elif isint(c) and c is not v or c is NULL:
                    r.bad('%s:code:%d' % (fn.q, v.a[0]), '%s returns %s, the last error set is %s ( %s ): %s' % (fn.q, ename(p, v.a[0]), ename(p, c.a[0]) if isint(c) else 'none', at, st.path(10)))
                elif empty:
                    r.bad('%s:empty:%d' % (fn.q, v.a[0]), '%s returns %s with an empty message ( %s ): %s' % (fn.q, ename(p, v.a[0]), at, st.path(10)))
            elif eng.truth(st, mk_lt(v, NULL)) is True and c is None and v.op == 'ret' and not (cls == FW and v.a[0] == 'addWatch'):
                r.bad('%s:raw' % fn.q, '%s returns the negative result of %s without setting the last error: %s' % (fn.q, v.a[0], st.path(10)))
        if not m.n:
            r.note('%s: no error recognised' % fn.q)


def create(eng, st, c):
    """createLastError: an event; the result is the code"""
    out = opaque(eng, st, c)
    return [(s, c.args[0]) for s, _ in out]


@rule('C19', 'The variables behind the last error are those its getters return. createLastError is followed for each documented code: both are set on every path, the code is returned, the text contains '
      'the path or message given and a constant part of its own for each code, that does not name the problem of another. Clearing resets both. In addWatch of the front and of both backends every path that '
      'returns a negative value has set exactly that code as the last one, with a message.',
      assume=['strerror returns a non-empty string.'],
      tech='path-sensitive dataflow over the resolved program ( value of the last error at every return )')
def c19(p, tier):
    r = Result()
    x = r.part(the_log, p, r)
    if x is not None:
        for cls in (FW, CLS, GEN):
            r.part(returns, p, r, x[0], x[1], cls, tier)
    return r


# ---------------------------------------------------------------- C24
class Front(Monitor):
    """constructor of the front: mon = ( made backends ), asked"""
    init = ()

    def event(self, eng, st, ev):
        if ev.kind in ('ctor', 'delete') and (ev.name in (GEN, CLS, IMPL)) and len(st.mon) < 6:
            st.mon = st.mon + ((ev.kind, ev.name, eng.resolve(st, ev.obj) if isinstance(ev.obj, T) else None, tuple(ev.args), ev.where()),)
        elif ev.kind == 'rcall' and ev.name.endswith('::initOK') and len(st.mon) < 6:
            st.mon = st.mon + (('asked', ev.name, eng.resolve(st, ev.obj), (), ev.where()),)

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        if atom.op == 'eq' and any(x.op == 'ret' and x.a[0] == 'initOK' for x in atom.a) and any(x is NULL or isint(x) and x.a[0] == 0 for x in atom.a):
            st.mon = st.mon + (('fell' if val else 'fine', '', None, (), line),)


def impl_field(p):
    for f in p.records[FW]['fields']:
        if 'FileWatcherImpl' in f['t'].get('s', ''):
            return mk_fld(mk_obj(THIS), f['n'])
    raise AnalysisError('%s has no implementation' % FW)


def c24_ctor(p, r):
    L = impl_field(p)
    for fn in [f for f in p.fns.values() if f.cls == FW and f.n == 'FileWatcher']:
        if any('FileWatcher &' in q['t'].get('s', '') for q in fn.params):
            continue
        m = Front()
        eng = Engine(p, m, noinline=whole(p, IMPL, CLS, GEN))
        res = eng.enter(fn)
        r.ok(len(res))
        iflag = next((i for i, q in enumerate(fn.params) if is_bool(q['t'])), None)
        ifreq = next((i for i, q in enumerate(fn.params) if 'int' in q['t'].get('s', '')), None)
        for st, _ in res:
            v = eng.resolve(st, eng.read(st, L))
            where = '%s: %s' % (fn.q, st.path(8))
            kept = v.a[0] if v.op == 'new' else None
            if kept is None:
                if known(v):
                    r.bad('ctor:none:%d' % len(fn.params), 'the watcher is left with %s as its backend, %s' % (show(v), where))
                continue
            z = eng.truth(st, mk_eq(P(fn, iflag), NULL)) if iflag is not None else True
            gone = [e for e in st.mon if e[0] == 'delete' and e[2] is v]
            if gone:
                r.bad('ctor:freed:%d' % len(fn.params), 'the backend kept was deleted at %s, %s' % (gone[0][4], where))
            asked = [e for e in st.mon if e[0] == 'asked']
            fell = any(e[0] == 'fell' for e in st.mon)
            if kept == GEN and z is True and not fell:
                r.bad('ctor:generic:%d' % len(fn.params), 'the polling backend is used although the native one was not found to fail, %s' % where)
            if kept == CLS and z is False:
                r.bad('ctor:native:%d' % len(fn.params), 'the native backend is used although the polling one was asked for, %s' % where)
            if kept == CLS and not asked:
                r.bad('ctor:unasked:%d' % len(fn.params), 'the native backend is kept without asking whether it could be initialised, %s' % where)
            if kept == CLS and fell:
                r.bad('ctor:broken:%d' % len(fn.params), 'the native backend is kept although it could not be initialised, %s' % where)
            for e in st.mon:
                if e[0] == 'ctor' and e[1] == GEN:
                    fr = eng.resolve(st, e[3][1]) if len(e[3]) > 1 else INT(1000)
                    want = P(fn, ifreq) if ifreq is not None else INT(1000) if z is False else None
                    if want is not None and fr is not want and (known(fr)):
                        r.bad('ctor:freq:%d' % len(fn.params), 'the polling backend is made with the frequency %s instead of %s at %s, %s' % (show(fr), show(want), e[4], where))
                    if isint(fr) and fr.a[0] <= 0:
                        r.bad('ctor:freq0:%d' % len(fn.params), 'the polling backend is made with the frequency %s at %s' % (show(fr), e[4]))
                if e[0] == 'ctor' and e[1] in (GEN, CLS) and e[3]:
                    o = eng.resolve(st, e[3][0])
                    if o is not THIS and known(o):
                        r.bad('ctor:parent:%d' % len(fn.params), 'the backend is made for %s at %s' % (show(o), e[4]))
            leaked = [e for e in st.mon if e[0] == 'ctor' and e[1] in (GEN, CLS) and not (e[2] is not None and e[2] is mk_obj(v)) and
                      not any(d[0] == 'delete' and e[2] is mk_obj(d[2]) for d in st.mon)]
            if leaked:
                r.bad('ctor:leak:%d' % len(fn.params), 'the backend made at %s is neither kept nor deleted, %s' % (leaked[0][4], where))


FORWARD = ('addWatch', 'removeWatch', 'watch', 'directories')


def c24_forward(p, r):
    L = mk('init', impl_field(p))
    for fn in [f for f in p.fns.values() if f.cls == FW and f.n in FORWARD]:
        m = Calls((IMPL, CLS, GEN))
        eng = Engine(p, m, noinline=whole(p, IMPL, CLS, GEN))
        res = eng.enter(fn)
        r.ok(len(res))
        for st, v in res:
            cs = [c for c in st.mon if c[0] in FORWARD]
            where = '%s: %s' % (fn.q, st.path(8))
            v = eng.resolve(st, v) if v is not None else None
            if not cs and fn.n == 'addWatch' and v is not None and isint(v) and v.a[0] < 0:
                if v.a[0] == -5:
                    rem = any(f.op == 'remote' and b for f, b in st.facts.items())
                    gen = [b for f, b in st.facts.items() if any(field_of(x) == IMPL + '::mIsGeneric' or 'mIsGeneric' in str(field_of(x)) for x in subterms(f))]
                    if not rem:
                        r.bad('fwd:remote:%d' % len(fn.params), 'FileRemote is returned for a directory not found to be remote, %s' % where)
                    elif not gen or all(b is False for b in gen):
                        r.bad('fwd:generic:%d' % len(fn.params), 'FileRemote is returned although the backend was not found to be the native one, %s' % where)
                continue
            if len(cs) != 1 or cs[0][0] != fn.n:
                r.bad('fwd:%s:%d' % (fn.n, len(fn.params)), '%s of the backend is called instead of %s once, %s' % (', '.join(c[0] for c in cs) or 'nothing', fn.n, where))
                continue
            _, o, a, at = cs[0]
            o = eng.resolve(st, o)
            if o is not L and known(o):
                r.bad('fwd:obj:%s:%d' % (fn.n, len(fn.params)), 'the call goes to %s at %s' % (show(o), at))
            if fn.n == 'addWatch':
                if any(f.op == 'remote' and b and f.a[0] is P(fn, 0) for f, b in st.facts.items()) and not any('mIsGeneric' in str(field_of(x)) and not b for f, b in st.facts.items() for x in subterms(f)):
                    r.bad('fwd:isremote:%d' % len(fn.params), 'a remote directory is given to the backend without its being the polling one, %s' % where)
                if not any(f.op == 'remote' and (f.a[0] is P(fn, 0) or not known(f.a[0]) or contains(f.a[0], P(fn, 0))) for f in st.facts) and not any('mIsGeneric' in str(field_of(x)) and not b for f, b in st.facts.items() for x in subterms(f)):
                    r.bad('fwd:unchecked:%d' % len(fn.params), 'a directory is given to the native backend without looking whether it is remote, %s' % where)
            want = [P(fn, i) for i in range(len(fn.params))]
            default = [None, None, NULL, None]
            for i, x in enumerate(a):
                x = eng.resolve(st, x)
                if i < len(want):
                    w = want[i]
                    if x is w or unbool(x) is w or x.op == 'P' and x.a[0] == i or x.op == 'init' and x.a[0].op == 'P' and x.a[0].a[0] == i or eng.truth(st, mk_eq(x, w)) is True:
                        continue
                    if is_bool(fn.params[i]['t']) and flag_ok(eng, st, x, w) is not False:
                        continue
                    if known(x):
                        r.bad('fwd:arg:%s:%d:%d' % (fn.n, len(fn.params), i), '%s is passed for %s at %s, %s' % (show(x), fn.params[i]['name'], at, where))
                elif i == 2 and not (x is NULL or isint(x) and x.a[0] == 0) and known(x):
                    r.bad('fwd:default:%d' % len(fn.params), 'a watch added without saying so is recursive at %s' % at)
                elif i == 3 and x.op == 'list' and x.a[0]:
                    r.bad('fwd:options:%d' % len(fn.params), 'options that were not given are passed at %s' % at)
            if v is not None and fn.n in ('addWatch', 'directories') and not (v.op == 'ret' and v.a[0] == fn.n) and known(v):
                r.bad('fwd:result:%s:%d' % (fn.n, len(fn.params)), '%s is returned instead of the result of the backend, %s' % (show(v), where))


def c24_settings(p, r):
    """a setter changes exactly what its getter returns"""
    fields = {}
    for meth in ('followSymlinks', 'allowOutOfScopeLinks'):
        fs = [f for f in p.fns.values() if f.cls == FW and f.n == meth]
        get_ = [f for f in fs if not f.params]
        set_ = [f for f in fs if f.params]
        if len(get_) != 1 or len(set_) != 1:
            raise AnalysisError('%s: one setter and one getter expected' % meth)
        locs = set()
        eng = Engine(p, Monitor())
        for st, v in eng.enter(get_[0]):
            r.ok()
            if v is not None and v.op == 'fld':
                locs.add(v)
            elif v is not None and v.op == 'init':
                locs.add(v.a[0])
        if len(locs) != 1:
            raise AnalysisError('%s: what the getter returns is not recognised' % meth)
        loc = locs.pop()
        if loc in fields.values():
            r.bad('settings:shared', '%s returns the same setting as %s' % (meth, next(k for k in fields if fields[k] is loc)))
        fields[meth] = loc
        for st, v in eng.enter(set_[0]):
            r.ok()
            x = eng.resolve(st, eng.read(st, loc))
            if flag_ok(eng, st, x, P(set_[0], 0)) is False or x is mk('init', loc):
                r.bad('settings:%s' % meth, '%s( value ) leaves the setting its getter returns as %s: %s' % (meth, show(x), st.path(6)))
            for m2, l2 in fields.items():
                if l2 is not loc and eng.resolve(st, eng.read(st, l2)) is not mk('init', l2):
                    r.bad('settings:other:%s' % meth, '%s( value ) changes the setting of %s' % (meth, m2))
    # defaults
    for fn in [f for f in p.fns.values() if f.cls == FW and f.n == 'FileWatcher' and len(f.params) == 2]:
        eng = Engine(p, Monitor(), noinline=whole(p, IMPL, CLS, GEN))
        for st, _ in eng.enter(fn):
            for meth, loc in fields.items():
                x = eng.resolve(st, eng.read(st, loc))
                if not (x is NULL or isint(x) and x.a[0] == 0) and (isint(x) or x.op == 'def' or x.op == 'init'):
                    r.bad('settings:default:%s' % meth, '%s is %s in a new watcher' % (meth, 'on' if isint(x) else 'not set'))


class Start(Monitor):
    """watch(): mon = ( made, launched, locked )"""
    init = (False, False)

    def __init__(self, thread, fn, bad):
        self.thread, self.fn, self.bad = thread, fn, bad
        self.n = 0

    def event(self, eng, st, ev):
        made, run = st.mon
        if ev.kind == 'write' and ev.obj is self.thread:
            v = eng.resolve(st, ev.args[0])
            if v.op == 'new' or v is not NULL and not isint(v):
                self.n += 1
                was = eng.truth(st, mk_eq(mk('init', self.thread), NULL))
                if was is not True:
                    self.bad('again', '%s makes a thread at %s although there may be one already: %s' % (self.fn.q, ev.where(), st.path(6)))
                if made:
                    self.bad('twice', '%s makes two threads, the second at %s' % (self.fn.q, ev.where()))
                if not st.locks:
                    self.bad('unlocked', '%s makes a thread at %s without a lock, two calls could make two' % (self.fn.q, ev.where()))
                st.mon = (True, run)
        elif ev.kind == 'thread' and ev.name in ('launch', 'start'):
            self.n += 1
            st.mon = (made, True)


def c24_start(p, r):
    for cls in (CLS, GEN):
        t = thread_field(p, cls)
        for fn in [f for f in p.fns.values() if f.cls == cls and f.n == 'watch']:
            m = Start(t, fn, lambda k, s: r.bad('start:%s:%s' % (cls, k), s))
            eng = Engine(p, m, backend=cls)
            res = eng.enter(fn)
            r.ok(len(res))
            if not m.n:
                r.note('%s: no thread recognised' % fn.q)
                continue
            init = mk('init', t)
            for st, _ in res:
                was = eng.truth(st, mk_eq(init, NULL))
                if not st.mon[1] and was is not False:
                    z = [f for f in st.facts if any(x is not init and field_of(x) and 'mInitOK' in field_of(x) for x in subterms(f))]
                    if not z:
                        r.bad('start:%s:none' % cls, '%s does not start the worker: %s' % (fn.q, st.path(6)))
                elif st.mon[0] and not st.mon[1]:
                    r.bad('start:%s:asleep' % cls, '%s makes a thread and does not launch it: %s' % (fn.q, st.path(6)))
        if not [f for f in p.fns.values() if f.cls == cls and f.n == 'watch']:
            r.bad('start:%s:missing' % cls, '%s has no watch' % cls)


class Made(Monitor):
    init = ()


def c24_backends(p, r):
    """what the constructors of the backends say of themselves"""
    ok = F(p, IMPL, 'mInitOK')
    gen = F(p, IMPL, 'mIsGeneric')
    for cls in (CLS, GEN):
        fns = [f for f in p.fns.values() if f.cls == cls and f.n == cls.split('::')[-1] and not any(cls.split('::')[-1] + ' &' in q['t'].get('s', '') for q in f.params)]
        for fn in fns:
            eng = Engine(p, Made(), backend=cls)
            res = eng.enter(fn)
            r.ok(len(res))
            for st, _ in res:
                o = eng.resolve(st, eng.read(st, mk_fld(mk_obj(THIS), ok)))
                g = eng.resolve(st, eng.read(st, mk_fld(mk_obj(THIS), gen)))
                gv = None if not (isint(g) or g is NULL) else not (g is NULL or g.a[0] == 0)
                ov = None if not (isint(o) or o is NULL) else not (o is NULL or o.a[0] == 0)
                where = '%s: %s' % (fn.q, st.path(8))
                if gv is not None and gv is not (cls == GEN):
                    r.bad('self:generic:%s' % cls, 'the backend says it is %sthe polling one, %s' % ('' if gv else 'not ', where))
                if cls == GEN and ov is False:
                    r.bad('self:ok:%s' % cls, 'the polling backend says it could not be initialised, %s' % where)
                if cls == CLS and ov is not None:
                    ds = [x for f in st.facts for x in subterms(f) if x.op == 'ret' and x.a[0].startswith('inotify_init')]
                    neg = [eng.truth(st, mk_lt(x, NULL)) for x in ds] + [eng.truth(st, mk_eq(x, INT(-1))) for x in ds]
                    if ov and not any(n is False for n in neg):
                        r.bad('self:unchecked:%s' % cls, 'the native backend says it is initialised without a valid descriptor, %s' % where)
                    if not ov and (any(n is False for n in neg) or ds and not any(n is True for n in neg)):
                        r.bad('self:refuses:%s' % cls, 'the native backend says it could not be initialised although it got its descriptor, %s' % where)
                if cls == GEN:
                    fq = [i for i, q in enumerate(fn.params) if 'int' in q['t'].get('s', '')]
                    fr = next((f['n'] for f in p.records[GEN]['fields'] if 'int' in f['t'].get('s', '') and 'req' in f['n']), None)
                    if fr:
                        v = eng.resolve(st, eng.read(st, mk_fld(mk_obj(THIS), fr)))
                        want = P(fn, fq[0]) if fq else INT(1000)
                        if v is not want and known(v):
                            r.bad('self:freq:%d' % len(fn.params), 'the polling backend keeps %s as its frequency instead of %s, %s' % (show(v), show(want), where))


class Pause(Monitor):
    """polling worker: every round sleeps the frequency asked for"""
    init = ()

    def __init__(self, freq):
        self.freq = mk('init', freq)
        self.calls = []

    def event(self, eng, st, ev):
        if ev.kind == 'rcall' and ev.name.endswith('System::sleep'):
            self.calls.append((eng.resolve(st, ev.args[0]), ev.where()))


def c24_pause(p, r):
    fr = next((f['n'] for f in p.records[GEN]['fields'] if 'int' in f['t'].get('s', '') and 'req' in f['n']), None)
    fns = [f for f in p.fns.values() if f.cls == GEN and f.n == 'run']
    if not fr or not fns:
        r.note('the polling worker or its frequency is not recognised')
        return
    m = Pause(mk_fld(mk_obj(THIS), fr))
    eng = Engine(p, m, backend=GEN, noinline=whole(p, 'efsw::WatcherGeneric', 'efsw::DirWatcherGeneric', 'efsw::System', 'efsw::Platform::System'))
    res = eng.enter(fns[0])
    r.ok(len(m.calls))
    for v, at in m.calls:
        if v is not m.freq and known(v):
            r.bad('pause', 'the polling worker sleeps %s instead of the frequency asked for, at %s' % (show(v), at))
    if not m.calls:
        r.note('the pause of the polling worker is not recognised')


@rule('C24', 'Every path of the constructors of FileWatcher is followed with the backends as opaque objects: which one is made, with which frequency, whether it was asked if it could be initialised, which '
      'one is kept and that none is leaked. Every public method is followed to the call it makes on the backend, with its arguments and result. watch() of each backend makes a thread only under a lock '
      'and only when there is none, and launches it. The constructors of the backends set their own state truthfully, the worker of the polling backend sleeps the frequency asked for, each setting '
      'is changed by its setter and returned by its getter.',
      tech='path-sensitive dataflow over the resolved program ( construction, delegation, thread creation typestate )')
def c24(p, tier):
    r = Result()
    for f in (c24_ctor, c24_forward, c24_settings, c24_start, c24_backends, c24_pause):
        r.part(f, p, r)
    return r
