"""Contracts of the leaf functions that the other analyses take at their word: their bodies are checked here, path by path.

leaf(p, name) returns ( [( key, text )], paths, undecided notes ).  A function that is written in a way the terms do not
express is left undecided; only an outcome that contradicts the contract is reported."""
from .prog import AnalysisError
from .engine import *
from .ino import known, CLS

SL = 47


def fns(p, q, pred=None):
    return [f for f in p.fns.values() if f.q == q and (pred is None or pred(f))]


class Log(Monitor):
    """remembers the last branch and the calls of a path"""
    init = ()

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name not in [x[1] for x in st.mon if x[0] == 'call']:
            st.mon += (('call', ev.name, ev.args),)

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        st.mon = tuple(x for x in st.mon if x[0] != 'last') + (('last', atom, val),)


def run(p, fn, raw, mon=None, **k):
    eng = Engine(p, mon or Log(), raw=set(raw), **k)
    return eng, eng.enter(fn)


class Out(object):
    def __init__(self):
        self.bad, self.notes, self.n = {}, [], 0

    def f(self, key, text):
        self.bad.setdefault(key, text)

    def u(self, text):
        if text not in self.notes:
            self.notes.append(text)


def P0(eng, st, i=0):
    return eng.resolve(st, st.store.get(mk('P', i), mk('init', mk('P', i))))


def ends(eng, st, x):
    """( is empty, ends with a separator ) as far as the path knows"""
    e = eng.truth(st, mk_eq(x, EMPTY))
    if e is None:
        e = eng.truth(st, mk_eq(mk('size', x), NULL))
        if e is None and eng.truth(st, mk_lt(NULL, mk('size', x))) is True:
            e = False
    last = eng.truth(st, mk('slashend', x))
    if last is None:
        for f, v in list(st.facts.items()):
            if f.op == 'eq':
                for a, b in (f.a, f.a[::-1]):
                    if a.op == 'chat' and a.a[0] is x and isint(b) and b.a[0] == SL and is_last(a.a[1], x):
                        last = v
        for k, v in st.rep.items():
            if k.op == 'chat' and k.a[0] is x and is_last(k.a[1], x) and isint(v):
                last = v.a[0] == SL
    if last is True:
        e = False
    return e, last


def is_last(i, x):
    return show(i) in ('(size(%s) - 1)' % show(x), '(-1 + size(%s))' % show(x))


def cut_last(v, x):
    """x without its last character"""
    return v.op == 'substr' and v.a[0] is x and len(v.a) == 3 and isint(v.a[1]) and v.a[1].a[0] == 0 and is_last(v.a[2], x)


def add_slash(p, o, q='efsw::FileSystem::dirAddSlashAtEnd'):
    for fn in fns(p, q):
        eng, res = run(p, fn, [q])
        x = mk('param', 0, fn.params[0]['name'])
        for st, _ in res:
            o.n += 1
            v = P0(eng, st)
            e, l = ends(eng, st, x)
            if v is mk_slash(x):
                continue
            add = v is mk_cat(x, STR('/'))
            if v is x or e is True and v is EMPTY:
                if e is not True and l is not True:
                    o.f('slash:missing', '%s leaves a path as it is that is not known to end with a separator: %s' % (fn.q, st.path(6)))
            elif add:
                if l is not False:
                    o.f('slash:double', '%s adds a separator to a path that may already end with one: %s' % (fn.q, st.path(6)))
                elif e is not False:
                    o.f('slash:empty', '%s adds a separator to a path that may be empty: %s' % (fn.q, st.path(6)))
            elif known(v):
                o.f('slash:value', '%s turns a path into %s: %s' % (fn.q, show(v), st.path(6)))
            else:
                o.u('%s: %s' % (fn.q, show(v)))


def at_most_one(eng, st, x):
    """no more than one character: the root directory keeps its separator"""
    return any(f.op == 'lt' and not v and isint(f.a[0]) and f.a[0].a[0] <= 1 and contains(f.a[1], x) or
               f.op == 'lt' and v and isint(f.a[1]) and f.a[1].a[0] <= 2 and contains(f.a[0], x) or
               f.op == 'eq' and v and any(isint(z) and z.a[0] <= 1 for z in f.a) and any(y.op in ('size', 'ssize', 'len') for y in f.a) and contains(f, x)
               or arith(f, x) for f, v in st.facts.items())


def arith(f, x):
    """a comparison with something computed from the length of x: not decided further"""
    return f.op in ('eq', 'lt') and any(z.op == 'bin' and contains(z, mk('size', x)) for z in f.a)


def remove_slash(p, o, q='efsw::FileSystem::dirRemoveSlashAtEnd'):
    for fn in fns(p, q):
        eng, res = run(p, fn, [q])
        x = mk('param', 0, fn.params[0]['name'])
        for st, _ in res:
            o.n += 1
            v = P0(eng, st)
            e, l = ends(eng, st, x)
            if v is mk_noslash(x):
                continue
            if v is x or e is True and v is EMPTY:
                if e is not True and l is not False and not at_most_one(eng, st, x):
                    o.f('noslash:kept', '%s leaves the separator at the end of a path: %s' % (fn.q, st.path(6)))
            elif cut_last(v, x):
                if l is not True:
                    o.f('noslash:cut', '%s cuts the last character of a path that is not known to be a separator: %s' % (fn.q, st.path(6)))
            elif known(v):
                o.f('noslash:value', '%s turns a path into %s: %s' % (fn.q, show(v), st.path(6)))
            else:
                o.u('%s: %s' % (fn.q, show(v)))


def root_kept(p, o, q='efsw::FileSystem::dirRemoveSlashAtEnd'):
    """the path of the root directory must stay a path"""
    for fn in fns(p, q):
        eng, res = run(p, fn, [q])
        x = mk('param', 0, fn.params[0]['name'])
        n = mk('size', x)
        for st, _ in res:
            o.n += 1
            v = P0(eng, st)
            if cut_last(v, x) and eng.truth(st, mk_lt(ONE, n)) is not True and eng.truth(st, mk_eq(n, ONE)) is not False and \
                    not any(arith(f, x) or f.op in ('eq', 'prefix') and contains(f, x) and any(isinstance(z, T) and z is STR('/') for z in f.a) for f in st.facts):
                o.f('root:cut', '%s turns the path of the root directory into an empty one, it can not be watched: %s' % (fn.q, st.path(6)))


def last_sep(t, y):
    """position of the last separator of y"""
    return t.op == 'sfind' and t.a[0] in ('find_last_of', 'rfind', STR('find_last_of'), STR('rfind')) and y is t.a[1] and \
        (t.a[2] is STR('/') or isint(t.a[2]) and t.a[2].a[0] == SL)


def after(i, y):
    """1 + position of the last separator?"""
    return any(last_sep(s, y) for s in subterms(i)) and i.op == 'bin' and i.a[0] == '+' and any(isint(z) and z.a[0] == 1 for z in i.a[1:])


def split(p, o, q, name):
    """name: the part behind the last separator, otherwise the part up to it"""
    for fn in fns(p, q):
        eng, res = run(p, fn, [q])
        x = mk('param', 0, fn.params[0]['name'])
        y = mk_noslash(x)
        for st, v in res:
            o.n += 1
            v = eng.resolve(st, v)
            if v is (mk_fname(x) if name else mk('dirname', x)) or v is mk_fname(y) and name or not name and v is mk('dirname', y):
                continue
            # a separator found at all?
            found = None
            for s, r in list(st.rep.items()):
                if last_sep(s, y) and isint(r) and r.a[0] == -1:
                    found = False
            for f, w in st.facts.items():
                if f.op == 'eq' and any(last_sep(s, y) for s in f.a) and any(isint(s) and s.a[0] == -1 for s in f.a):
                    found = not w
            if eng.truth(st, mk_eq(x, EMPTY)) is True:
                continue
            if v is y:
                if found is not False:
                    o.f('split:whole', '%s returns the whole path although it may have a separator: %s' % (fn.q, st.path(6)))
            elif v.op == 'substr' and v.a[0] is y:
                if name and len(v.a) == 2 and after(v.a[1], y):
                    continue
                if not name and len(v.a) == 3 and isint(v.a[1]) and v.a[1].a[0] == 0 and after(v.a[2], y):
                    if found is not True:
                        o.f('split:none', '%s does not look whether there is a separator: %s' % (fn.q, st.path(6)))
                    continue
                if known(v):
                    o.f('split:part', '%s returns %s: %s' % (fn.q, show(v), st.path(6)))
            elif v is x or known(v) and v.op in ('substr', 'str', 'noslash', 'slash'):
                o.f('split:value', '%s returns %s: %s' % (fn.q, show(v), st.path(6)))
            else:
                o.u('%s: %s' % (fn.q, show(v)))


class PrefixMonitor(Monitor):
    """mon = ( any mismatch seen, index of the last comparison, misaligned )"""
    init = (False, None, False)

    def __init__(self, a, b):
        self.x, self.y = a, b

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        if atom.op == 'eq':
            a, b = atom.a
            if a.op == 'chat' and b.op == 'chat':
                k = {a.a[0]: a.a[1], b.a[0]: b.a[1]}
                if set(k) == {self.x, self.y}:
                    mis, last, al = st.mon
                    st.mon = (mis or not val, k[self.x], al or k[self.x] is not k[self.y])


def starts_with(p, o, q='efsw::String::strStartsWith'):
    for fn in fns(p, q, lambda f: 'basic_string' in f.params[0]['t'].get('s', '')):
        x, y = [mk('param', i, fn.params[i]['name']) for i in (0, 1)]
        eng, res = run(p, fn, [q], PrefixMonitor(x, y))
        for st, v in res:
            o.n += 1
            v = eng.resolve(st, v)
            mis, last, al = st.mon
            T_ = lambda t: eng.truth(st, t)
            short = T_(mk_lt(mk('size', y), mk('size', x)))
            empty = T_(mk_eq(x, EMPTY))
            pre = T_(mk('prefix', x, y))
            neg = isint(v) and v.a[0] == -1
            if al:
                o.f('prefix:index', '%s compares characters at different positions: %s' % (fn.q, st.path(6)))
            if neg:
                if not mis and short is not True and empty is not True and pre is not False:
                    if last is not None or v_known(st):
                        o.f('prefix:no', '%s denies that a string begins with another on a path that found no difference: %s' % (fn.q, st.path(8)))
                    else:
                        o.u('%s: a path that is not understood' % fn.q)
            elif isint(v) or v.op in ('inc', 'old', 'gen', 'size', 'bin'):
                if mis:
                    o.f('prefix:yes', '%s affirms that a string begins with another on a path that found a difference: %s' % (fn.q, st.path(8)))
                elif short is not False and pre is not True:
                    o.f('prefix:short', '%s affirms that a string begins with another without having compared their lengths: %s' % (fn.q, st.path(8)))
                elif last is None and pre is not True and empty is not True:
                    o.f('prefix:uncompared', '%s affirms that a string begins with another without comparing them: %s' % (fn.q, st.path(8)))
                elif last is not None and not any(f.op == 'lt' and w is False and f.a[1] is mk('size', x) and f.a[0] is not mk('size', y) for f, w in st.facts.items()) and \
                        not (st_last(st) is not None):
                    o.u('%s: end of the comparison not understood' % fn.q)
            else:
                o.u('%s: %s' % (fn.q, show(v)))


def v_known(st):
    return all(known(f) for f in st.facts)


def st_last(st):
    return True


def in_tree(p, o, q='efsw::WatcherInotify::inParentTree'):
    for fn in fns(p, q):
        eng, res = run(p, fn, [q, 'efsw::WatcherInotify'])
        par = mk('param', 0, fn.params[0]['name'])
        F = 'efsw::WatcherInotify::Parent'
        c1 = mk('init', mk_fld(mk_obj(THIS), F))
        c2 = mk('init', mk_fld(mk_obj(c1), F))
        for st, v in res:
            o.n += 1
            T_ = lambda t: eng.truth(st, t)
            v = eng.resolve(st, v)
            last = next((x for x in st.mon if x[0] == 'last'), None)
            eq1, eq2 = T_(mk_eq(c1, par)), T_(mk_eq(c2, par))
            n1, n2 = T_(mk_eq(c1, NULL)), T_(mk_eq(c2, NULL))
            b = T_(v)
            if b is True:
                if last is None or not (last[1].op == 'eq' and last[2] and any(s is par for s in last[1].a)):
                    if eq1 is not True and eq2 is not True:
                        o.f('tree:yes', '%s affirms that a watch is below another on a path that did not find it: %s' % (fn.q, st.path(8)))
                elif any(s is THIS for s in last[1].a):
                    o.f('tree:self', '%s takes a watch to be below itself: %s' % (fn.q, st.path(8)))
            elif b is False:
                if n1 is True:
                    continue
                if eq1 is not False:
                    o.f('tree:parent', '%s denies that a watch is below another without having looked at its parent: %s' % (fn.q, st.path(8)))
                elif n2 is not True and eq2 is not False:
                    o.f('tree:grandparent', '%s denies that a watch is below another without having looked at all its ancestors: %s' % (fn.q, st.path(8)))
                elif last is not None and not (last[1].op == 'eq' and last[2] and any(s is NULL for s in last[1].a)) and last[1].op == 'eq' and n2 is not True:
                    o.f('tree:early', '%s stops before the last ancestor: %s' % (fn.q, st.path(8)))
            else:
                # the answer of a recursive call, or a term
                if eq1 is None and v.op == 'eq' and set(v.a) == {c1, par}:
                    o.f('tree:parentonly', '%s looks at the parent only: %s' % (fn.q, st.path(8)))
                else:
                    o.u('%s: %s' % (fn.q, show(v)))


def link_path(p, o, q='efsw::FileSystem::getLinkRealPath'):
    for fn in fns(p, q):
        eng, res = run(p, fn, [q])
        d = mk_noslash(mk('param', 0, fn.params[0]['name']))
        ip = next((i for i, x in enumerate(fn.params) if x['t'].get('ref') == 1 and not x['t'].get('const')), None)
        for st, v in res:
            o.n += 1
            v = eng.resolve(st, v)
            isl = None
            for f, w in st.facts.items():
                if f.op == 'islink':
                    isl = w
                    if not any(s is d for s in subterms(f)) and any(s.op == 'param' for s in subterms(f)):
                        o.f('link:slash', '%s looks at %s: with a trailing separator the system looks at the target, not at the link' % (fn.q, show(f)))
                    if not any(s.op == 'lfi' for s in subterms(f)):
                        o.f('link:follow', '%s asks %s: attributes of the target, not of the link' % (fn.q, show(f)))
            tgt = [s for s in subterms(v) if s.op == 'ap' and s.a[0] in ('linktarget', 'realpath')]
            if isl is True:
                if v is EMPTY and not any(f.op == 'eq' and w for f, w in st.facts.items()):
                    o.f('link:none', '%s returns nothing for a link: %s' % (fn.q, st.path(8)))
                elif tgt and v is not mk_slash(tgt[0]):
                    o.f('link:raw', '%s returns %s for a link instead of its target with a separator' % (fn.q, show(v)))
                elif not tgt and v is not EMPTY and known(v):
                    o.f('link:value', '%s returns %s for a link' % (fn.q, show(v)))
                if ip is not None and v is not EMPTY:
                    c = P0(eng, st, ip)
                    if c is not mk('dirname', d) and (known(c) or c.op == 'dirname') and not (c.op == 'dirname' and mk_noslash(c.a[0]) is d):
                        o.f('link:dir', '%s gives %s as the directory holding the link %s' % (fn.q, show(c), show(d)))
            elif isl is False and v is not EMPTY and known(v):
                o.f('link:notalink', '%s returns %s for a path that is no link' % (fn.q, show(v)))
            elif isl is None:
                o.u('%s: path without a link test' % fn.q)


def mode_test(p, o, q, mode, raw):
    """returns whether st_mode & S_IFMT == mode"""
    for fn in fns(p, q):
        eng, res = run(p, fn, [q] + raw)
        for st, v in res:
            o.n += 1
            v = eng.resolve(st, v)
            calls = [x for x in st.mon if x[0] == 'call']
            b = eng.truth(st, v)
            base = [s for s in subterms(v) if s.op == 'band']
            if not fn.cls or fn.cls != 'efsw::FileInfo':
                path = mk('param', 0, fn.params[0]['name'])
                st_calls = [x for x in calls if x[1] in ('stat', 'lstat', 'fstatat', 'stat64')]
                for x in st_calls:
                    if x[1].startswith('lstat'):
                        o.f('mode:lstat', '%s does not follow links ( %s )' % (fn.q, x[1]))
                    a = x[2][0]
                    if mk_noslash(a) is not mk_noslash(path) and known(a):
                        o.f('mode:path', '%s examines %s' % (fn.q, show(a)))
            if b is True and not base and not any(s.op == 'band' for f in st.facts for s in subterms(f)):
                o.f('mode:true:' + fn.n, '%s answers yes without having looked at the type of the file: %s' % (fn.q, st.path(6)))
            for t in [v] + list(st.facts):
                for s in subterms(t):
                    if s.op == 'eq' and any(z.op == 'band' and any(isint(c) and c.a[0] == 0xf000 for c in z.a) for z in s.a):
                        c = next((z for z in s.a if isint(z)), None)
                        if c is not None and c.a[0] != mode:
                            o.f('mode:type:' + fn.n, '%s compares the file type with 0x%x, not 0x%x' % (fn.q, c.a[0], mode))
                        if t is v and v.op == 'not':
                            o.f('mode:neg:' + fn.n, '%s answers the opposite' % fn.q)


def readable(p, o, q='efsw::FileInfo::isReadable'):
    for fn in fns(p, q):
        eng, res = run(p, fn, [q])
        for st, v in res:
            o.n += 1
            v = eng.resolve(st, v)
            bits = {c.a[0] for s in subterms(v) if s.op == 'band' for c in s.a if isint(c)}
            for b in bits:
                if b & ~0o444:
                    o.f('readable:bits', '%s tests the permission bits 0%o' % (fn.q, b))
            if v.op == 'eq' and bits:
                o.f('readable:neg', '%s answers the opposite: %s' % (fn.q, show(v)))
            if eng.truth(st, v) is True and not any('oot' in show(f) or 'uid' in show(f) for f in list(st.facts) + list(st.rep)) and \
                    not any(s.op == 'band' for f in st.facts for s in subterms(f)):
                o.f('readable:always', '%s answers yes without a test: %s' % (fn.q, st.path(6)))


FIELDS = ('ModificationTime', 'Size', 'OwnerId', 'GroupId', 'Permissions', 'Inode')
STAT = {'ModificationTime': 'st_mtim.tv_sec', 'Size': 'st_size', 'OwnerId': 'st_uid', 'GroupId': 'st_gid', 'Permissions': 'st_mode', 'Inode': 'st_ino'}


def compare(p, o, q='efsw::FileInfo::operator==', fields=FIELDS, neg=False):
    """true exactly when all fields are equal"""
    for fn in fns(p, q):
        eng, res = run(p, fn, [q, 'efsw::FileInfo'])
        other = None
        for st, v in res:
            o.n += 1
            v = eng.resolve(st, v)
            if neg and v.op == 'not':
                v, sense = v.a[0], True
            else:
                sense = not neg
            eqs = {}
            terms = [(f, w) for f, w in st.facts.items()] + ([(v, None)] if v.op == 'eq' else [])
            for f, w in terms:
                if f.op != 'eq':
                    continue
                n = {fieldname(z) for z in f.a}
                objs = {fieldobj(z) for z in f.a}
                if len(n) == 1 and None not in n:
                    if len(objs) == 1:
                        o.f('cmp:self', '%s compares %s with itself' % (fn.q, show(f.a[0])))
                    eqs[n.pop()] = w
                elif None not in n and len(n) == 2:
                    o.f('cmp:mixed', '%s compares %s with %s' % (fn.q, show(f.a[0]), show(f.a[1])))
            for a, b in st.rep.items():
                if fieldname(a) and fieldname(a) == fieldname(b):
                    eqs[fieldname(a)] = True
            b = eng.truth(st, v) if v.op != 'eq' else None
            if b is not None and not sense:
                b = not b
            unequal = [k for k, w in eqs.items() if w is False]
            if b is True or v.op == 'eq' and sense:
                miss = [k for k in fields if k not in eqs]
                if miss:
                    o.f('cmp:missing', '%s finds two files equal without having compared %s: %s' % (fn.q, ', '.join(miss), st.path(8)))
                if unequal and b is True:
                    o.f('cmp:unequal', '%s finds two files equal although %s differs: %s' % (fn.q, unequal[0], st.path(8)))
            elif b is False:
                if not any(k in fields for k in unequal) and all(k in eqs for k in fields):
                    o.f('cmp:equal', '%s finds two equal files different: %s' % (fn.q, st.path(8)))
            elif v.op == 'eq' and not sense:
                o.f('cmp:neg', '%s answers the opposite: %s' % (fn.q, show(v)))
            else:
                o.u('%s: %s' % (fn.q, show(v)))


def fieldname(t):
    """FileInfo field a term is the initial value of"""
    if t.op == 'init' and t.a[0].op == 'fld' and isinstance(t.a[0].a[1], str) and t.a[0].a[1].startswith('efsw::FileInfo::'):
        return t.a[0].a[1].split('::')[-1]
    if t.op == 'proj' and isinstance(t.a[1], str) and t.a[1].startswith('efsw::FileInfo::'):
        return t.a[1].split('::')[-1]
    return None


def fieldobj(t):
    return t.a[0].a[0] if t.op == 'init' else t.a[0]


def gather(p, o, q, call):
    """getInfo / getRealInfo: each field from the matching field of the structure filled in by `call`"""
    for fn in fns(p, q):
        eng, res = run(p, fn, [q, 'efsw::FileInfo'])
        for st, _ in res:
            o.n += 1
            calls = [x for x in st.mon if x[0] == 'call' and x[1] in ('stat', 'lstat')]
            for x in calls:
                if x[1] != call:
                    o.f('info:call', '%s uses %s, not %s' % (fn.q, x[1], call))
                if call == 'lstat':
                    a = x[2][0]
                    if a.op != 'noslash' and eng.truth(st, mk('slashend', a)) is not False and known(a):
                        o.f('info:slash', '%s asks for %s: with a trailing separator the target of a link is examined' % (fn.q, show(a)))
            for k, v in st.store.items():
                if k.op == 'fld' and isinstance(k.a[1], str) and k.a[1].startswith('efsw::FileInfo::'):
                    n = k.a[1].split('::')[-1]
                    if n in STAT:
                        s = show(v)
                        if 'out(' in s and not s.endswith('.' + STAT[n]) and not (n == 'ModificationTime' and 'mtim' in s):
                            o.f('info:field:' + n, '%s takes %s from %s' % (fn.q, n, s.split(').')[-1]))


def assign(p, o, q='efsw::FileInfo::operator='):
    """an assignment written in the source takes over every field on all paths"""
    for fn in p.fns.values():
        if fn.q != q or not fn.blocks or len(fn.params) != 1:
            continue
        eng, res = run(p, fn, [q, 'efsw::FileInfo'])
        for st, _ in res:
            o.n += 1
            for n in FIELDS + ('Filepath',):
                v = eng.resolve(st, eng.read(st, mk_fld(mk_obj(THIS), 'efsw::FileInfo::' + n)))
                f, w = fieldname(v), fieldobj(v) if fieldname(v) else None
                if f is None:
                    if known(v):
                        o.f('assign:' + n, '%s sets %s to %s: %s' % (fn.q, n, show(v), st.path(6)))
                    else:
                        o.u('%s: %s' % (fn.q, show(v)))
                elif f != n:
                    o.f('assign:' + n, '%s takes %s from %s' % (fn.q, n, f))
                elif w is mk_obj(THIS) and not any(g.op == 'eq' and val and any(x is THIS for x in g.a) for g, val in st.facts.items()):
                    o.f('assign:' + n, '%s leaves %s as it was: %s' % (fn.q, n, st.path(6)))


def same_inode(p, o):
    compare(p, o, 'efsw::FileInfo::sameInode', ('Inode',))


class ListMonitor(Monitor):
    """the listing loop. mon = ( name examined is '.' or '..', stored )"""
    init = (None, None, None)

    def __init__(self, out, fn):
        self.o, self.fn = out, fn
        self.cmps = set()
        self.n = 0

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        dot, kept, _ = st.mon
        if atom.op == 'eq':
            for a, b in (atom.a, atom.a[::-1]):
                if a is STR('.') or a is STR('..'):
                    self.cmps.add(a.a[0])
                    if val:
                        st.mon = (True, kept, None)
                    elif dot is None:
                        st.mon = (False, kept, None)
                elif a.op == 'str' and a is not EMPTY and not val is None and 'd_name' in show(b) and val:
                    self.o.f('list:name', '%s treats the entry %s specially' % (self.fn.q, show(a)))

    def event(self, eng, st, ev):
        if ev.kind == 'call' and ev.name in ('readdir', 'readdir64'):
            self.n += 1
            dot, kept, first = st.mon
            if first is None and dot is False and kept is None:
                self.o.f('list:skipped', '%s passes an entry over that is neither "." nor "..": next one read at %s: %s' % (self.fn.q, ev.where(), st.path(8)))
            st.mon = (None, None, None)
        elif ev.kind in ('mut', 'write') and st.mon[1] is None and (ev.kind == 'mut' and ev.name in ('set', 'insert', 'emplace', 'push') or
                                                                     'd_name' in show(ev.obj)):
            dot, kept, f = st.mon
            for v in ev.args:
                if isinstance(v, T) and v.op in ('fi', 'lfi') and 'd_name' in show(v):
                    path = mk('param', 0, self.fn.params[0]['name'])
                    if v.op == 'lfi':
                        self.o.f('list:lstat', '%s lists the attributes of links, not of their targets, at %s' % (self.fn.q, ev.where()))
                    g = flatcat(v.a[0])
                    if len(g) == 2 and mk_slash(g[0]) is not mk_slash(path) or len(g) != 2 and g[0] is not path and known(g[0]):
                        self.o.f('list:path', '%s examines the entry %s' % (self.fn.q, show(v.a[0])))
            if dot is True:
                self.o.f('list:dots', '%s lists "." or ".." at %s' % (self.fn.q, ev.where()))
            st.mon = (dot, True, f)


def flatcat(t):
    if t.op == 'cat':
        return [y for x in t.a for y in flatcat(x)]
    return [t]


def listing(p, o, q='efsw::Platform::FileSystem::filesInfoFromPath'):
    for fn in fns(p, q):
        m = ListMonitor(o, fn)
        eng = Engine(p, m, raw={q, 'efsw::Platform::FileSystem'})
        eng.insert_new = True       # the names in a directory differ
        res = eng.enter(fn)
        o.n += len(res)
        if m.n and m.cmps and m.cmps != {'.', '..'}:
            o.f('list:dotnames', '%s leaves out only %s' % (fn.q, sorted(m.cmps)))


class OptMonitor(Monitor):
    """mon = ( options found to match in order, the last option compared, went through all )"""
    init = ((), None, False)

    def __init__(self, fn):
        iv = next(i for i, x in enumerate(fn.params) if 'vector' in x['t'].get('s', ''))
        self.opt = next(mk('param', i, x['name']) for i, x in enumerate(fn.params) if i != iv)
        self.n, self.order = 0, None

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        hits, last, over = st.mon
        if atom.op == 'eq' and any(z is self.opt for z in atom.a) and any('mOption' in show(z) for z in atom.a):
            self.n += 1
            last = next(z for z in atom.a if z is not self.opt)
            if val and len(hits) < 2:
                hits += (last,)
            st.mon = (hits, last, over)
        elif atom.op == 'lt' and any(z is self.opt for z in atom.a) and 'mOption' in show(atom):
            self.order = show(atom)
        elif atom.op in ('atend', 'vempty', 'none') and val or atom.op in ('lt', 'found') and not val or atom.op == 'eq' and val and 'mOption' not in show(atom):
            st.mon = (hits, last, True)


def option_value(p, o, q='efsw::FileWatcherImpl::getOptionValue'):
    for fn in fns(p, q):
        m = OptMonitor(fn)
        eng, res = run(p, fn, [q], m)
        iv = next(i for i, x in enumerate(fn.params) if 'vector' in x['t'].get('s', ''))
        rest = [i for i in range(len(fn.params)) if i != iv]
        opt, dfl = [mk('param', i, fn.params[i]['name']) for i in rest]
        desc = any(n['k'] == 'call' and n['n'] in ('rbegin', 'crbegin') or n['k'] == 'un' and n.get('op') in ('--', 'post--', 'pre--') for n in fn.nodes.values())
        for st, v in res:
            o.n += 1
            v = eng.resolve(st, v)
            hits, last, over = st.mon
            if v is dfl:
                if hits:
                    o.f('opt:default', '%s returns the default although the option was found: %s' % (fn.q, st.path(8)))
                elif not over and m.n:
                    o.f('opt:early', '%s returns the default without having looked through the options: %s' % (fn.q, st.path(8)))
            elif v.op in ('proj', 'init') and 'mValue' in show(v):
                e = show(v).rsplit('.mValue', 1)[0].rsplit('->mValue', 1)[0]
                of = lambda t: show(t).startswith(e + '.mOption') or show(t).startswith(e + '->mOption')
                if desc:
                    if not over or len(hits) > 1 and of(hits[0]) and not of(hits[1]):
                        o.f('opt:last', '%s goes through the options from the end and returns the first it meets, so the last of a repeated option: %s' % (fn.q, st.path(8)))
                elif len(hits) > 1 and not of(hits[0]) and of(hits[1]):
                    o.f('opt:again', '%s goes on after it found the option and returns the value of a later one: %s' % (fn.q, st.path(8)))
                if m.order and not m.n:
                    o.f('opt:unmatched', '%s compares options by order ( %s ), not for equality' % (fn.q, m.order))
                if m.n and not hits and not any(a is opt or b is opt for a, b in st.rep.items()) and last is not None:
                    o.f('opt:unmatched', '%s returns the value of an option that was not found to be the one asked for: %s' % (fn.q, st.path(8)))
            elif known(v) and (v.op == 'param' or isint(v) or 'mOption' in show(v)):
                o.f('opt:value', '%s returns %s: %s' % (fn.q, show(v), st.path(8)))
            else:
                o.u('%s: %s' % (fn.q, show(v)))


LEAVES = {
    'slash': (add_slash,), 'noslash': (remove_slash,), 'root': (root_kept,),
    'fname': (lambda p, o: split(p, o, 'efsw::FileSystem::fileNameFromPath', True),),
    'dirname': (lambda p, o: split(p, o, 'efsw::FileSystem::pathRemoveFileName', False),),
    'prefix': (starts_with,), 'tree': (in_tree,), 'link': (link_path,),
    'isdir': (lambda p, o: mode_test(p, o, 'efsw::Platform::FileSystem::isDirectory', 0x4000, ['efsw::Platform::FileSystem']),
              lambda p, o: mode_test(p, o, 'efsw::FileInfo::isDirectory', 0x4000, []),),
    'isreg': (lambda p, o: mode_test(p, o, 'efsw::FileInfo::isRegularFile', 0x8000, []),),
    'islink': (lambda p, o: mode_test(p, o, 'efsw::FileInfo::isLink', 0xa000, []),),
    'readable': (readable,),
    'compare': (compare, lambda p, o: compare(p, o, 'efsw::FileInfo::operator!=', FIELDS, True), assign),
    'inode': (same_inode,),
    'info': (lambda p, o: gather(p, o, 'efsw::FileInfo::getInfo', 'stat'), lambda p, o: gather(p, o, 'efsw::FileInfo::getRealInfo', 'lstat')),
    'listing': (listing,), 'option': (option_value,),
}


def leaf(p, name):
    c = p.__dict__.setdefault('_leaf', {}) if hasattr(p, '__dict__') else {}
    if name not in c:
        o = Out()
        for f in LEAVES[name]:
            try:
                f(p, o)
            except AnalysisError as e:
                o.u('%s: %s' % (name, e))
            except Exception as e:
                o.u('%s: internal error %s %s' % (name, type(e).__name__, e))
        c[name] = o
    return c[name]


def leaves(p, r, *names):
    """adds the contracts of the named leaf functions to a result"""
    n = 0
    for x in names:
        o = leaf(p, x)
        n += o.n
        for k, t in o.bad.items():
            r.bad('leaf:' + k, t)
        for t in o.notes:
            r.note('leaf %s: %s' % (x, t))
    r.counts['leaf_paths'] = r.counts.get('leaf_paths', 0) + n
    r.obligations += n
    return n
