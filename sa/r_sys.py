"""C20: handles and buffers; C21: results of failed calls; C22: the working directory; C23: remote file systems."""
from .prog import AnalysisError
from .engine import *
from .ino import *
from . import r_add, r_api, conc
from .rules import rule, Result

REMOTE = {0x5346414F: 'AFS', 0x61756673: 'AUFS', 0x00C36400: 'CEPH', 0xFF534D42: 'CIFS', 0x73757245: 'CODA', 0x19830326: 'FHGFS',
          0x65735543: 'FUSECTL', 0x01161970: 'GFS', 0x47504653: 'GPFS', 0x6B414653: 'KAFS', 0x0BD00BD0: 'LUSTRE', 0x564C: 'NCP',
          0x6969: 'NFS', 0x6E667364: 'NFSD', 0x7461636F: 'OCFS2', 0xAAD7AAEA: 'PANFS', 0x50495045: 'PIPEFS', 0x517B: 'SMB',
          0xBEEFDEAD: 'SNFS', 0xBACBACBC: 'VMHGFS', 0xA501FCF5: 'VXFS'}
FUSE = 0x65735546
CWD = ('getcwd', 'get_current_dir_name', 'getwd')
STATS = ('stat', 'lstat', 'fstat', 'fstatat')


def walk(t):
    """subterms that belong to the current round of a loop"""
    if not isinstance(t, T):
        return
    yield t
    if t.op in ('old', 'gen'):
        return
    for x in t.a:
        if isinstance(x, T):
            yield from walk(x)
        elif isinstance(x, tuple):
            for y in flat(x):
                yield from walk(y)


def plain(atom, val):
    while atom.op == 'not':
        atom, val = atom.a[0], not val
    return atom, val


def is_ret(t, *names):
    return isinstance(t, T) and t.op == 'ret' and t.a[0] in names


def member(t, name):
    """the object whose field `name` the term is the value of"""
    if t.op == 'proj' and isinstance(t.a[1], str) and t.a[1].split('::')[-1] == name:
        return t.a[0]
    if t.op == 'init' and t.a[0].op == 'fld' and isinstance(t.a[0].a[1], str) and t.a[0].a[1].split('::')[-1] == name:
        b = t.a[0].a[0]
        return b.a[0] if b.op == 'obj' else b
    return None


def failed(atom, val, name):
    """what a branch says about the number returned by `name`: True it failed, False it did not, None nothing"""
    x = next((y for y in atom.a if is_ret(y, name)), None) if atom.op in ('eq', 'lt') else None
    k = next((y.a[0] for y in atom.a if isint(y)), None) if x is not None else None
    if k is None:
        if x is not None and NULL in atom.a:
            k = 0
        else:
            return None
    if atom.op == 'eq':
        f = lambda v: v == k
    elif atom.a[0] is x:
        f = lambda v: v < k
    else:
        f = lambda v: k < v
    fails, oks = f(-1) == val, f(0) == val
    return True if fails and not oks else False if oks and not fails else None


# ---------------------------------------------------------------- C23
class Fs(Monitor):
    """mon: facts about the file system that was asked for"""
    init = ()
    wants_default = True
    wants_got = True

    def __init__(self, r):
        self.r = r
        self.seen = 0

    @staticmethod
    def get(st, k, d=None):
        return next((x[1] for x in st.mon if x[0] == k), d)

    @staticmethod
    def put(st, **kw):
        m = dict(st.mon)
        for k, v in kw.items():
            m[k] = v
            if v is None:
                m.pop(k)
        st.mon = tuple(sorted(m.items(), key=lambda x: x[0]))

    def event(self, eng, st, ev):
        g = lambda k, d=None: self.get(st, k, d)
        if ev.kind == 'got' and ev.name in STATS:
            o = mk('out', ev.name, ev.extra + (len(ev.args) - 1,))
            if ev.args[0] is STR('..'):
                self.put(st, up=o)
            else:
                self.put(st, here=o)
        if ev.kind != 'call':
            return
        if ev.name == 'statfs':
            if not any(x.op == 'param' for x in subterms(ev.args[0])) and known(ev.args[0]):
                self.r.bad('fs:path', 'the file system of %s is looked up instead of that of the directory at %s' % (show(ev.args[0]), ev.where()))
        elif ev.name in STATS:
            self.put(st, up=None, dev=None, ino=None)
        elif ev.name == 'chdir':
            a = ev.args[0]
            if a is STR('..'):
                if g('up') and (g('dev') is not None or g('ino') is not None):
                    if g('dev') is not True:
                        self.r.bad('fs:cross', 'the search for the mount point goes on to the parent directory although it is not known to be on the same device, at %s: %s' % (ev.where(), st.path(8)))
                    if g('ino') is not False:
                        self.r.bad('fs:root', 'the search for the mount point goes on to the parent directory although that may be the same directory, at %s: %s' % (ev.where(), st.path(8)))
                    self.seen += 1
                self.put(st, here=g('up'), up=None)
            elif not g('walk'):
                d = next((v for f, v in st.facts.items() if f.op == 'isdir'), None)
                if d is True and a.op == 'dirname':
                    self.r.bad('fs:start', 'the search for the mount point of a directory starts at its parent, %s' % ev.where())
                self.put(st, walk=1, here=None if a.op == 'dirname' else g('here'))
        elif ev.name in CWD and g('walk') and not g('mp'):
            if g('up') and (g('dev') is not None or g('ino') is not None):
                if not (g('dev') is False or g('ino') is True):
                    self.r.bad('fs:early', 'the search for the mount point ends although the parent is on the same device, at %s: %s' % (ev.where(), st.path(8)))
                self.put(st, mp=1)
        elif ev.name == 'setmntent':
            self.put(st, table=1, drained=None, match=None)

    def branch(self, eng, st, atom, val, fr, line):
        atom, val = plain(atom, val)
        f = failed(atom, val, 'statfs')
        if f is not None:
            self.put(st, failed=f)
        ty = [x for x in subterms(atom) if x.op == 'proj' and str(x.a[1]).split('::')[-1] == 'f_type']
        if ty:
            c = next((x for x in atom.a if isint(x)), None) if atom.op == 'eq' else None
            o = next((x for x in atom.a if x is not c), None) if c is not None else None
            if o is None or not (o is ty[0] or o.op == 'band' and any(isint(x) and x.a[0] & 0xffffffff == 0xffffffff for x in o.a)):
                self.put(st, other=1)
            elif val:
                self.put(st, type=c.a[0] & 0xffffffff)
            else:
                self.put(st, no=self.get(st, 'no', frozenset()) | {c.a[0] & 0xffffffff})
        elif any(x.op == 'out' and x.a[0] == 'statfs' for x in subterms(atom)):
            self.put(st, other=1)
        if atom.op == 'eq':
            for n, k in (('st_dev', 'dev'), ('st_ino', 'ino')):
                if all(isinstance(x, T) and member(x, n) is not None for x in atom.a) and self.get(st, 'up'):
                    self.put(st, **{k: val})
                    o, h = {member(x, n) for x in atom.a}, self.get(st, 'here')
                    if h is not None and o != {h, self.get(st, 'up')} and all(x.op in ('out', 'old', 'gen') for x in o):
                        self.r.bad('fs:other', 'the search for the mount point compares the parent with a directory other than the current one, %s:%s: %s' % (fr.fn.file, line, st.path(8)))
            a = atom.a
            if any(y.op == 'cmp' for y in a) and any(isint(y) and y.a[0] == 0 or y is NULL for y in a):
                a = next(y for y in a if y.op == 'cmp').a
            m = [x for x in a if isinstance(x, T) and member(x, 'mnt_dir') is not None]
            if m:
                o = next((x for x in a if x is not m[0]), None)
                if o is not None and any(is_ret(x, *CWD) or x.op == 'out' and x.a[0] in CWD for x in subterms(o)) and val:
                    self.put(st, match=1)
                elif val:
                    self.put(st, match=0)
            if any(is_ret(x, 'getmntent') for x in a) and NULL in a and val:
                self.put(st, drained=1)
            if any(is_ret(x, 'setmntent') for x in a) and NULL in a and val:
                self.put(st, drained=1)
            d = [x for x in a if isinstance(x, T) and (is_ret(x, *CWD) or member(x, 'mnt_fsname') is not None)]
            if d and EMPTY in a and member(d[0], 'mnt_fsname') is not None:
                self.put(st, noname=val)


def c23_types(p, r):
    q = 'efsw::FileSystem::isRemoteFS'
    fs = [f for f in p.fns.values() if f.q == q]
    if len(fs) != 1:
        raise AnalysisError('%s not found' % q)
    out = Result()
    m = Fs(out)
    eng = Engine(p, m, raw={q, 'efsw::Platform::FileSystem::isRemoteFS'})
    res = eng.enter(fs[0])
    seen, consts = False, set()
    for st, v in res:
        g = lambda k, d=None: m.get(st, k, d)
        v = eng.resolve(st, v)
        b = eng.truth(st, v)
        if isint(v):
            b = v.a[0] != 0
        at = st.path(8)
        ty = g('type')
        if g('failed') is None and ty is None and not g('no'):
            if not g('other') and b is not None:
                out.bad('fs:unasked', 'a directory is taken for %s without asking for its file system: %s' % ('remote' if b else 'local', at))
            continue
        seen = True
        r.ok()
        if g('failed'):
            if b is True:
                out.bad('fs:failed', 'a directory is taken for remote although its file system could not be determined: %s' % at)
            continue
        if g('other'):
            continue
        if ty is None:
            miss = sorted(n for c, n in REMOTE.items() if c not in g('no', ()))
            if FUSE not in g('no', ()):
                miss.append('FUSEBLK')
            if b is True:
                out.bad('fs:default', 'every file system that is not listed is taken for remote: %s' % at)
            elif b is False and miss:
                out.bad('fs:missing', 'file systems of the type %s are taken for local: %s' % (', '.join(miss), at))
            consts |= set(g('no', ()))
        elif ty in REMOTE:
            if b is False:
                out.bad('fs:type:%s' % REMOTE[ty], 'a file system of the type %s (0x%x) is taken for local: %s' % (REMOTE[ty], ty, at))
        elif ty == FUSE:
            fuse(eng, st, g, v, b, at, out)
        elif b is True:
            out.bad('fs:local:%x' % ty, 'a file system of the type 0x%x is taken for remote: %s' % (ty, at))
    r.need('types', len(consts), 22)
    if not seen:
        raise AnalysisError('the call of statfs was not recognised')
    for k, t in out.findings:
        r.bad(k, t)
    r.need('steps_to_mount_point', m.seen, 1)


def fuse(eng, st, g, v, b, at, out):
    """a FUSE block file system is local exactly when the table of mounts names a device for its mount point"""
    neg = False
    e = v
    while e.op == 'not':
        e, neg = e.a[0], not neg
    name = e.op == 'eq' and any(member(x, 'mnt_fsname') is not None for x in e.a) and EMPTY in e.a
    if b is False or name:
        if not g('match') and g('table'):
            out.bad('fs:fuse:match', 'a FUSE file system is taken for local by an entry of the table of mounts that is not that of its mount point: %s' % at)
        elif not g('table') and not g('other2') and b is False:
            out.bad('fs:fuse:local', 'a FUSE file system is taken for local without looking for its device: %s' % at)
        if name and neg:
            out.bad('fs:fuse:neg', 'a FUSE file system with a device is taken for remote, one without for local: %s' % at)
        if b is False and g('noname') is True:
            out.bad('fs:fuse:noname', 'a FUSE file system without a device is taken for local: %s' % at)
    if b is True:
        if g('match') and g('noname') is not True:
            out.bad('fs:fuse:remote', 'a FUSE file system whose mount point has a device is taken for remote: %s' % at)
        elif g('table') and not g('match') and not g('drained'):
            out.bad('fs:fuse:search', 'the search in the table of mounts ends before its end: %s' % at)


@rule('C23', 'the outcome of the classification is computed for every type number and every outcome of the calls it makes; the callers '
      'are followed up to the decision they take',
      ['type numbers of <linux/magic.h> and of the list of the library are those of the kernels in use'],
      'path-sensitive dataflow over the classification of file systems and its callers')
def c23(p, tier):
    r = Result()
    r.part(c23_types, p, r)
    r.part(r_add.report, p, r, ('c23',))
    r.part(r_api.c24_forward, p, r)
    from . import r_tree, r_gen
    r.part(r_tree.tree_part, p, r, ('c23',))
    r.part(r_gen.generic_adder, p, r, ('c13:code:FileRemote',))
    return r


# ---------------------------------------------------------------- C22
CHDIR = ('chdir', 'fchdir')


class Cwd(Monitor):
    """mon = ( where: 'own' | 'other', where before the last change, frames and descriptors that hold the own directory )"""
    init = ('own', 'own', frozenset())

    def __init__(self):
        self.n = 0

    def event(self, eng, st, ev):
        if ev.kind != 'call' or st.mon is None:
            return
        cur, prev, saved = st.mon
        if ev.name in CWD or ev.name == 'open' and ev.args and ev.args[0] is STR('.'):
            k = (ev.name, ev.fr.fid)
            st.mon = (cur, prev, saved | {k} if cur == 'own' else saved - {k})
        elif ev.name in CHDIR:
            self.n += 1
            t = ev.args[0]
            own = any(x.op in ('ret', 'out') and (x.a[0], x.a[1][0]) in saved for x in walk(eng.resolve(st, t))) or \
                any(x.op in ('ret', 'out') and (x.a[0], x.a[1][0]) in saved for x in walk(t))
            # a restoring call is expected to succeed
            st.mon = ('own' if own else 'other', cur, saved)

    def branch(self, eng, st, atom, val, fr, line):
        atom, val = plain(atom, val)
        for n in CHDIR:
            if failed(atom, val, n) is True:
                cur, prev, saved = st.mon
                st.mon = (prev, prev, saved)


def api_roots(p):
    """what a program using the library can start: the public classes, the C functions, the threads"""
    out = set()
    for f in p.fns.values():
        if f.cls in (r_api.FW, r_api.GEN, CLS, 'efsw::FileWatcherImpl', 'efsw::System') or not f.cls and f.n.startswith('efsw_') or f.cls == 'efsw::Thread':
            out.add(f.usr)
    return out


def with_objects(p):
    """the call graph, with the constructors and destructors of local objects"""
    cg = {u: set(v) for u, v in callees(p).items()}
    special = {}
    for f in p.fns.values():
        if f.cls and f.q.split('::')[-1].lstrip('~') == f.cls.split('::')[-1]:
            special.setdefault(f.cls, set()).add(f.usr)
    for f in p.fns.values():
        for d in f.decls.values():
            t = d['t']
            if '*' not in t.get('s', '') and '&' not in t.get('s', '') and t.get('rec', '') in special:
                cg.setdefault(f.usr, set()).update(special[t['rec']])
    return cg


def c22_balance(p, r):
    cg = with_objects(p)
    touching = {f.usr for f in p.fns.values() if any(n['k'] == 'call' and not n.get('repo') and n['n'] in CHDIR + CWD for n in f.nodes.values())}
    direct = {f.usr for f in p.fns.values() if any(n['k'] == 'call' and not n.get('repo') and n['n'] in CHDIR for n in f.nodes.values())}
    if not direct:
        r.ok(1, 'no function changes the working directory')
        return
    touch = {f.usr for f in p.fns.values() if conc.reach(cg, f.usr) & touching or f.usr in touching}
    reach = set()
    for u in api_roots(p):
        reach |= set(conc.reach(cg, u)) | {u}
    callers = {}
    for a, bs in cg.items():
        for b in bs:
            callers.setdefault(b, set()).add(a)

    def above(c):
        """does a caller of it change the directory itself?"""
        seen, w = set(), [c]
        while w:
            for d in callers.get(w.pop(), ()):
                if d in seen or d not in reach:
                    continue
                seen.add(d)
                w.append(d)
                if d in direct or cg.get(d, set()) & direct:
                    return True
        return False
    todo, done, bad = sorted(direct & reach), set(), {}
    while todo:
        u = todo.pop(0)
        if u in done:
            continue
        done.add(u)
        fn = p.fns[u]
        eng = Engine(p, Cwd(), inline=lambda f: f.usr in touch, raw={'efsw::Platform::FileSystem::isRemoteFS', 'efsw::FileSystem::isRemoteFS'})
        res = eng.enter(fn)
        r.ok(len(res), '%s: %d paths' % (fn.q, len(res)))
        w = next((st for st, v in res if st.mon[0] != 'own'), None)
        if w is None:
            continue
        # to be made good by its callers
        up, over = [u], set()
        while up:
            x = up.pop()
            over.add(x)
            cs = [c for c in callers.get(x, ()) if c in reach and c not in over]
            if not cs or x in api_roots(p):
                bad[u] = w
            for c in cs:
                if c in direct or (cg[c] - {x}) & touch:
                    todo.append(c)
                elif wrapper(p.fns[c]) or p.fns[c].q.split('::')[-1].lstrip('~') == (p.fns[c].cls or '').split('::')[-1] or \
                        above(c):
                    up.append(c)
                else:
                    # neither it nor a caller of it could restore it
                    bad[u] = w
    for u, w in bad.items():
        fn = p.fns[u]
        r.bad('cwd:%s' % fn.q, 'there is a path through %s that leaves the process in another working directory: %s' % (fn.q, w.path(10)))
    r.need('functions_that_change_it', len(direct & reach), 1)
    r.counts['functions_analysed'] = len(done)


def wrapper(f):
    """does a function only pass a call on?"""
    return sum(1 for n in f.nodes.values() if n['k'] == 'call' and n.get('repo')) <= 1 and len(f.blocks) <= 3


@rule('C22', 'every function that changes the working directory is followed on all its paths, together with its callers as far as they take part: '
      'at the end the process must be in the directory it started in, restored from a value that was obtained before the first change',
      ['a call that goes back to a directory whose name was obtained before succeeds'],
      'typestate analysis of the working directory over all paths, interprocedural')
def c22(p, tier):
    r = Result()
    r.part(c22_balance, p, r)
    return r


# ---------------------------------------------------------------- C20
PAIRS = {'opendir': ('closedir',), 'fdopendir': ('closedir',), 'setmntent': ('endmntent',), 'fopen': ('fclose',), 'open': ('close',),
         'inotify_init': ('close',), 'inotify_init1': ('close',), 'epoll_create': ('close',), 'epoll_create1': ('close',), 'eventfd': ('close',),
         'dup': ('close',), 'realpath': ('free',), 'malloc': ('free',), 'calloc': ('free',), 'strdup': ('free',), 'get_current_dir_name': ('free',)}
INPLACE = {'pthread_mutex_init': ('pthread_mutex_destroy',), 'pthread_cond_init': ('pthread_cond_destroy',), 'sem_init': ('sem_destroy',),
           'pthread_rwlock_init': ('pthread_rwlock_destroy',), 'pthread_attr_init': ('pthread_attr_destroy',)}
RELEASE = {x for v in list(PAIRS.values()) + list(INPLACE.values()) for x in v}
NUMBER = {'open', 'inotify_init', 'inotify_init1', 'epoll_create', 'epoll_create1', 'eventfd', 'dup'}


def outermost(fr):
    while getattr(fr, 'up', None) is not None:
        fr = fr.up
    return fr


class Held(Monitor):
    """mon = tuple of ( what, handle, state, where ) of the resources a path obtained; state: held, gone"""
    init = ()
    wants_got = True

    def __init__(self, r, fn):
        self.r, self.fn = r, fn
        self.n = {'obtained': 0, 'released': 0, 'handed over': 0}

    def find(self, eng, st, t):
        """entry whose handle t is"""
        t = eng.resolve(st, t)
        for x in st.mon:
            if eng.resolve(st, x[1]) is t or x[1] is t:
                return x
        return None

    def drop(self, st, x, gone=False, where=None):
        st.mon = tuple(y for y in st.mon if y is not x)
        if gone:
            g = tuple(y for y in st.mon if y[2] == 'gone')
            st.mon = tuple(y for y in st.mon if y[2] != 'gone') + (g + ((x[0], x[1], 'gone', where),))[-3:]

    def escape(self, eng, st, t):
        for s in list(walk(t)) + [eng.resolve(st, t)]:
            for x in st.mon:
                if x[1] is s and x[2] == 'held':
                    self.n['handed over'] += 1
                    self.drop(st, x)

    def add(self, eng, st, what, h, ev):
        self.n['obtained'] += 1
        for x in st.mon:
            if x[1] is h:
                st.mon = tuple(y for y in st.mon if y is not x)
        st.mon += ((what, h, 'held', ev.where()),)

    def release(self, eng, st, x, by, ev, want):
        if x[2] == 'gone':
            self.r.bad('twice:%s:%s' % (x[0], self.fn.q), 'what %s obtained by %s is released again at %s, it was released at %s: %s' % (self.fn.q, x[0], ev.where(), x[3], st.path(8)))
            return
        self.n['released'] += 1
        if by not in want:
            self.r.bad('wrong:%s:%s' % (x[0], self.fn.q), 'what was obtained by %s at %s is released by %s at %s' % (x[0], x[3], by, ev.where()))
        self.drop(st, x, True, ev.where())

    def event(self, eng, st, ev):
        k = ev.kind
        if k == 'got' and ev.name in PAIRS:
            if ev.name == 'realpath' and not (len(ev.args) > 1 and (ev.args[1] is NULL or isint(ev.args[1]))):
                return
            self.add(eng, st, ev.name, ev.obj, ev)
        elif k == 'got' and ev.name in INPLACE and ev.args and ev.args[0].op == 'addr':
            self.add(eng, st, ev.name, ev.args[0], ev)
        elif k == 'call' and ev.name in RELEASE:
            x = self.find(eng, st, ev.args[0]) if ev.args else None
            if x is not None:
                self.release(eng, st, x, ev.name, ev, PAIRS.get(x[0]) or INPLACE.get(x[0]) or ('delete',))
        elif k == 'call':
            for a in ev.args:
                x = self.find(eng, st, a) if isinstance(a, T) else None
                if x is not None and x[2] == 'gone':
                    self.r.bad('after:%s:%s' % (x[0], self.fn.q), 'what %s obtained by %s is used by %s at %s although it was released at %s: %s' %
                               (self.fn.q, x[0], ev.name, ev.where(), x[3], st.path(8)))
        elif k == 'new':
            self.add(eng, st, 'new[]' if ev.extra == 'array' else 'new', ev.obj, ev)
        elif k == 'delete':
            if ev.extra == 'reset':
                self.escape(eng, st, ev.args[0])
                return
            x = self.find(eng, st, ev.obj)
            if x is not None:
                by = 'delete[]' if ev.extra == 'array' else 'delete'
                self.release(eng, st, x, by, ev, {'new': ('delete',), 'new[]': ('delete[]',)}.get(x[0]) or PAIRS.get(x[0], ()))
        elif k in ('rcall', 'ctor', 'mut', 'cb', 'thread', 'pcall'):
            for a in ev.args:
                if isinstance(a, T):
                    self.escape(eng, st, a)
        elif k == 'write':
            v = ev.args[0] if ev.args else None
            if isinstance(v, T) and not self.local(ev.obj) and not (ev.obj.op == 'fld' and is_string(eng.field_type(ev.obj.a[1]) or {})):
                self.escape(eng, st, v)
        elif k == 'ret':
            if getattr(ev.fr, 'up', None) is None and ev.args and isinstance(ev.args[0], T) and not is_string(self.fn.ret):
                v = eng.resolve(st, ev.args[0])
                self.escape(eng, st, v)

    def local(self, loc):
        while isinstance(loc, T) and loc.op in ('fld', 'idx', 'item'):
            loc = loc.a[0]
        return isinstance(loc, T) and loc.op in ('v', 'tmp')

    def branch(self, eng, st, atom, val, fr, line):
        atom, val = plain(atom, val)
        if atom.op not in ('eq', 'lt'):
            return
        for x in st.mon:
            if x[2] != 'held' or x[0] in INPLACE or not any(y is x[1] for y in atom.a):
                continue
            if x[0] in NUMBER:
                if failed(atom, val, x[0]) is True:
                    self.drop(st, x)
            elif atom.op == 'eq' and val and any(y is NULL or isint(y) and y.a[0] == 0 for y in atom.a):
                self.drop(st, x)


def owns(f):
    """does the function itself obtain or release something?"""
    for n in f.nodes.values():
        if n['k'] == 'call' and not n.get('repo') and (n['n'] in PAIRS or n['n'] in INPLACE or n['n'] in RELEASE):
            return True
        if n['k'] in ('new', 'delete'):
            return True
    return False


def obtains(f):
    return any(n['k'] == 'call' and not n.get('repo') and (n['n'] in PAIRS or n['n'] in INPLACE) or n['k'] == 'new' for n in f.nodes.values())


def c20_local(p, r):
    tot = {}
    seen = 0
    for fn in sorted(p.fns.values(), key=lambda f: (f.q, f.usr)):
        if not obtains(fn):
            continue
        seen += 1
        if len(fn.blocks) > 60:
            r.part(c20_flow, p, r, fn, tot)
        else:
            r.part(c20_function, p, r, fn, tot)
    r.counts.update(tot)
    r.need('functions_that_obtain', seen, 9)


def c20_flow(p, r, fn, tot):
    """a large function: what is kept in a local variable, followed through the flow graph without regard to values"""
    N = fn.nodes

    def var(i):
        while isinstance(i, int) and N[i]['k'] in ('load', 'decay', 'icast', 'tobool'):
            i = N[i].get('sub')
        return N[i]['d'] if isinstance(i, int) and N[i]['k'] == 'var' else None

    def source(i):
        while isinstance(i, int) and N[i]['k'] in ('load', 'icast'):
            i = N[i].get('sub')
        if not isinstance(i, int):
            return None
        n = N[i]
        if n['k'] == 'new':
            return 'new[]' if n.get('array') else 'new'
        if n['k'] == 'call' and not n.get('repo') and n['n'] in PAIRS and n['n'] != 'realpath':
            return n['n']
        return None
    # d -> what
    got = {}
    for b in fn.blocks.values():
        for e in b['e']:
            if e['k'] == 'decl':
                for v in e['vars']:
                    if source(v.get('init')):
                        got[v['d']] = source(v.get('init'))
            elif e['k'] == 'e' and N[e['n']]['k'] == 'assign' and source(N[e['n']].get('r')) and var(N[e['n']].get('l')) is not None:
                got[var(N[e['n']]['l'])] = source(N[e['n']]['r'])
    for d, what in sorted(got.items()):
        name = fn.decls[d]['name']
        if 'unique_ptr' in fn.decls[d]['t'].get('s', '') or 'shared_ptr' in fn.decls[d]['t'].get('s', ''):
            continue
        want = {'new': ('delete',), 'new[]': ('delete[]',)}.get(what) or PAIRS[what]

        def effects(b):
            for e in b['e']:
                if e['k'] == 'decl':
                    for v in e['vars']:
                        if v['d'] == d:
                            yield 'get', e.get('line', 0)
                        elif var(v.get('init')) == d:
                            yield 'lost', 0
                elif e['k'] == 'ret' and var(e.get('v')) == d:
                    yield 'lost', 0
                elif e['k'] == 'e':
                    n = N[e['n']]
                    if n['k'] == 'assign':
                        if var(n.get('l')) == d:
                            yield ('get' if source(n.get('r')) else 'lost'), n.get('line', 0)
                        elif var(n.get('r')) == d:
                            yield 'lost', 0
                    elif n['k'] == 'delete' and var(n.get('sub')) == d:
                        by = 'delete[]' if n.get('array') else 'delete'
                        yield ('put' if by in want else 'wrong'), n.get('line', 0)
                    elif n['k'] == 'call' and not n.get('repo') and n['n'] in RELEASE and any(var(a) == d for a in n['args']):
                        yield ('put' if n['n'] in want else 'wrong'), n.get('line', 0)
                    elif n['k'] in ('ctor', 'initlist', 'lambda') or n['k'] == 'call' and n.get('repo'):
                        if any(var(a) == d for a in n.get('args', ())) or n['k'] == 'lambda' and any(c.get('d') == d for c in n.get('caps', ()) if isinstance(c, dict)):
                            yield 'lost', 0

        seen, todo = set(), [(fn.entry, 'none', 0, False)]
        while todo:
            bid, state, line, unsure = todo.pop()
            if (bid, state, unsure) in seen:
                continue
            seen.add((bid, state, unsure))
            b = fn.blocks[bid]
            for k, l in effects(b):
                at = '%s:%s' % (fn.file, l)
                if k == 'lost':
                    state = 'lost'
                elif k == 'get':
                    if state == 'held' and not unsure:
                        r.bad('leak:%s:%s' % (what, fn.q), 'there is a path through %s on which %s is obtained again at %s although it still holds what %s gave' % (fn.q, name, at, what))
                    state, line, unsure = 'held', l, False
                elif k == 'wrong' and state == 'held':
                    r.bad('wrong:%s:%s' % (what, fn.q), 'what %s obtained by %s is released in another way at %s' % (fn.q, what, at))
                    state = 'gone'
                elif k == 'put':
                    if state == 'gone' and not unsure:
                        r.bad('twice:%s:%s' % (what, fn.q), 'there is a path through %s on which %s is released twice, at %s' % (fn.q, name, at))
                    state = 'gone'
                    tot['released'] = tot.get('released', 0) + 1
            if bid == fn.exit:
                r.ok()
                if state == 'held' and not unsure:
                    r.bad('leak:%s:%s' % (what, fn.q), 'there is a path through %s on which %s, obtained by %s at line %s, is not released' % (fn.q, name, what, line))
            t = b.get('term') or {}
            u = unsure
            if isinstance(t.get('cond'), int) and mentions(N, t['cond'], d):
                u = True
            for x in b['s']:
                if x is not None:
                    todo.append((x, state, line, u))
        tot['obtained'] = tot.get('obtained', 0) + 1


def mentions(N, i, d, depth=0):
    if not isinstance(i, int) or depth > 12:
        return False
    n = N[i]
    if n['k'] == 'var' and n.get('d') == d:
        return True
    return any(mentions(N, x, d, depth + 1) for k in ('sub', 'l', 'r', 'base', 'obj', 'c', 'a', 'b') for x in [n.get(k)]) or \
        any(mentions(N, x, d, depth + 1) for x in n.get('args', ()))


def c20_function(p, r, fn, tot):
    out = Result()
    m = Held(out, fn)
    heavy = {f.usr for f in p.fns.values() if len(f.blocks) > 60}
    eng = Engine(p, m, inline=lambda f: owns(f) and f.usr not in heavy and f.file == fn.file, raw={fn.q, 'efsw::FileInfo'}, havoc=False)
    eng.insert_new = True
    res = eng.enter(fn)
    for st, v in res:
        r.ok()
        for x in st.mon:
            if x[2] != 'held':
                continue
            if x[0] in INPLACE and not m.local(x[1].a[0]) or isinstance(v, T) and not is_string(fn.ret) and any(s is x[1] for s in walk(eng.resolve(st, v))):
                continue
            out.bad('leak:%s:%s' % (x[0], fn.q), 'there is a path through %s on which what was obtained by %s at %s is not released: %s' % (fn.q, x[0], x[3], st.path(8)))
    for k, t in out.findings:
        r.bad(k, t)
    for k, v in m.n.items():
        tot[k] = tot.get(k, 0) + v


def owner_fields(p):
    """class -> { field: what it owns } by the stores of newly obtained handles into fields of `this`"""
    out = {}

    class W(Monitor):
        init = ()
        wants_got = True

        def event(self, eng, st, ev):
            if ev.kind == 'got' and ev.name in PAIRS:
                st.mon += ((ev.obj, ev.name),)
            elif ev.kind == 'new':
                st.mon += ((ev.obj, 'new[]' if ev.extra == 'array' else 'new'),)
            elif ev.kind == 'write' and ev.obj.op == 'fld' and ev.obj.a[0] is mk_obj(THIS):
                v = eng.resolve(st, ev.args[0])
                for h, what in st.mon:
                    if h is v:
                        out.setdefault(self.cls, {}).setdefault(ev.obj.a[1], set()).add(what)
            st.mon = st.mon[-6:]

    for fn in sorted(p.fns.values(), key=lambda f: f.usr):
        if not fn.cls or not obtains(fn) or len(fn.blocks) > 60 or fn.static:
            continue
        m = W()
        m.cls = fn.cls
        try:
            Engine(p, m, inline=lambda f: False, raw={fn.q}, havoc=False).enter(fn)
        except AnalysisError:
            continue
    for c in out:
        fs = {x['n']: x['t'].get('s', '') for x in p.records[c]['fields']}
        out[c] = {k: v for k, v in out[c].items() if k in fs and ('*' in fs[k] and 'ptr' not in fs[k] or fs[k] == 'int')}
    return {c: v for c, v in out.items() if v}


class Owned(Monitor):
    """mon = per owned field: 'has', 'gone'"""
    wants_got = True

    def __init__(self, r, fn, fields, dtor):
        self.r, self.fn, self.fields, self.dtor = r, fn, fields, dtor
        self.init = ()
        self.fresh = set()
        self.n = 0

    def get(self, st, F):
        return next((v for k, v in st.mon if k == F), None)

    def put(self, st, F, v):
        st.mon = tuple(sorted([x for x in st.mon if x[0] != F] + ([(F, v)] if v else [])))

    def is_field(self, eng, st, t):
        t = eng.resolve(st, t)
        for F in self.fields:
            if t.op == 'init' and t.a[0] is mk_fld(mk_obj(THIS), F):
                return F
        return None

    def event(self, eng, st, ev):
        F, by = None, None
        if ev.kind == 'got' and ev.name in PAIRS or ev.kind == 'new':
            self.fresh.add(ev.obj)
        if ev.kind == 'delete':
            x = ev.obj
            for k, v in st.mon:
                if isinstance(v, tuple) and v[1] is eng.resolve(st, x):
                    self.put(st, k, 'gone')
                    return
            F, by = self.is_field(eng, st, x), ('delete[]' if ev.extra == 'array' else 'delete')
        elif ev.kind == 'call' and ev.name in RELEASE and ev.args:
            F, by = self.is_field(eng, st, ev.args[0]), ev.name
        elif ev.kind in ('rcall', 'ctor', 'mut') or ev.kind == 'write' and not (ev.obj.op == 'fld' and ev.obj.a[0] is mk_obj(THIS)):
            for a in ev.args:
                F = self.is_field(eng, st, a) if isinstance(a, T) else None
                if F is not None and self.get(st, F) is None and (ev.kind != 'rcall' or self.dtor):
                    self.put(st, F, 'lent')
            return
        elif ev.kind == 'write' and ev.obj.op == 'fld' and ev.obj.a[0] is mk_obj(THIS) and ev.obj.a[1] in self.fields and ev.extra != 'init':
            F = ev.obj.a[1]
            old = mk('init', ev.obj)
            cur = self.get(st, F)
            if isinstance(cur, tuple) and cur[1] is not eng.resolve(st, ev.args[0]):
                self.r.bad('lost:%s' % F, 'what %s owns is given up at %s without having been released: %s' % (F, ev.where(), st.path(8)))
            if cur is None and not self.ctor() and not self.empty(eng, st, F) and eng.resolve(st, ev.args[0]) is not old:
                self.r.bad('lost:%s' % F, 'what %s owns is given up at %s without having been released: %s' % (F, ev.where(), st.path(8)))
            v = ev.args[0]
            self.put(st, F, 'none' if v is NULL or isint(v) and v.a[0] == (-1 if self.fields[F] & NUMBER else 0) else ('set', eng.resolve(st, v)) if any(v is h for h in self.fresh) else 'set')
            return
        if F is None:
            return
        self.n += 1
        if self.get(st, F) == 'gone':
            self.r.bad('owner:twice:%s' % F, '%s is released twice, at %s: %s' % (F, ev.where(), st.path(8)))
        ok = set()
        for w in self.fields[F]:
            ok |= set({'new': ('delete',), 'new[]': ('delete[]',)}.get(w) or PAIRS[w])
        if by not in ok:
            self.r.bad('owner:wrong:%s' % F, '%s was obtained by %s and is released by %s at %s' % (F, '/'.join(sorted(self.fields[F])), by, ev.where()))
        self.put(st, F, 'gone')

    def ctor(self):
        return self.fn.cls and self.fn.q.split('::')[-1] == self.fn.cls.split('::')[-1]

    def empty(self, eng, st, F):
        v = mk('init', mk_fld(mk_obj(THIS), F))
        if self.fields[F] & NUMBER:
            return eng.truth(st, mk_lt(v, NULL)) is True or eng.truth(st, mk_lt(v, INT(0))) is True or eng.truth(st, mk_eq(v, INT(-1))) is True
        return eng.truth(st, mk_eq(v, NULL)) is True

    def branch(self, eng, st, atom, val, fr, line):
        atom, val = plain(atom, val)
        if atom.op not in ('eq', 'lt'):
            return
        for F in self.fields:
            v = mk('init', mk_fld(mk_obj(THIS), F))
            if any(y is v for y in atom.a) and self.get(st, F) is None:
                k = next((y for y in atom.a if y is not v), None)
                if k is None or not (isint(k) or k is NULL):
                    continue
                n = 0 if k is NULL else k.a[0]
                if self.fields[F] & NUMBER:
                    f = (lambda x: x == n) if atom.op == 'eq' else (lambda x: x < n) if atom.a[0] is v else (lambda x: n < x)
                    # descriptors: only the one value of failure can remain
                    if f(-1) == val and f(0) != val and f(3) != val and f(100) != val:
                        self.put(st, F, 'none')
                elif atom.op == 'eq' and n == 0 and val:
                    self.put(st, F, 'none')


def c20_owners(p, r):
    own = owner_fields(p)
    n = 0
    for c, fields in sorted(own.items()):
        dtors = [f for f in p.fns.values() if f.cls == c and f.q.split('::')[-1] == '~' + c.split('::')[-1]]
        n += len(fields)
        if not dtors:
            for F in fields:
                r.bad('owner:nodtor:%s' % F, '%s owns what %s gave it, but %s has no destructor that releases it' % (F, '/'.join(sorted(fields[F])), c))
            continue
        for fn in [f for f in p.fns.values() if f.cls == c and not f.static]:
            isd = fn in dtors
            if not isd and not owns(fn) or len(fn.blocks) > 60:
                continue
            r.part(c20_owner, p, r, c, fields, fn, isd)
    r.need('owning_fields', n, 4)


def c20_owner(p, r, c, fields, fn, isd):
    out = Result()
    m = Owned(out, fn, fields, isd)
    small = {f.usr for f in p.fns.values() if len(f.blocks) <= 20 and owns(f)}
    eng = Engine(p, m, inline=(lambda f: f.usr in small) if isd else (lambda f: f.usr in small and f.cls == c), raw={fn.q}, havoc=False)
    res = eng.enter(fn)
    for st, v in res:
        r.ok()
        for F in fields:
            s = m.get(st, F)
            if isd:
                if s in ('gone', 'none', 'lent') or m.empty(eng, st, F):
                    continue
                out.bad('owner:leak:%s' % F, 'there is a path through %s on which %s is not released: %s' % (fn.q, F, st.path(8)))
            elif s == 'gone':
                cur = eng.read(st, mk_fld(mk_obj(THIS), F))
                if eng.resolve(st, cur) is mk('init', mk_fld(mk_obj(THIS), F)):
                    out.bad('owner:dangling:%s' % F, 'there is a path through %s at whose end %s still refers to what was released: %s' % (fn.q, F, st.path(8)))
    r.counts['owner_releases'] = r.counts.get('owner_releases', 0) + m.n
    for k, t in out.findings:
        r.bad(k, t)


@rule('C20', 'every function that obtains a handle, an object or a buffer is followed on all paths until it is released, handed to a table or returned; '
      'what a field owns is released by the destructor on all paths and never given up before',
      ['exceptions are not thrown: the library is used without handling them'],
      'typestate analysis of resources over all paths; ownership of fields')
def c20(p, tier):
    r = Result()
    r.part(c20_local, p, r)
    r.part(c20_owners, p, r)
    return r


# ---------------------------------------------------------------- C21
# what a call fills in, and the values of its result that mean it did not
FILLS = {'stat': ((1,), 'zero'), 'lstat': ((1,), 'zero'), 'fstat': ((1,), 'zero'), 'fstatat': ((2,), 'zero'), 'statfs': ((1,), 'zero'),
         'fstatfs': ((1,), 'zero'), 'statvfs': ((1,), 'zero'), 'getrlimit': ((1,), 'zero'), 'realpath': ((1,), 'ptr'), 'getcwd': ((0,), 'ptr'),
         'readlink': ((1,), 'num'), 'read': ((1,), 'num'), 'opendir': ((), 'ptr'), 'readdir': ((), 'ptr'), 'setmntent': ((), 'ptr'),
         'getmntent': ((), 'ptr'), 'fopen': ((), 'ptr'), 'get_current_dir_name': ((), 'ptr'), 'getenv': ((), 'ptr'), 'uname': ((0,), 'zero'),
         'sysctl': ((2,), 'zero'), 'clock_gettime': ((1,), 'zero')}
VALUES = {'zero': (-1, 0), 'num': (-1, 0, 1, 7, 100000), 'ptr': (0, 1)}
BAD = {'zero': (-1,), 'num': (-1,), 'ptr': (0,)}
HARMLESS = {'free', 'memset', 'bzero'}


class Fill(Monitor):
    """mon = tuple of ( call, its result, the values the result can still have, buffers, where )"""
    init = ()
    wants_got = True

    def __init__(self, r, fn, undefs=True):
        self.r, self.fn, self.undefs = r, fn, undefs
        self.calls = {}
        self.fns = [fn]
        self.uses = 0

    def entry(self, st, name, site):
        for x in st.mon:
            if x[0] == name and x[1] == site:
                return x
        return None

    def may_fail(self, x):
        return any(v in x[2] for v in BAD[FILLS[x[0]][1]])

    def use(self, eng, st, t, how, where):
        if not isinstance(t, T):
            return
        for s in list(walk(t)) + (list(walk(eng.resolve(st, t))) if t.op != 'str' else []):
            if s.op == 'out' and s.a[0] in FILLS:
                x = self.entry(st, s.a[0], s.a[1][:2])
                if x is not None:
                    self.uses += 1
                    if self.may_fail(x):
                        self.r.bad('fail:%s:%s' % (x[0], self.fn.q), '%s %s what %s at %s fills in although it may have failed: %s' % (where, how, x[0], x[4], st.path(8)))
            elif s.op == 'undef' and self.undefs and self.scalar(s):
                self.r.bad('undef:%s:%s' % (show(s), self.fn.q), '%s %s %s, which has no value: %s' % (where, how, show(s), st.path(8)))

    def scalar(self, s):
        # a plain local variable
        return len(s.a) == 2 and isinstance(s.a[0], str) and any(d['name'] == s.a[0] and d['t'].get('k') in ('int', 'ptr', 'bool', 'float', 'enum') for f in self.fns for d in f.decls.values())

    def pointer(self, eng, st, t, how, where):
        """t is looked through"""
        if t.op != 'ret':
            t = eng.resolve(st, t)
        if t.op == 'ret' and t.a[0] in FILLS and FILLS[t.a[0]][1] == 'ptr':
            x = self.entry(st, t.a[0], t.a[1])
            if x is not None:
                self.uses += 1
                if self.may_fail(x):
                    self.r.bad('null:%s:%s' % (x[0], self.fn.q), '%s %s the result of %s at %s although it may be NULL: %s' % (where, how, x[0], x[4], st.path(8)))

    def inner(self, eng, st, t, how, where):
        """results whose fields are read within t"""
        if not isinstance(t, T):
            return
        for s in walk(t):
            for n in ('d_name', 'mnt_dir', 'mnt_fsname', 'd_type', 'd_ino'):
                m = member(s, n)
                if m is not None:
                    self.pointer(eng, st, m, how, where)

    def event(self, eng, st, ev):
        k = ev.kind
        if k == 'got' and ev.name in FILLS:
            bufs = tuple(eng.resolve(st, ev.args[i]) for i in FILLS[ev.name][0] if i < len(ev.args) and isinstance(ev.args[i], T))
            self.calls[(ev.name, ev.where())] = 1
            st.mon = tuple(x for x in st.mon if x[:2] != (ev.name, ev.extra))[-7:] + ((ev.name, ev.extra, VALUES[FILLS[ev.name][1]], bufs, ev.where()),)
        elif k in ('call', 'rcall', 'cb', 'mut', 'ctor', 'query', 'stat'):
            fills = FILLS.get(ev.name, ((),))[0] if k == 'call' else ()
            for i, a in enumerate(ev.args):
                if not isinstance(a, T):
                    continue
                if k == 'call' and ev.name in HARMLESS:
                    continue
                if i not in fills:
                    self.use(eng, st, a, 'passes on to %s' % ev.name, ev.where())
                    self.inner(eng, st, a, 'looks into', ev.where())
                    b = eng.resolve(st, a)
                    for x in st.mon:
                        if b.op == 'addr' and any(y is b for y in x[3]) and self.may_fail(x) and k == 'call' and not any(z[3] and any(y is b for y in z[3]) and z is not x for z in st.mon):
                            self.r.bad('buffer:%s:%s' % (x[0], self.fn.q), '%s passes on to %s the buffer %s at %s fills in although it may have failed: %s' % (ev.where(), ev.name, x[0], x[4], st.path(8)))
                if k == 'call' and ev.name not in ('closedir',) or k == 'call':
                    self.pointer(eng, st, a, 'passes on to %s' % ev.name, ev.where())
        elif k == 'write' and ev.obj is not None:
            loc = ev.obj
            if ev.args and isinstance(ev.args[0], T):
                if not (loc.op in ('v', 'tmp')):
                    b = loc
                    while b.op in ('fld', 'idx', 'item'):
                        b = b.a[0]
                    if b.op not in ('v', 'tmp'):
                        self.use(eng, st, ev.args[0], 'stores', ev.where())
                self.inner(eng, st, ev.args[0], 'looks into', ev.where())
            for s in walk(loc):
                if s.op == 'ret' and s.a[0] in FILLS and loc.op != 'obj' and FILLS[s.a[0]][1] == 'num':
                    x = self.entry(st, s.a[0], s.a[1])
                    if x is not None and self.may_fail(x):
                        self.r.bad('index:%s:%s' % (x[0], self.fn.q), '%s uses the result of %s at %s as a position although it may have failed: %s' % (ev.where(), x[0], x[4], st.path(8)))
        elif k == 'decl' and ev.args and isinstance(ev.args[0], T):
            if any(d['name'] == ev.name and is_string(d['t']) and '*' not in d['t'].get('s', '') for d in ev.fr.fn.decls.values()):
                self.pointer(eng, st, ev.args[0], 'makes a string of', ev.where())
            self.inner(eng, st, ev.args[0], 'looks into', ev.where())

    def branch(self, eng, st, atom, val, fr, line):
        atom, val = plain(atom, val)
        at = '%s:%s' % (fr.fn.file, line)
        hit = None
        if atom.op in ('eq', 'lt'):
            for x in st.mon:
                mine = next((y for y in atom.a if y.op == 'ret' and y.a[0] == x[0] and y.a[1] == x[1]), None)
                if mine is not None:
                    o = next((y for y in atom.a if y is not mine), None)
                    if o is not None and (isint(o) or o is NULL):
                        n = 0 if o is NULL else o.a[0]
                        first = atom.a[0] is mine
                        f = (lambda v: v == n) if atom.op == 'eq' else (lambda v: v < n) if first else (lambda v: n < v)
                        left = tuple(v for v in x[2] if f(v) == val)
                        if left:
                            st.mon = tuple((x[0], x[1], left, x[3], x[4]) if y is x else y for y in st.mon)
                            hit = x
        if hit is None:
            self.use(eng, st, atom, 'decides by', at)
            self.inner(eng, st, atom, 'looks into', at)


def fills(f):
    return len(f.blocks) <= 60 and any(n['k'] == 'call' and not n.get('repo') and n['n'] in FILLS for n in f.nodes.values())


def c21_calls(p, r):
    fs = [f for f in p.fns.values() if fills(f)]
    near = set()
    for f in p.fns.values():
        if f not in fs and any(u in {g.usr for g in fs if g.file == f.file and not (g.cls or '').startswith('efsw::FileInfo')} for u in callees(p).get(f.usr, ())):
            near.add(f.usr)
    todo = sorted(fs + [p.fns[u] for u in near], key=lambda f: (f.q, f.usr))
    tot = {'functions': 0, 'calls': {}, 'uses': 0}
    for fn in todo:
        if len(fn.blocks) > 60:
            continue
        r.part(c21_function, p, r, fn, tot)
    r.counts.update({'functions': tot['functions'], 'uses': tot['uses']})
    r.need('calls_that_fill_in', len(tot['calls']), 14)


def c21_function(p, r, fn, tot):
    out = Result()
    m = Fill(out, fn)
    leafs = {f.q for f in p.fns.values() if fills(f)}
    eng = Engine(p, m, inline=lambda f: fills(f) or len(f.blocks) <= 8 and f.file == fn.file and any(fills(p.fns[u]) for u in conc.reach(callees(p), f.usr) if u in p.fns),
                 raw={fn.q, 'efsw::FileInfo', 'efsw::Platform::FileSystem::isRemoteFS'} | leafs, havoc=False)
    res = eng.enter(fn)
    tot['functions'] += 1
    for st, v in res:
        r.ok()
        if isinstance(v, T):
            at = '%s returns a value made from' % fn.q
            m.use(eng, st, v, '', at)
            m.inner(eng, st, v, '', at)
            if is_string(fn.ret):
                m.pointer(eng, st, v, 'makes a string of', fn.q)
    for k, t in out.findings:
        r.bad(k, t)
    tot['calls'].update(m.calls)
    tot['uses'] += m.uses


SCALAR = ('int', 'ptr', 'bool', 'float', 'enum')


def c21_fields(p, r):
    """every constructor gives every plain field a value, or whoever creates the object does"""
    n = 0
    for fn in sorted(p.fns.values(), key=lambda f: (f.q, f.usr)):
        if not fn.cls or fn.q.split('::')[-1] != fn.cls.split('::')[-1] or fn.cls not in p.records or len(fn.blocks) > 40:
            continue
        fields = [x for x in p.records[fn.cls]['fields'] if x['t'].get('k') in SCALAR]
        if not fields:
            continue
        if len(fn.params) == 1 and fn.cls in fn.params[0]['t'].get('s', ''):
            continue
        eng = Engine(p, Monitor(), raw={fn.cls}, inline=lambda g: g.cls == fn.cls, havoc=False)
        try:
            res = eng.enter(fn)
        except AnalysisError as e:
            r.note('%s: not decided: %s' % (fn.q, e))
            continue
        for st, v in res:
            for x in fields:
                n += 1
                t = eng.read(st, mk_fld(mk_obj(THIS), x['n']))
                if t.op == 'undef' or t.op == 'init' and t.a[0] is mk_fld(mk_obj(THIS), x['n']):
                    if not completed(p, fn.cls, x['n']):
                        r.bad('field:%s:%d' % (x['n'], len(fn.params)), 'there is a path through the constructor %s( %s ) that gives %s no value: %s' %
                              (fn.q, ', '.join(q['t'].get('s', '?') for q in fn.params), x['n'], st.path(6)))
    r.obligations += n
    r.need('fields_of_constructors', n, 40)


def completed(p, cls, F):
    """does every function that creates a cls itself store a value in the field?"""
    made = [f for f in p.fns.values() if any(n['k'] == 'new' and cls in str(n.get('t', {}).get('s', '')) for n in f.nodes.values())]
    for f in made:
        if not any(n['k'] == 'assign' and isinstance(n.get('l'), int) and f.nodes[n['l']]['k'] == 'mem' and f.nodes[n['l']].get('f') == F for n in f.nodes.values()):
            return False
    local = any(d['t'].get('rec') == cls and '*' not in d['t'].get('s', '') and '&' not in d['t'].get('s', '') for f in p.fns.values() for d in f.decls.values())
    return bool(made) and not local


@rule('C21', 'every function that makes a call which fills in a structure, a buffer or a handle is followed on all paths: what it fills in must not decide, '
      'be stored, passed on or returned where its result does not exclude failure; every constructor gives every plain field a value',
      [], 'path-sensitive dataflow over the results and outputs of system calls; definite initialisation of fields')
def c21(p, tier):
    r = Result()
    r.part(c21_calls, p, r)
    r.part(c21_fields, p, r)
    return r
