"""Path-sensitive dataflow over the extracted CFGs.

The abstract state of a program point is a value numbering of memory (every
value is an interned term over the function's inputs), the set of branch facts
known to hold, the locks held, and the state of the property's monitor (a
typestate).  States are propagated along the CFG to a fixpoint; two states meet
only when they are equal.  Symbols are named by the program point that creates
them; when a point is reached again (a loop) the previous symbol is renamed to
a summary symbol, so the domain stays finite.  Calls to functions of the
repository are followed (context sensitive), everything else is modelled by
name (standard containers and strings, system calls) or becomes an event with an
unknown result.  No path condition is handed to a solver: contradictory
branches are recognised by constants, equalities and recorded facts only.
"""
import signal
import threading
import time

from .prog import AnalysisError, Fn

# ---------------------------------------------------------------- terms


class T(object):
    __slots__ = ('op', 'a', 'id', 'sy', 'depth', 'old', 'lv')

    def __repr__(self):
        return show(self)


_tab = {}
SYMS = {'ret', 'hv', 'ek', 'new', 'inc', 'undef', 'out', 'cv', 'big', 'any'}


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        sy = set()
        lv = set()
        d = 0
        for x in a:
            if isinstance(x, T):
                sy |= x.sy
                lv |= x.lv
                d = max(d, x.depth)
            elif isinstance(x, tuple):
                for y in flat(x):
                    sy |= y.sy
                    lv |= y.lv
                    d = max(d, y.depth)
        if op == 'v':
            lv.add(t)
        elif op in ('inc', 'ek', 'cv', 'old', 'gen'):
            lv = ()
        t.lv = frozenset(lv)
        if op in SYMS or op == 'old' or op == 'gen':
            sy.add(t)
        if op == 'old' or op == 'gen':      # gen: one single earlier instance; old: summary of earlier instances
            sy = {t}
        t.sy = frozenset(sy)
        t.old = any(s.op == 'old' for s in t.sy)
        t.depth = d + 1
        _tab[key] = t
    return t


def flat(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, (tuple, list, frozenset)):
        for y in x:
            for z in flat(y):
                yield z


def INT(n):
    return mk('int', int(n))


def STR(s):
    return mk('str', s)


NULL = INT(0)
ONE = INT(1)
THIS = mk('this')
EMPTY = STR('')
EMPTYC = mk('list', ())


def subst(t, m, memo=None):
    """m: dict term->term"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if isinstance(t, T):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'old' or t.op == 'gen':
            return t
        na = tuple(_subst(x, m, memo) if isinstance(x, (T, tuple, frozenset)) else x for x in t.a)
        r = t if all(x is y for x, y in zip(na, t.a)) else rebuild(t.op, na)
        memo[t] = r
        return r
    if isinstance(t, tuple):
        na = tuple(_subst(x, m, memo) if isinstance(x, (T, tuple, frozenset)) else x for x in t)
        return t if all(x is y for x, y in zip(na, t)) else na
    if isinstance(t, frozenset):
        return frozenset(_subst(x, m, memo) if isinstance(x, (T, tuple, frozenset)) else x for x in t)
    return t


def rebuild(op, a):
    f = MKS.get(op)
    return f(*a) if f else mk(op, *a)


def contains(t, s):
    """s (any term) occurs in t"""
    if t is s:
        return True
    if isinstance(t, T):
        return any(contains(x, s) for x in t.a if isinstance(x, (T, tuple)))
    if isinstance(t, tuple):
        return any(contains(x, s) for x in t if isinstance(x, (T, tuple)))
    return False


def subterms(t):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(y for y in x.a if isinstance(y, (T, tuple)))
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)


def short(q):
    return q.split('::')[-1]


def show(t):
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            return '(' + ', '.join(show(x) for x in t) + ')'
        return str(t)
    o, a = t.op, t.a
    if o == 'int':
        return str(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'this':
        return 'this'
    if o == 'param':
        return a[1] if len(a) > 1 else 'arg%d' % a[0]
    if o == 'init':
        return show(a[0])
    if o == 'fld':
        b = a[0]
        if b.op == 'obj':
            return show(b.a[0]) + '->' + short(a[1])
        return show(b) + '.' + short(a[1])
    if o == 'obj':
        return '*' + show(a[0])
    if o == 'addr':
        return '&' + show(a[0])
    if o == 'v':
        return a[2] if len(a) > 2 else 'v%d' % a[1]
    if o == 'P':
        return 'P%d' % a[0]
    if o == 'g':
        return a[0].split('@')[-1]
    if o == 'proj':
        return show(a[0]) + '.' + short(a[1])
    if o == 'elem':
        return '%s[%s]' % (show(a[0]), show(a[1]))
    if o == 'k':
        return show(a[0])
    if o in ('hv', 'cv'):
        return show(a[0])
    if o == 'ek':
        return '#i%s' % (a[-1],)
    if o == 'ret':
        return '%s()@%s' % (a[0], a[-1])
    if o == 'ap':
        return '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1:]))
    if o == 'old' or o == 'gen':
        return 'earlier(%s)' % show(a[0])
    if o == 'eq':
        return '%s == %s' % (show(a[0]), show(a[1]))
    if o == 'lt':
        return '%s < %s' % (show(a[0]), show(a[1]))
    if o == 'not':
        return '!(%s)' % show(a[0])
    if o == 'cat':
        return ' + '.join(show(x) for x in a)
    if o == 'new':
        return 'new %s' % short(a[0])
    if o == 'undef':
        return 'uninitialised(%s)' % (a[0],)
    if o == 'bin':
        return '(%s %s %s)' % (show(a[1]), a[0], show(a[2]))
    if o == 'band':
        return '(%s & 0x%x)' % (show(a[0]), a[1].a[0] if a[1].op == 'int' else 0)
    return '%s(%s)' % (o, ', '.join(show(x) for x in a))


# -------------------------------------------------- smart constructors

def isint(t):
    return t.op == 'int'


def ismask(t):
    return isint(t)


BOOLOPS = {'eq', 'lt', 'not', 'isdir', 'isreg', 'islink', 'readable', 'exists', 'fnexists', 'prefix', 'has', 'atend',
           'vempty', 'remote', 'sameino', 'same', 'isdirpath', 'slashend', 'none', 'linkinfo', 'or'}


def mk_not(x):
    if x.op == 'not':
        return x.a[0]
    if x.op == 'int':
        return ONE if x.a[0] == 0 else NULL
    return mk('not', mk_bool(x))


def mk_bool(x):
    if x.op in BOOLOPS:
        return x
    if x.op == 'int':
        return ONE if x.a[0] else NULL
    if x.op in ('new', 'addr', 'str', 'lam', 'fnptr'):
        return ONE
    if x.op == 'ap' and x.a[0].startswith('b:'):
        return x
    if x.op == 'old' and x.a[0].op in BOOLOPS:
        return x
    return mk_not(mk_eq(x, NULL))


# results of system calls: 0 or -1, and -1 or a number
ZERO_OR_M1 = {'stat', 'lstat', 'fstat', 'statfs', 'fstatfs', 'chdir', 'fchdir', 'getrlimit', 'setrlimit', 'inotify_rm_watch', 'close', 'access'}
M1_OR_NUM = {'inotify_add_watch', 'inotify_init', 'inotify_init1', 'read', 'readlink', 'open', 'openat', 'poll', 'ppoll', 'select', 'dup',
             'epoll_create', 'epoll_create1', 'epoll_wait', 'eventfd', 'fcntl', 'ioctl'}


def mk_eq(a, b):
    if a is b and not a.old:
        return ONE
    for x, y in ((a, b), (b, a)):
        if isint(y) and y.a[0] < 0 and x.op == 'ret':
            if x.a[0] in ZERO_OR_M1:
                return mk_not(mk('eq', x, NULL)) if y.a[0] == -1 else NULL
            if x.a[0] in M1_OR_NUM:
                return mk('lt', x, NULL) if y.a[0] == -1 else NULL
    if isint(b) and not isint(a):
        pass
    elif isint(a) and not isint(b):
        a, b = b, a
    if isint(a) and isint(b):
        return INT(a.a[0] == b.a[0])
    if a.op == 'str' and b.op == 'str':
        return INT(a.a[0] == b.a[0])
    if isint(b):
        n = b.a[0]
        if a.op in BOOLOPS or (a.op == 'ap' and a.a[0].startswith('b:')):
            return mk_not(a) if n == 0 else (a if n == 1 else NULL)
        if a.op in ('new', 'addr', 'lam', 'fnptr', 'str'):
            return NULL
        if a.op == 'size' and n == 0:
            return mk_eq(a.a[0], EMPTY)
        if a.op == 'vsize' and n == 0:
            return mk_vempty(a.a[0])
        if a.op in ('size', 'vsize') and n < 0:
            return NULL
        if a.op == 'sw':
            if n == -1:
                return mk_not(mk('prefix', *a.a))
            if n < -1:
                return NULL
        if a.op == 'cmp' and n == 0:
            return mk_eq(*a.a)
        if a.op == 'sfind' and n == 0 and (a.a[0] == 'find' and not a.a[3] or a.a[0] == 'rfind' and len(a.a[3]) == 1 and a.a[3][0] is NULL):
            return mk('prefix', a.a[2], a.a[1])
        if a.op == 'boolint':
            return mk_eq(a.a[0], b)
        if a.op == 'ite':
            pass
    if a.op == 'str' and a.a[0] == '':
        a, b = b, a
    if b.op == 'str' and b.a[0] == '':
        if a.op == 'slash':
            return mk_eq(a.a[0], b)
        if a.op == 'cat' and any(x.op == 'str' and x.a[0] for x in a.a):
            return NULL
        if a.op == 'chr':
            return NULL
    for x, y in ((a, b), (b, a)):
        if x.op == 'new' and not x.old and y.op in ('param', 'this', 'init') and not contains(y, x):
            return NULL
    for x, y in ((a, b), (b, a)):
        if x.op == 'substr' and len(x.a) == 3 and x.a[1] is NULL and x.a[2].op == 'size' and x.a[2].a[0] is y:
            return mk('prefix', y, x.a[0])
    if isint(b) or b.op == 'str' and b.a[0] == '':
        return mk('eq', a, b)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def mk_lt(a, b):
    if isint(a) and isint(b):
        return INT(a.a[0] < b.a[0])
    if a is b and not a.old:
        return NULL
    if isint(b) and a.op == 'ret':
        n = b.a[0]
        if a.a[0] in ZERO_OR_M1:
            return NULL if n <= -1 else mk_not(mk('eq', a, NULL)) if n == 0 else ONE
        if a.a[0] in M1_OR_NUM and n <= -1:
            return NULL
    if isint(a) and b.op == 'ret':
        n = a.a[0]
        if b.a[0] in ZERO_OR_M1:
            return ONE if n < -1 else mk('eq', b, NULL) if n == -1 else NULL
        if b.a[0] in M1_OR_NUM and n <= -1:
            return ONE if n < -1 else mk_not(mk('lt', b, NULL))
    if isint(a):
        n = a.a[0]
        if b.op in ('size', 'vsize'):
            if n < 0:
                return ONE
            if n == 0:
                return mk_not(mk_eq(b, NULL))
        if b.op == 'sw' and n == -1:
            return mk('prefix', *b.a)
        if b.op in BOOLOPS:
            return ONE if n < 0 else b if n == 0 else NULL
    if isint(b):
        n = b.a[0]
        if a.op in ('size', 'vsize'):
            if n <= 0:
                return NULL
            if n == 1:
                return mk_eq(a, NULL)
        if a.op == 'sw':
            if n == 0:
                return mk_not(mk('prefix', *a.a))
            if n < 0:
                return NULL
        if a.op in BOOLOPS:
            return NULL if n <= 0 else mk_not(a) if n == 1 else ONE
    return mk('lt', a, b)


def mk_vempty(V):
    if V.op == 'list':
        return ONE if not V.a[0] else NULL
    if V.op == 'ins':
        return NULL
    return mk('vempty', V)


def mk_cat(*xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == 'cat' else (x,)):
            if y.op == 'str' and y.a[0] == '':
                continue
            if y.op == 'chr':
                y = STR(y.a[0])
            if out and out[-1].op == 'str' and y.op == 'str':
                out[-1] = STR(out[-1].a[0] + y.a[0])
            else:
                out.append(y)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def ends_slash(t):
    if t.op == 'slash':
        return True
    if t.op == 'str' and t.a[0].endswith('/'):
        return True
    if t.op == 'cat':
        return ends_slash(t.a[-1])
    return False


def mk_slash(t):
    """the text with a separator appended if it had none ( and was not empty )"""
    if t.op == 'slash' or ends_slash(t):
        return t
    if t.op == 'str':
        return STR(t.a[0] if t.a[0] == '' or t.a[0].endswith('/') else t.a[0] + '/')
    if t.op == 'noslash':
        # removing and adding again: the same as adding
        return mk_slash(t.a[0])
    return mk('slash', t)


def mk_noslash(t):
    if t.op == 'noslash':
        return t
    if t.op == 'slash':
        return mk_noslash(t.a[0])
    if t.op == 'str':
        return STR(t.a[0][:-1] if t.a[0].endswith('/') else t.a[0])
    if t.op == 'cat' and t.a[-1].op == 'str' and t.a[-1].a[0].endswith('/'):
        return mk_cat(*(t.a[:-1] + (STR(t.a[-1].a[0][:-1]),)))
    return mk('noslash', t)


def mk_fname(t):
    if t.op in ('slash', 'noslash'):
        return mk_fname(t.a[0])
    if t.op == 'str':
        s = t.a[0][:-1] if t.a[0].endswith('/') else t.a[0]
        return STR(s.rsplit('/', 1)[-1])
    if t.op == 'fname':
        return t
    if t.op == 'cat' and len(t.a) == 2 and ends_slash(t.a[0]) and t.a[1].op in ('fname',):
        return t.a[1]
    return mk('fname', t)


def mk_band(a, b):
    if isint(a) and isint(b):
        return INT(a.a[0] & b.a[0])
    if isint(a):
        a, b = b, a
    if isint(b) and b.a[0] == 0:
        return NULL
    return mk('band', a, b)


def mk_proj(v, F):
    while v.op == 'upd':
        if v.a[1] == F:
            return v.a[2]
        v = v.a[0]
    if v.op == 'rec':
        for (f, x) in v.a[1]:
            if f == F:
                return x
        return mk('proj', v, F)
    if F == 'efsw::FileInfo::Filepath' and v.op == 'fi':
        return v.a[0]
    if F == 'efsw::FileInfo::Filepath' and v.op == 'lfi':
        return v.a[0]
    if v.op == 'elem' and F == 'first' and v.a[1].op == 'k':
        return v.a[1].a[0]
    return mk('proj', v, F)


def mk_elem(V, key):
    if V.op == 'list' and len(V.a[0]) == 1:
        return V.a[0][0]
    if V.op == 'app' and key.op == 'k' and key.a[0] is STR('back'):
        return V.a[1]
    if V.op == 'ins':
        if V.a[1] is key and not key.old:
            return V.a[2]
        d = mk_eq(V.a[1].a[0], key.a[0]) if V.a[1].op == 'k' and key.op == 'k' else None
        if d is NULL:
            return mk_elem(V.a[0], key)
    if V.op == 'del':
        if key.op == 'ek' or mk_eq(V.a[1], key.a[0] if key.op == 'k' else key) is NULL:
            return mk_elem(V.a[0], key)
    return mk('elem', V, key)


def mk_fld(b, F):
    return mk('fld', b, F)


def mk_obj(p):
    if p.op == 'addr':
        return p.a[0]
    return mk('obj', p)


def mk_addr(l):
    if l.op == 'obj':
        return l.a[0]
    return mk('addr', l)


MKS = {'not': mk_not, 'eq': mk_eq, 'lt': mk_lt, 'vempty': mk_vempty, 'cat': mk_cat, 'slash': mk_slash,
       'noslash': mk_noslash, 'fname': mk_fname, 'band': mk_band, 'proj': mk_proj, 'elem': mk_elem, 'obj': mk_obj,
       'addr': mk_addr, 'fld': mk_fld}
MKS['list'] = lambda alts: mk('list', tuple(sorted(set(alts), key=lambda t: t.id)))


def norm_field(F):
    if F.startswith('std::pair<') or F.startswith('std::pair::'):
        return short(F)
    return F


def chain(v):
    """how often one pointer field was followed ( linked structures )"""
    seen = {}
    while True:
        if v.op == 'init' and v.a[0].op == 'fld':
            seen[v.a[0].a[1]] = seen.get(v.a[0].a[1], 0) + 1
            b = v.a[0].a[0]
            if b.op != 'obj':
                break
            v = b.a[0]
        else:
            break
    return max(seen.values()) if seen else 0


# ------------------------------------------------------------------ state

class State(object):
    __slots__ = ('store', 'rep', 'facts', 'locks', 'mon', 'vals', 'trail')

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.rep = dict(self.rep)
        s.facts = dict(self.facts)
        s.locks = self.locks
        s.mon = self.mon
        s.vals = dict(self.vals)
        s.trail = self.trail
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.rep.items()), frozenset(self.facts.items()),
                self.locks, self.mon, frozenset(self.vals.items()))

    def path(self, n=14):
        out = []
        t = self.trail
        while t and len(out) < n:
            out.append(t[1])
            t = t[0]
        return ' -> '.join(reversed(out))


def new_state(mon=None):
    s = State()
    s.store, s.rep, s.facts, s.vals = {}, {}, {}, {}
    s.locks = ()
    s.mon = mon
    s.trail = None
    return s


class Frame(object):
    __slots__ = ('fn', 'fid', 'this', 'caps', 'up', 'stack')


class Call(object):
    """a call as seen by models and monitors"""
    __slots__ = ('n', 'name', 'q', 'cls', 'obj', 'args', 'alocs', 'fr', 'nid', 'node', 'objloc', 'line')


class Event(object):
    __slots__ = ('kind', 'name', 'obj', 'args', 'fr', 'line', 'extra', 'alocs')

    def __init__(self, kind, name, obj=None, args=(), fr=None, line=0, extra=None, alocs=()):
        self.kind, self.name, self.obj, self.args, self.fr, self.line, self.extra = kind, name, obj, args, fr, line, extra
        self.alocs = alocs

    def where(self):
        return '%s:%s (%s)' % (self.fr.fn.file, self.line, self.fr.fn.q.replace('efsw::', '')) if self.fr else '?'

    def __repr__(self):
        return '%s %s%s(%s)' % (self.kind, show(self.obj) + '.' if self.obj is not None else '', self.name,
                                ', '.join(show(x) for x in self.args))


class Monitor(object):
    """base: keeps no state"""
    init = None

    def event(self, eng, st, ev):
        """may modify st.mon / st; return None, or a list of states"""
        return None

    def branch(self, eng, st, atom, val, fr, line):
        return None


CONTAINERS = ('std::vector', 'std::list', 'std::deque', 'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set',
              'std::multimap', 'std::initializer_list', 'std::array')
MAPS = ('std::map', 'std::unordered_map', 'std::multimap')
SETS = ('std::set', 'std::unordered_set')
ITERS = ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
         'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator_base',
         'std::reverse_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator',
         'std::move_iterator')
LOCKS = ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock')
MUTEX = ('std::recursive_mutex', 'std::mutex', 'std::__recursive_mutex_base', 'std::__mutex_base')
PURE_EXT = {'strerror', '__errno_location'}


def rec_of(t):
    return t.get('rec', '') if t else ''


def sbase(t):
    s = t.get('s', '') if t else ''
    return s


class Budget(object):
    """an analysis that does not come to an end is given up: its function stays undecided"""
    EACH, TOTAL = 240.0, 600.0
    start = time.time()
    deep = 0

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        Budget.deep += 1
        if Budget.deep == 1 and threading.current_thread() is threading.main_thread():
            left = Budget.TOTAL - (time.time() - Budget.start)
            signal.signal(signal.SIGALRM, self.over)
            signal.setitimer(signal.ITIMER_REAL, max(5.0, min(Budget.EACH, left)))

    def __exit__(self, *a):
        Budget.deep -= 1
        if Budget.deep == 0:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def over(self, *a):
        raise AnalysisError('time limit reached in %s' % self.what)


class Engine(object):
    def __init__(self, prog, mon=None, anchors=None, backend='efsw::FileWatcherInotify', raw=(), havoc=True,
                 limit=40000, maxdepth=24, inline=None, noinline=()):
        self.p = prog
        self.mon = mon or Monitor()
        self.anchors = dict(anchors or {})
        self.backend = backend
        self.raw = set(raw)
        self.refparams = {}
        self.havoc = havoc
        self.insert_new = False     # take an insertion for one under a new key
        self.stable = ()     # containers no other thread can change here: their writers need a lock every caller holds
        self.limit = limit
        self.maxdepth = maxdepth
        self.fids = {}
        self.count = 0
        self.unknown = {}
        self.inlined = set()
        self.inline = inline
        self.noinline = set(noinline)
        self.calls = 0
        self.shared = {}
        self.quiet = False
        self.forget = False
        self.generations = {}     # kind of symbol -> number of older generations kept apart
        self.lossy = True
        self.classes = prog.records

    # ------------------------------------------------------------ values
    def resolve(self, st, t):
        r = st.rep.get(t)
        return t if r is None else r

    def truth(self, st, t):
        t = mk_bool(t)
        if t.op == 'int':
            return t.a[0] != 0
        if t.op == 'not':
            v = self.truth(st, t.a[0])
            return None if v is None else not v
        v = st.facts.get(t)
        if v is not None:
            return v
        if t.op == 'eq':
            a, b = self.resolve(st, t.a[0]), self.resolve(st, t.a[1])
            if a is not t.a[0] or b is not t.a[1]:
                t2 = mk_eq(a, b)
                if t2 is not t:
                    return self.truth(st, t2)
            return self._range_eq(st, a, b)
        if t.op == 'lt':
            a, b = self.resolve(st, t.a[0]), self.resolve(st, t.a[1])
            if a is not t.a[0] or b is not t.a[1]:
                t2 = mk_lt(a, b)
                if t2 is not t:
                    return self.truth(st, t2)
            return self._range_lt(st, a, b)
        if t.op == 'or':
            vs = [self.truth(st, x) for x in t.a]
            if any(v is True for v in vs):
                return True
            if all(v is False for v in vs):
                return False
            return None
        if t.op == 'has':
            return self._has(st, t.a[0], t.a[1])
        if t.op == 'vempty':
            V = t.a[0]
            if V.op == 'del':
                return None
            for f, v in st.facts.items():
                if f.op == 'has' and v and f.a[0] is V:
                    return False
                if f.op == 'atend' and not v and len(f.a) > 1 and f.a[1] is V:
                    return False
        if t.op == 'atend' and len(t.a) > 1:
            V = t.a[1]
            if V is EMPTYC or st.facts.get(mk_vempty(V)) is True:
                return True
        if t.op == 'slashend':
            if ends_slash(t.a[0]):
                x = t.a[0]
                e = self.truth(st, mk_eq(x, EMPTY)) if x.op == 'slash' else False
                return True if e is False else None
            if t.a[0] is EMPTY:
                return False
            if t.a[0].op == 'str':
                return t.a[0].a[0].endswith('/')
        if t.op == 'isreg' or t.op == 'isdir' or t.op == 'islink':
            for o in ('isreg', 'isdir', 'islink'):
                if o != t.op and st.facts.get(mk(o, t.a[0])):
                    return False
        return None

    def _bounds(self, st, t):
        lo, hi = None, None
        if t.op in ('size', 'vsize'):
            lo = 0
        if t.op == 'sw':
            lo = -1
        for f, v in st.facts.items():
            if f.op == 'lt':
                a, b = f.a
                if a is t and isint(b):
                    n = b.a[0]
                    if v:
                        hi = n - 1 if hi is None else min(hi, n - 1)
                    else:
                        lo = n if lo is None else max(lo, n)
                elif b is t and isint(a):
                    n = a.a[0]
                    if v:
                        lo = n + 1 if lo is None else max(lo, n + 1)
                    else:
                        hi = n if hi is None else min(hi, n)
        # tighten with disequalities
        ch = True
        while ch:
            ch = False
            if lo is not None and st.facts.get(mk('eq', t, INT(lo))) is False:
                lo += 1
                ch = True
            if hi is not None and st.facts.get(mk('eq', t, INT(hi))) is False:
                hi -= 1
                ch = True
        return lo, hi

    def _range_eq(self, st, a, b):
        if isint(b) and not isint(a):
            lo, hi = self._bounds(st, a)
            n = b.a[0]
            if lo is not None and n < lo or hi is not None and n > hi:
                return False
            if lo is not None and lo == hi == n:
                return True
        return None

    def _range_lt(self, st, a, b):
        if isint(b):
            lo, hi = self._bounds(st, a)
            n = b.a[0]
            if hi is not None and hi < n:
                return True
            if lo is not None and lo >= n:
                return False
        if isint(a):
            lo, hi = self._bounds(st, b)
            n = a.a[0]
            if lo is not None and n < lo:
                return True
            if hi is not None and hi <= n:
                return False
        if st.facts.get(mk('lt', b, a)) is True:
            return False
        return None

    def _has(self, st, V, k):
        f = st.facts.get(mk('has', V, k))
        if f is not None:
            return f
        if V is EMPTYC:
            return False
        if V.op == 'ins':
            e = self.truth(st, mk_eq(V.a[1].a[0], k)) if V.a[1].op == 'k' else None
            if e is True:
                return True
            if e is False:
                return self._has(st, V.a[0], k)
            return True if self._has(st, V.a[0], k) else None
        if V.op == 'del':
            e = self.truth(st, mk_eq(V.a[1], k))
            if e is True:
                return False
            if e is False:
                return self._has(st, V.a[0], k)
            return False if self._has(st, V.a[0], k) is False else None
        return None

    def assume(self, st, t, val):
        """adds the fact; False if contradictory"""
        t = mk_bool(t)
        if t.op == 'not':
            return self.assume(st, t.a[0], not val)
        v = self.truth(st, t)
        if v is not None:
            return v == val
        if t.op == 'or':
            if not val:
                return all(self.assume(st, x, False) for x in t.a)
            rest = [x for x in t.a if self.truth(st, x) is not False]
            if len(rest) == 1:
                return self.assume(st, rest[0], True)
            st.facts[t] = True
            return True
        if t.op == 'eq' and val:
            a, b = self.resolve(st, t.a[0]), self.resolve(st, t.a[1])
            t2 = mk_eq(a, b)
            if t2.op == 'eq':
                st.facts[t2] = True
            st.facts[t] = True
            return self.union(st, a, b)
        st.facts[t] = val
        return True

    def _rank(self, t):
        if t.op in ('int', 'str'):
            return (0, t.id)
        if t.op in ('this', 'param'):
            return (1, t.id)
        return (2, any(x.op == 'ek' or x.op == 'old' and x.a[0].op == 'ek' for x in t.sy), t.old, t.depth, t.id)

    def union(self, st, a, b):
        if a is b:
            return True
        if self._rank(a) < self._rank(b):
            a, b = b, a
        # a -> b
        if a.op in ('int', 'str'):
            return False
        if contains(b, a):
            return True
        for k, v in list(st.rep.items()):
            if v is a:
                st.rep[k] = b
        st.rep[a] = b
        if b.op not in ('int',) or True:
            m = {a: b}
            memo = {}
            ns = {}
            for k, v in st.store.items():
                ns[_subst(k, m, memo) if k.depth > a.depth else k] = _subst(v, m, memo)
            st.store = ns
            for k, v in st.vals.items():
                if isinstance(v, T):
                    st.vals[k] = _subst(v, m, memo)
            if st.mon is not None:
                st.mon = _subst(st.mon, m, memo)
        for f, v in list(st.facts.items()):
            if f.op == 'eq' and v is False:
                x, y = self.resolve(st, f.a[0]), self.resolve(st, f.a[1])
                if x is y and not x.old:
                    return False
                if x is not f.a[0] or y is not f.a[1]:
                    g = mk_eq(x, y)
                    if g is ONE:
                        return False
            elif f.op == 'lt':
                g = mk_lt(self.resolve(st, f.a[0]), self.resolve(st, f.a[1]))
                if g.op == 'int' and (g.a[0] != 0) != v:
                    return False
            elif contains(f, a):
                g = _subst(f, {a: b}, {})
                if g.op == 'int':
                    if (g.a[0] != 0) != v:
                        return False
                elif g is not f:
                    w = v
                    if g.op == 'not':
                        g, w = g.a[0], not v
                    if st.facts.get(g, w) != w:
                        return False
                    st.facts[g] = w
        return True

    # ------------------------------------------------------------ symbols
    def fresh(self, st, sym):
        """(re-)creates a symbol; an existing one becomes a summary"""
        if not self._present(st, sym):
            if any(sym in f.sy for f in st.facts) or any(sym in k.sy or sym in v.sy for k, v in st.rep.items()):
                st.facts = {f: v for f, v in st.facts.items() if sym not in f.sy}
                st.rep = {k: v for k, v in st.rep.items() if sym not in k.sy and sym not in v.sy}
            return sym
        old = mk('old', sym)
        depth = self.generations.get(sym.op, 1)
        if depth > 1:
            chain = [sym, mk('gen', sym)]
            while self._present(st, chain[-1]):
                if len(chain) >= depth:
                    chain.append(mk('old', sym))
                    break
                chain.append(mk('gen', chain[-1]))
            for i in range(len(chain) - 2, -1, -1):
                self.rename(st, chain[i], chain[i + 1], i == len(chain) - 2 and self._present(st, chain[-1]))
        else:
            self.rename(st, sym, old, self._present(st, old))
        return sym

    def _present(self, st, sym):
        for k, v in st.store.items():
            if sym in v.sy or sym in k.sy:
                return True
        for v in st.vals.values():
            if isinstance(v, T) and sym in v.sy:
                return True
        if st.mon is not None:
            for v in flat(st.mon):
                if sym in v.sy:
                    return True
        return False

    def rename(self, st, sym, old, hadold):
        """sym becomes old; hadold: old is in use already and becomes a summary of both"""
        m = {sym: old}
        memo = {}
        if not hadold:
            stale = lambda x: old in x.sy
            if any(stale(f) for f in st.facts) or any(stale(k) or stale(v) for k, v in st.rep.items()):
                st.facts = {f: v for f, v in st.facts.items() if not stale(f)}
                st.rep = {k: v for k, v in st.rep.items() if not stale(k) and not stale(v)}
        P, Q = set(), set()
        if hadold:
            # terms already named with the summary, and terms that will be named so
            vs = [v for v in st.store.values()] + list(st.store) + [v for v in st.vals.values() if isinstance(v, T)]
            if st.mon is not None:
                vs.extend(flat(st.mon))
            done = set()
            for v in vs:
                if (old in v.sy or sym in v.sy) and v not in done:
                    done.add(v)
                    for x in subterms(v):
                        if old in x.sy:
                            P.add(x)
                        if sym in x.sy:
                            Q.add(_subst(x, m, memo))
        # fold the boolean values that are decided by facts about to be renamed
        ns = {}
        for k, v in st.store.items():
            if sym in v.sy and (v.op in BOOLOPS):
                d = self.truth(st, v)
                if d is not None:
                    v = INT(d)
            if k.op == 'v' and sym in v.sy and v in st.rep and st.rep[v].op in ('int', 'str'):
                v = st.rep[v]
            nk = _subst(k, m, memo)
            if v.op in ('ins', 'del', 'app') and sym in v.sy:
                v = mk('cv', nk, 'loop')
            nv = _subst(v, m, memo)
            if nk.old and nk in ns:
                if ns[nk] is not nv:
                    ns[nk] = mk('big', 'join', nk.id)
                continue
            ns[nk] = nv
        st.store = ns
        for k, v in list(st.vals.items()):
            if isinstance(v, T):
                st.vals[k] = _subst(v, m, memo)
        if st.mon is not None:
            st.mon = _subst(st.mon, m, memo)
        ref = set(st.store.values())
        for v in st.vals.values():
            if isinstance(v, T):
                ref.add(v)
        if st.mon is not None:
            ref.update(flat(st.mon))
        # objects named by old symbols keep their memory only while referenced
        st.store = {k: v for k, v in st.store.items() if not k.old or self._referenced(k, ref)}
        nf = {}
        for f, v in st.facts.items():
            if sym in f.sy:
                if old in f.sy:
                    continue
                g = _subst(f, m, memo)
                w = v
                if self.lossy and g.op in ('eq', 'lt') and not (v and g.op == 'eq') and \
                        not any(isint(x) or x.op == 'str' for x in g.a):
                    continue
                if g.op == 'not':
                    g, w = g.a[0], not v
                if g.op == 'int':
                    continue
                if hadold and st.facts.get(g) != w and any(_subst(x, m, memo) in P for x in f.a if isinstance(x, T) and sym in x.sy):
                    continue
                if self._keepfact(g, ref):
                    nf[g] = w
            elif old in f.sy:
                if hadold:
                    # must also hold for the element being merged in
                    back = _subst(f, {old: sym}, {})
                    if (st.facts.get(back) == v or not any(x in Q for x in f.a if isinstance(x, T) and old in x.sy)) and self._keepfact(f, ref):
                        nf[f] = v
                # otherwise stale
            else:
                if not f.old or self._keepfact(f, ref):
                    nf[f] = v
        st.facts = nf
        nr = {}
        for k, v in st.rep.items():
            if sym in k.sy or sym in v.sy:
                if hadold:
                    continue
                nk, nv = _subst(k, m, memo), _subst(v, m, memo)
                if nk in ref:
                    nr[nk] = nv
            elif old in k.sy or old in v.sy:
                continue
            else:
                nr[k] = v
        st.rep = nr

    def _referenced(self, k, ref):
        base = k
        while base.op == 'fld':
            base = base.a[0]
        if base.op == 'obj':
            return base.a[0] in ref
        return base.op in ('v', 'g', 'P', 'tmp')

    def _keepfact(self, f, ref):
        if f.op in ('eq', 'lt'):
            return any(x in ref for x in f.a if not (isint(x) or x.op == 'str'))
        return False

    # ------------------------------------------------------------ memory
    def read(self, st, loc):
        v = self._read(st, loc)
        r = st.rep.get(v)
        return v if r is None else r

    def _read(self, st, loc):
        v = st.store.get(loc)
        if v is not None:
            return v
        o = loc.op
        if o == 'fld':
            b, F = loc.a
            bv = self._bound(st, b)
            if bv is not None:
                return self.project(st, bv, F)
            return mk('init', loc)
        if o == 'at':
            C, V, key = loc.a
            if V.op == 'live':
                V = self.read(st, C)
            elif key.op == 'k':
                # an element replaced since the iterator was obtained
                L, d = st.store.get(C), 0
                while L is not None and L is not V and L.op == 'ins' and d < 6:
                    if L.a[1] is key:
                        return L.a[2]
                    L, d = L.a[0], d + 1
            return self.elem(st, V, key)
        if o == 'idx':
            b, i = loc.a
            bv = self._bound(st, b)
            if bv is not None:
                return mk('item', bv, i)
            return mk('init', loc)
        if o == 'chrl':
            s = self.read(st, loc.a[0])
            return mk('chat', s, loc.a[1])
        if o == 'val':
            return loc.a[0]
        return mk('init', loc)

    def elem(self, st, V, key):
        if V.op == 'ins':
            if key.op == 'k' and V.a[1].op == 'k':
                e = self.truth(st, mk_eq(V.a[1].a[0], key.a[0]))
                if e is True:
                    return V.a[2]
                if e is False:
                    return self.elem(st, V.a[0], key)
        if V.op == 'del' and key.op == 'k':
            e = self.truth(st, mk_eq(V.a[1], key.a[0]))
            if e is False:
                return self.elem(st, V.a[0], key)
        return mk_elem(V, key)

    def _bound(self, st, b):
        """value of the object at b if known as a whole"""
        v = st.store.get(b)
        if v is not None:
            return v
        if b.op == 'fld':
            bb = self._bound(st, b.a[0])
            if bb is not None:
                return self.project(st, bb, b.a[1])
            return None
        if b.op == 'at':
            return self._read(st, b)
        if b.op == 'val':
            return b.a[0]
        if b.op == 'idx':
            bb = self._bound(st, b.a[0])
            if bb is not None:
                return mk('item', bb, b.a[1])
        return None

    def field_type(self, F):
        cls = F.rsplit('::', 1)[0]
        r = self.p.records.get(cls)
        if r:
            for f in r['fields']:
                if f['q'] == F if 'q' in f else f['n'] == F:
                    return f.get('t')
        return None

    def project(self, st, v, F):
        while v.op == 'upd':
            if v.a[1] == F:
                return v.a[2]
            v = v.a[0]
        if v.op == 'def':
            t = self.field_type(F)
            return self.default_value(t, mk('undef', F, v.a[1]))
        if v.op == 'undef':
            return mk('undef', v, F)
        return mk_proj(v, F)

    def default_value(self, t, undef):
        s = sbase(t)
        if s.startswith('std::basic_string'):
            return EMPTY
        if s.startswith(CONTAINERS):
            return EMPTYC
        if s == 'efsw::FileInfo':
            return mk('fi0')
        if t and t.get('k') == 'rec' and s in self.p.records:
            return mk('def', s, undef)
        if s.startswith(ITERS):
            return mk('itundef')
        return undef

    def children(self, st, loc):
        out = []
        for k in st.store:
            b = k
            while b.op in ('fld', 'idx'):
                b = b.a[0]
                if b is loc:
                    out.append(k)
                    break
        return out

    def value(self, st, loc):
        """the value of a whole object"""
        kids = self.children(st, loc)
        v = self.read(st, loc)
        if not kids:
            return v
        # nearest children first, deeper ones folded into theirs
        direct = {}
        for k in kids:
            c = k
            while c.a[0] is not loc:
                c = c.a[0]
            direct.setdefault(c, True)
        for c in sorted(direct, key=lambda t: str(t.a[1])):
            if c.op == 'fld':
                v = mk('upd', v, c.a[1], self.value(st, c))
        return v

    def write(self, st, loc, v):
        if v.op == 'init' and loc.op == 'v' and chain(v) >= 3:
            v = mk('big', loc.op, loc.id)
        if v.depth > 16:
            v = mk('big', loc.op, loc.id)
        for k in self.children(st, loc):
            del st.store[k]
        st.store[loc] = v

    # -------------------------------------------------------------- events
    def emit(self, st, ev):
        r = self.mon.event(self, st, ev)
        return [st] if r is None else r

    def emit_all(self, sts, ev):
        out = []
        for s in sts:
            out.extend(self.emit(s, ev))
        return out

    # --------------------------------------------------------------- frames
    def frame(self, fn, up, site, this=None, caps=None):
        fr = Frame()
        fr.fn = fn
        fr.up = up
        key = (fn.usr, up.fid if up else 0, site)
        if key not in self.fids:
            self.fids[key] = len(self.fids) + 1
        fr.fid = self.fids[key]
        fr.this = this
        fr.caps = caps or {}
        fr.stack = (up.stack if up else ()) + (fn.usr,)
        return fr

    def run(self, fn, st, args, this=None, caps=None, up=None, site=0):
        """args: list of values (by value) or locations (reference parameters).
        -> list of (state, returned value or location)"""
        fr = self.frame(fn, up, site, this, caps)
        if len(fr.stack) > self.maxdepth:
            raise AnalysisError('call depth exceeded in ' + fn.q)
        for i, prm in enumerate(fn.params):
            loc = mk('v', fr.fid, prm['d'], prm['name'])
            a = args[i] if i < len(args) else mk('undef', prm['name'], fr.fid)
            if prm['t'].get('ref'):
                st.store[loc] = mk('&', a)
            else:
                st.store[loc] = a
        outs = self.flow(fr, st)
        return outs

    def enter(self, q, mon=None, this=THIS, params=None, pred=None, setup=None, st=None):
        """analyses a root function with symbolic arguments"""
        fn = self.p.fn(q, pred) if isinstance(q, str) else q
        st = st or new_state(mon if mon is not None else self.mon.init)
        args = []
        for i, prm in enumerate(fn.params):
            v = (params or {}).get(prm['name'], (params or {}).get(i))
            if v is None:
                v = mk('param', i, prm['name'])
            if prm['t'].get('ref'):
                loc = mk('P', i)
                if loc not in st.store:
                    if v.op == 'param' and prm['t'].get('k') == 'rec' and sbase(prm['t']).startswith(CONTAINERS):
                        v = mk('init', loc)
                    st.store[loc] = v
                args.append(loc)
            else:
                args.append(v)
        if setup:
            setup(st)
        self.inlined.add(fn.q)
        with Budget(fn.q):
            return self.run(fn, st, args, this=this)

    # ------------------------------------------------------------ fixpoint
    def flow(self, fr, st0):
        fn = fr.fn
        # nodes evaluated as elements (for && || ?: joins)
        seen = {}
        results = {}
        work = [(fn.entry, st0)]
        fid = fr.fid
        n0 = 0
        if fr.up is None:
            self.dbg = (fn, seen)
        while work:
            bid, st = work.pop()
            b = fn.blocks[bid]
            # forget dead temporaries
            live = fn.livein[bid]
            for k in [k for k in st.vals if k[0] == fid and not (k[1] in live or isinstance(k[1], tuple))]:
                del st.vals[k]
            self.collect(fr, st, bid)
            key = st.key()
            s = seen.setdefault(bid, set())
            if key in s:
                continue
            s.add(key)
            self.count += 1
            n0 += 1
            if self.count > self.limit:
                self.dbg = (fn, seen)
                raise AnalysisError('state limit reached in %s' % fn.q)
            if bid == fn.exit:
                r = st.vals.pop((fid, ('ret',)), None)
                self.leave(fr, st)
                k2 = (st.key(), r)
                if k2 not in results:
                    results[k2] = (st, r)
                continue
            cur = [st]
            for el in b['e']:
                nxt = []
                for s1 in cur:
                    nxt.extend(self.element(fr, s1, el))
                cur = nxt
                if not cur:
                    break
            for s1 in cur:
                work.extend(self.terminate(fr, s1, b))
        return list(results.values())

    def collect(self, fr, st, bid):
        """forgets dead local variables and the facts about unreachable symbols"""
        fid = fr.fid
        live = fr.fn.varlive[bid]
        # ( a reference parameter denotes its target also where it is about to be assigned )
        refs = self.refparams.get(fr.fn.usr)
        if refs is None:
            refs = self.refparams[fr.fn.usr] = {q['d'] for q in fr.fn.params if q['t'].get('ref')}
        dead = [k for k in st.store if k.op == 'v' and k.a[0] == fid and k.a[1] not in live and k.a[1] not in refs]
        if dead:
            used = set()
            for k, v in st.store.items():
                used |= v.lv
                if k.op not in ('v',):
                    used |= {x for x in k.lv if not self._under(k, x)}
            for v in st.vals.values():
                if isinstance(v, T):
                    used |= v.lv
            if st.mon is not None:
                for v in flat(st.mon):
                    used |= v.lv
            for k in dead:
                v = st.store[k]
                if k not in used and v.op not in ('lk', 'lam'):
                    for c in self.children(st, k):
                        del st.store[c]
                    del st.store[k]
        for k, v in st.store.items():
            if v.op in ('eq', 'not', 'lt', 'has', 'isdir'):
                w = self.truth(st, v)
                if w is not None:
                    st.store[k] = ONE if w else NULL
        syms = set()
        heap = []
        for k, v in st.store.items():
            b = k
            while b.op in ('fld', 'idx', 'at', 'chrl'):
                b = b.a[0]
            if b.op == 'obj' and b.sy:
                heap.append((k, v, b))
                continue
            if b is mk_obj(NULL):
                heap.append((k, v, b))
                continue
            syms |= v.sy
            syms |= k.sy
        for v in st.vals.values():
            if isinstance(v, T):
                syms |= v.sy
        if st.mon is not None:
            for v in flat(st.mon):
                syms |= v.sy
        f = fr
        while f is not None:
            if isinstance(f.this, T):
                syms |= f.this.sy
            f = f.up
        ch = True
        while ch and heap:
            ch = False
            for x in heap[:]:
                if x[2].sy and x[2].sy <= syms:
                    heap.remove(x)
                    ch = True
                    syms |= x[1].sy | x[0].sy
        for x in heap:
            del st.store[x[0]]
        if any(f.sy and not f.sy <= syms for f in st.facts):
            st.facts = {f: v for f, v in st.facts.items() if f.sy <= syms}
        if any(not (k.sy <= syms) or not (v.sy <= syms) for k, v in st.rep.items()):
            st.rep = {k: v for k, v in st.rep.items() if k.sy <= syms and v.sy <= syms}

    def _under(self, k, x):
        while k.op in ('fld', 'idx'):
            k = k.a[0]
        return k is x

    def leave(self, fr, st):
        fid = fr.fid
        for k in [k for k in st.vals if k[0] == fid]:
            del st.vals[k]
        dead = []
        for k in st.store:
            b = k
            while b.op in ('fld', 'idx', 'at', 'chrl'):
                b = b.a[0]
            if b.op in ('v', 'tmp', 'cap') and b.a[0] == fid:
                dead.append(k)
        for k in dead:
            del st.store[k]

    def terminate(self, fr, st, b):
        fn = fr.fn
        t = b.get('term')
        s = b['s']
        if not t or len([x for x in s if x is not None]) == 0 or 'cond' not in t:
            return [(x, st if i == 0 else st.copy()) for i, x in enumerate(y for y in s if y is not None)]
        c = t['c']
        if c == 'SwitchStmt':
            return self.switch(fr, st, b)
        if len(s) < 2:
            return [(x, st) for x in s if x is not None]
        if c == 'TempDtorBranch':
            return [(x, st.copy()) for x in s if x is not None]
        cond = self.val(fr, st, t['cond'])
        if fn.nodes[t['cond']].get('lv'):
            cond = self.read(st, cond)
        out = []
        v = self.truth(st, cond)
        for i, want in ((0, True), (1, False)):
            if s[i] is None or (v is not None and v != want):
                continue
            s2 = st.copy() if v is None else st
            if v is None:
                if not self.assume(s2, cond, want):
                    continue
                s2.trail = (s2.trail, '%s%d:%s' % ('' if want else '!', t.get('line', 0), show(cond)[:80]))
                r = self.mon.branch(self, s2, mk_bool(cond), want, fr, t.get('line', 0))
                if r is not None:
                    for s3 in r:
                        self._preset(fr, s3, t, c, want, s[i])
                        out.append((s[i], s3))
                    continue
            self._preset(fr, s2, t, c, want, s[i])
            out.append((s[i], s2))
        return out

    def _preset(self, fr, st, t, c, want, to):
        if c == 'BinaryOperator' and 'n' in t:
            # a nested operator decides the ones around it that are completed in the same block
            for e in fr.fn.blocks[to]['e']:
                if e['k'] != 'e' or e['n'] == t['n']:
                    continue
                o = fr.fn.nodes[e['n']]
                if o['k'] == 'bin' and o['op'] == t.get('op') and (o['op'] == '&&' and not want or o['op'] == '||' and want):
                    l = o['l']
                    while l is not None:
                        x = fr.fn.nodes[l]
                        if l == t['n']:
                            st.vals[(fr.fid, ('p', e['n']))] = ONE if want else NULL
                            break
                        l = x['l'] if x['k'] == 'bin' and x['op'] == o['op'] else x.get('sub') if x['k'] in ('tobool', 'load', 'icast', 'cast') else None
            if t['n'] not in fr.fn.livein[to] and all(e.get('n') != t['n'] for e in fr.fn.blocks[to]['e'] if e['k'] == 'e'):
                return
            op = t.get('op')
            key = (fr.fid, ('p', t['n']))
            st.vals.pop(key, None)
            if op == '&&' and not want:
                st.vals[key] = NULL
            elif op == '||' and want:
                st.vals[key] = ONE
        elif c in ('ConditionalOperator', 'BinaryConditionalOperator') and 'n' in t:
            st.vals[(fr.fid, ('p', t['n']))] = ONE if want else NULL

    def switch(self, fr, st, b):
        fn = fr.fn
        cond = self.rv(fr, st, b['term']['cond'])
        out = []
        deflt = None
        neg = []
        for x in b['s']:
            if x is None:
                continue
            lab = fn.blocks[x].get('label')
            if not lab or lab.get('def'):
                deflt = x
                continue
            for v in [lab.get('v')] + list(lab.get('more', [])):
                if v is None:
                    continue
                neg.append(v)
                s2 = st.copy()
                if self.assume(s2, mk_eq(cond, INT(v)), True):
                    r = self.mon.branch(self, s2, mk_eq(cond, INT(v)), True, fr, b['term'].get('line', 0))
                    for s3 in ([s2] if r is None else r):
                        out.append((x, s3))
        # several labels may share a block through fall through: duplicates are merged by the fixpoint
        if deflt is not None:
            s2 = st.copy()
            if all(self.assume(s2, mk_eq(cond, INT(v)), False) for v in neg):
                if getattr(self.mon, 'wants_default', False):
                    for v in neg:
                        self.mon.branch(self, s2, mk_eq(cond, INT(v)), False, fr, b['term'].get('line', 0))
                out.append((deflt, s2))
        return out

    # ------------------------------------------------------------ elements
    def element(self, fr, st, el):
        k = el['k']
        fid = fr.fid
        if k == 'e':
            nid = el['n']
            n = fr.fn.nodes[nid]
            res = self.eval(fr, st, nid, n)
            out = []
            for s, v in res:
                if n['k'] == 'cond' or n['k'] == 'bin' and n['op'] in ('&&', '||'):
                    for c in Fn.kids(n):
                        s.vals.pop((fid, c), None)
                if v is not None:
                    s.vals[(fid, nid)] = v
                out.append(s)
            return out
        if k == 'decl':
            sts = [st]
            for v in el['vars']:
                nx = []
                for s in sts:
                    nx.extend(self.declare(fr, s, v, el))
                sts = nx
            return sts
        if k == 'ret':
            if 'v' in el and el['v'] is not None:
                n = fr.fn.nodes[el['v']]
                if fr.fn.ret.get('ref'):
                    st.vals[(fid, ('ret',))] = self.val(fr, st, el['v'])
                else:
                    v = self.rv(fr, st, el['v'])
                    if fr.fn.ret.get('k') == 'bool':
                        v = mk_bool(v)
                    st.vals[(fid, ('ret',))] = v
            return self.emit(st, Event('ret', fr.fn.q, None, (st.vals.get((fid, ('ret',)), NULL),), fr, el.get('line', 0)))
        if k == 'init':
            return self.field_init(fr, st, el)
        if k == 'adtor':
            d = el['d']
            loc = mk('v', fid, d, fr.fn.decls[d]['name'])
            ts = sbase(el['t'])
            if ts.startswith(LOCKS):
                v = st.store.pop(loc, None)
                if v is not None and v.op == 'lk' and v.a[1] == 1:
                    return self.unlock(fr, st, v.a[0], el.get('line', 0))
                return [st]
            r = self.emit(st, Event('dtor', ts, loc, (), fr, el.get('line', 0)))
            fn = self.dtor_of(ts)
            if fn is not None and fn.usr not in fr.stack and ts not in self.noinline:
                out = []
                for s in r:
                    self.inlined.add(fn.q)
                    out += [s2 for s2, _ in self.run(fn, s, [], this=mk_addr(loc), up=fr, site=('dtor', d))]
                r = out
            for s in r:
                for c in self.children(s, loc):
                    del s.store[c]
                s.store.pop(loc, None)
            return r
        if k == 'tdtor':
            ts = sbase(el['t'])
            if ts.startswith(LOCKS):
                v = st.vals.get((fid, el['n']))
                if v is not None and v.op == 'lk' and v.a[1] == 1:
                    return self.unlock(fr, st, v.a[0], 0)
            return [st]
        if k == 'ddtor':
            return [st]
        return [st]

    def dtor_of(self, cls):
        m = getattr(self.p, '_dtors', None)
        if m is None:
            m = {}
            for f in self.p.fns.values():
                if f.isdtor and f.cls:
                    m[f.cls] = f
            self.p._dtors = m
        return m.get(cls)

    def is_scalar(self, t):
        return t.get('k') in ('ptr', 'bool', 'enum', 'int', 'other') and not t.get('ref')

    def declare(self, fr, st, v, el):
        d = v['d']
        name = v['name']
        loc = mk('v', fr.fid, d, name)
        t = v['t']
        if v.get('static'):
            g = mk('g', fr.fn.decls[d].get('usr', 's%d' % d))
            st.store[loc] = mk('&', g)
            return [st]
        if t.get('ref'):
            i = v.get('init')
            if i is not None:
                st.store[loc] = mk('&', self.lvloc(fr, st, i))
            return [st]
        i = v.get('init')
        if i is not None and (fr.fid, i) in st.vals and st.vals[(fr.fid, i)].op == 'inplace':
            return [st]
        for k in self.children(st, loc):
            del st.store[k]
        if i is None:
            s = self.fresh(st, mk('undef', name, fr.fid))
            st.store[loc] = self.default_value(t, s)
            return self.emit(st, Event('decl', name, loc, (st.store[loc],), fr, el.get('line', 0)))
        n = fr.fn.nodes[i]
        if n['k'] == 'ctor' and not n.get('copy') and not n.get('move') and (fr.fid, i) not in st.vals and loc in st.store:
            return [st]    # constructed in place
        if (fr.fid, i) in st.vals and st.vals[(fr.fid, i)].op == 'inplace':
            return [st]
        val = self.rv(fr, st, i)
        if t.get('k') == 'bool':
            val = mk_bool(val)
        st.store[loc] = val
        return self.emit(st, Event('decl', name, loc, (val,), fr, el.get('line', 0)))

    def field_init(self, fr, st, el):
        if 'f' in el:
            loc = mk_fld(mk_obj(fr.this), norm_field(el['f']))
            n = fr.fn.nodes.get(el['n'])
            cur = st.vals.get((fr.fid, el['n']))
            if cur is not None and cur.op == 'inplace':
                return [st]
            v = self.rv(fr, st, el['n'])
            if n is not None and n['k'] == 'ctor' and n.get('def') and not n.get('repo') and v.op == 'undef':
                pass
            self.write(st, loc, v)
            return self.emit(st, Event('write', norm_field(el['f']), loc, (v,), fr, el.get('line', 0), 'init'))
        return [st]

    # ---------------------------------------------------------- expressions
    def val(self, fr, st, nid):
        v = st.vals.get((fr.fid, nid))
        if v is not None:
            return v
        n = fr.fn.nodes[nid]
        k = n['k']
        if k in ('call', 'ctor', 'new', 'assign', 'delete'):
            # not an element of its own (transparent wrapper): evaluate here, single outcome only
            r = self.eval(fr, st, nid, n)
            if len(r) == 1 and r[0][0] is st:
                st.vals[(fr.fid, nid)] = r[0][1]
                return r[0][1]
            return mk('any', k, fr.fid, nid)
        if k == 'un' and n['op'] in ('++', '--'):
            return mk('any', k, fr.fid, nid)
        r = self.eval(fr, st, nid, n)
        return r[0][1] if r and r[0][1] is not None else mk('any', k, fr.fid, nid)

    def rv(self, fr, st, nid):
        """the value of an expression"""
        v = self.val(fr, st, nid)
        if fr.fn.nodes[nid].get('lv'):
            return self.value(st, v)
        if v.op == 'inplace':
            return self.value(st, v.a[0])
        return v

    def lvloc(self, fr, st, nid):
        """a location holding the expression"""
        v = self.val(fr, st, nid)
        if fr.fn.nodes[nid].get('lv'):
            return v
        if v.op == 'inplace':
            return v.a[0]
        loc = mk('tmp', fr.fid, nid)
        self.write(st, loc, v)
        return loc

    def var_loc(self, fr, st, n):
        fn = fr.fn
        d = fn.decls[n['d']]
        kind = d.get('kind')
        if kind in ('global', 'static'):
            l = mk('v', fr.fid, n['d'], d['name'])
            b = st.store.get(l)
            if b is not None and b.op == '&':
                return b.a[0]
            return mk('g', d.get('usr', d['name']))
        if fr.caps and (n.get('cap') or ('du', n.get('du')) in fr.caps):
            l = fr.caps.get(('du', n.get('du')))
            if l is None:
                l = fr.caps.get(('n', n['name']))
            if l is not None:
                b = st.store.get(l)
                return b.a[0] if b is not None and b.op == '&' else l
        loc = mk('v', fr.fid, n['d'], d['name'])
        b = st.store.get(loc)
        if b is not None and b.op == '&':
            return b.a[0]
        return loc

    def eval(self, fr, st, nid, n):
        k = n['k']
        one = lambda v: [(st, v)]
        if k == 'int':
            return one(INT(n['v']))
        if k in ('null', 'zero'):
            return one(NULL)
        if k == 'var':
            return one(self.var_loc(fr, st, n))
        if k == 'this':
            return one(fr.this if fr.this is not None else THIS)
        if k == 'str':
            return one(STR(n.get('v', '')))
        if k == 'load':
            sub = n['sub']
            l = self.val(fr, st, sub)
            if fr.fn.nodes[sub].get('lv'):
                v = self.read(st, l)
                return one(v)
            return one(l)
        if k == 'decay':
            sub = n['sub']
            if fr.fn.nodes[sub]['k'] == 'str':
                return one(self.val(fr, st, sub))
            l = self.val(fr, st, sub)
            return one(mk_addr(l))
        if k == 'tobool':
            return one(mk_bool(self.rv(fr, st, n['sub'])))
        if k == 'icast':
            v = self.rv(fr, st, n['sub'])
            if n['t'].get('k') == 'bool':
                v = mk_bool(v)
            return one(v)
        if k == 'mem':
            F = norm_field(n['f'])
            if n.get('arrow'):
                p = self.rv(fr, st, n['base'])
                base = mk_obj(p)
            else:
                base = self.lvloc(fr, st, n['base'])
            loc = mk_fld(base, F)
            # reference members
            return one(loc)
        if k == 'sub':
            b = self.rv(fr, st, n['base'])
            i = self.rv(fr, st, n['idx'])
            if b.op == 'str':
                return one(mk('val', mk('chat', b, i)))
            return one(mk('idx', mk_obj(b), i))
        if k == 'un':
            return self.unary(fr, st, nid, n)
        if k == 'bin':
            return one(self.binary(fr, st, nid, n))
        if k == 'assign':
            return self.assign(fr, st, nid, n)
        if k == 'cond':
            p = st.vals.pop((fr.fid, ('p', nid)), None)
            if p is None:
                c = self.truth(st, self.rv(fr, st, n['c']))
                if c is None:
                    return one(mk('any', 'cond', fr.fid, nid))
                p = INT(c)
            ch = n['a'] if p is ONE else n['b']
            if n.get('lv'):
                return one(self.lvloc(fr, st, ch))
            return one(self.rv(fr, st, ch))
        if k in ('fn', 'memfn'):
            return one(mk('fnptr', n.get('usr', '?'), n.get('q', '?')))
        if k == 'new':
            return self.eval_new(fr, st, nid, n)
        if k == 'delete':
            v = self.rv(fr, st, n['sub'])
            r = self.emit(st, Event('delete', rec_of(n.get('dt')) or sbase(n.get('dt')), v, (), fr, n.get('line', 0),
                                    'array' if n.get('array') else None))
            return [(s, NULL) for s in r]
        if k == 'lambda':
            return one(self.make_lambda(fr, st, nid, n))
        if k == 'initlist':
            return one(self.initlist(fr, st, nid, n))
        if k == 'ctor':
            return self.construct(fr, st, nid, n)
        if k == 'call':
            return self.call(fr, st, nid, n)
        if k == 'throw':
            return []
        for c in n.get('ch', ()):
            if isinstance(c, int):
                self.val(fr, st, c)
        self.unknown[(k, n.get('c'))] = n.get('line')
        return one(mk('any', k, fr.fid, nid))

    def initlist(self, fr, st, nid, n):
        ts = sbase(n['t'])
        vals = [self.rv(fr, st, e) for e in n['elems']]
        if n.get('fields') is not None and n['fields'] and len(n['fields']) >= len(vals) and \
                not ts.startswith('std::initializer_list'):
            return mk('rec', ts, tuple((norm_field(f), v) for f, v in zip(n['fields'], vals)))
        if len(vals) == 1 and n['t'].get('k') in ('ptr', 'int', 'bool', 'enum'):
            return vals[0]
        return MKS['list'](tuple(vals))

    def make_lambda(self, fr, st, nid, n):
        env = []
        for c in n['caps']:
            if c.get('this'):
                env.append(('this', fr.this))
            else:
                if 'init' in c:
                    l = self.val(fr, st, c['init'])
                    if not fr.fn.nodes[c['init']].get('lv'):
                        l = mk('val', l)
                else:
                    l = self.var_loc(fr, st, {'d': c['d'], 'name': c['name'], 'du': c.get('du')})
                if c.get('ref'):
                    env.append((c['name'], c.get('du', ''), mk('&', l)))
                else:
                    env.append((c['name'], c.get('du', ''), self.value(st, l)))
        return mk('lam', n['usr'], tuple(env), fr.fid)

    def apply_lambda(self, fr, st, lam, args, nid):
        """-> list of (state, value)"""
        fn = self.p.fns.get(lam.a[0])
        if fn is None:
            return [(st, mk('any', 'lambda', fr.fid, nid))]
        caps = {}
        this = None
        for c in lam.a[1]:
            if c[0] == 'this':
                this = c[1]
            else:
                loc = mk('cap', fr.fid, nid, c[0])
                st.store[loc] = c[2]
                caps[('du', c[1])] = loc
                caps[('n', c[0])] = loc
        a = []
        for i, prm in enumerate(fn.params):
            x = args[i] if i < len(args) else mk('any', 'arg', fr.fid, nid)
            a.append(x)
        self.inlined.add(fn.q)
        r = self.run(fn, st, a, this=this, caps=caps, up=fr, site=('lam', nid))
        for s, v in r:
            for l in caps.values():
                s.store.pop(l, None)
        return r

    def unary(self, fr, st, nid, n):
        op = n['op']
        sub = n['sub']
        if op == '*':
            p = self.rv(fr, st, sub)
            if p.op == 'str':
                return [(st, mk('val', mk('chat', p, NULL)))]
            return [(st, mk_obj(p))]
        if op == '&':
            if fr.fn.nodes[sub]['k'] in ('fn', 'memfn'):
                return [(st, self.val(fr, st, sub))]
            return [(st, mk_addr(self.lvloc(fr, st, sub)))]
        if op == '!':
            return [(st, mk_not(mk_bool(self.rv(fr, st, sub))))]
        if op in ('++', '--'):
            loc = self.val(fr, st, sub)
            old = self.read(st, loc)
            return self.bump(fr, st, nid, n, loc, old, n.get('post'), op, ONE)
        v = self.rv(fr, st, sub)
        if op == '-' and isint(v):
            return [(st, INT(-v.a[0]))]
        if op == '+':
            return [(st, v)]
        return [(st, mk('un', op, v))]

    def bump(self, fr, st, nid, n, loc, old, post, op, amount):
        sym = mk('inc', loc, (fr.fid, nid))
        sts = self.emit(st, Event('step', op, loc, (old, amount), fr, n.get('line', 0), sym))
        out = []
        for s in sts:
            o = self.read(s, loc)
            if isint(o) and isint(amount) and not self.in_loop(fr, nid):
                nv = INT(o.a[0] + amount.a[0] if op in ('++', '+=') else o.a[0] - amount.a[0])
            else:
                self.fresh(s, sym)
                o = self.read(s, loc)
                nv = sym
            self.write(s, loc, nv)
            sts2 = self.emit(s, Event('write', show(loc), loc, (nv,), fr, n.get('line', 0), 'step'))
            for s2 in sts2:
                out.append((s2, o if post else (loc if fr.fn.nodes[nid].get('lv') else nv)))
        return out

    def in_loop(self, fr, nid):
        fn = fr.fn
        b = getattr(self, '_nb', None)
        if b is None:
            b = self._nb = {}
        m = b.get(fn.usr)
        if m is None:
            m = {}
            for bid, bl in fn.blocks.items():
                for e in bl['e']:
                    if e['k'] == 'e':
                        m[e['n']] = bid
            b[fn.usr] = m
        bid = m.get(nid)
        return any(bid in body for body in fn.loops.values())

    def binary(self, fr, st, nid, n):
        op = n['op']
        if op in ('&&', '||'):
            p = st.vals.pop((fr.fid, ('p', nid)), None)
            if p is not None:
                return p
            l = self.truth(st, self.rv(fr, st, n['l']))
            rkey = (fr.fid, n['r'])
            r = mk_bool(self.rv(fr, st, n['r']))
            if op == '&&':
                return NULL if l is False else r
            return ONE if l is True else r
        a, b = self.rv(fr, st, n['l']), self.rv(fr, st, n['r'])
        if op == ',':
            return b
        if op == '+' and n.get('t', {}).get('k') == 'ptr':
            x, i = (a, b) if fr.fn.nodes[n['l']].get('t', {}).get('k') != 'int' else (b, a)
            if x.op == 'addr' and x.a[0].op == 'idx':
                return mk_addr(mk('idx', x.a[0].a[0], self.arith('+', x.a[0].a[1], i)))
            if x.op in ('new', 'addr') and (x.op == 'new' or x.a[0].op == 'v'):
                return mk_addr(mk('idx', mk_obj(x), i))
        return self.arith(op, self.resolve(st, a), self.resolve(st, b))

    def arith(self, op, a, b):
        if op == '==':
            return mk_eq(a, b)
        if op == '!=':
            return mk_not(mk_eq(a, b))
        if op == '<':
            return mk_lt(a, b)
        if op == '>':
            return mk_lt(b, a)
        if op == '<=':
            return mk_not(mk_lt(b, a))
        if op == '>=':
            return mk_not(mk_lt(a, b))
        if op == '&':
            return mk_band(a, b)
        if isint(a) and isint(b):
            x, y = a.a[0], b.a[0]
            try:
                if op == '+':
                    return INT(x + y)
                if op == '-':
                    return INT(x - y)
                if op == '*':
                    return INT(x * y)
                if op == '|':
                    return INT(x | y)
                if op == '^':
                    return INT(x ^ y)
                if op == '/' and y:
                    return INT(x // y)
                if op == '%' and y:
                    return INT(x % y)
                if op == '<<':
                    return INT(x << y)
                if op == '>>':
                    return INT(x >> y)
            except Exception:
                pass
        if op in ('+', '|', '-', '^', '<<', '>>') and isint(b) and b.a[0] == 0:
            return a
        if op in ('+', '|') and isint(a) and a.a[0] == 0:
            return b
        if op in ('+', '*', '|', '^') and a.id > b.id:
            a, b = b, a
        return mk('bin', op, a, b)

    def assign(self, fr, st, nid, n):
        loc = self.val(fr, st, n['l'])
        op = n['op']
        if op == '=':
            v = self.rv(fr, st, n['r'])
            t = fr.fn.nodes[n['l']].get('t', {})
            if t.get('k') == 'bool':
                v = mk_bool(v)
            am = self.added(fr, st, n) if t.get('k') == 'int' and self.in_loop(fr, nid) else None
            if am is not None:
                return self.bump(fr, st, nid, n, loc, self.read(st, loc), False, '+=', am)
            return self.store_to(fr, st, loc, v, n.get('line', 0), loc)
        r = self.rv(fr, st, n['r'])
        old = self.read(st, loc)
        bop = op[:-1]
        if bop in ('+', '-') and self.in_loop(fr, nid) and not (n.get('t', {}).get('k') == 'ptr'):
            return self.bump(fr, st, nid, n, loc, old, False, op, r)
        v = self.arith(bop, old, r)
        return self.store_to(fr, st, loc, v, n.get('line', 0), loc)

    def added(self, fr, st, n):
        """the amount of an assignment of the form  v = v + amount"""
        nodes = fr.fn.nodes
        l = nodes[n['l']]
        if l['k'] != 'var':
            return None
        own, rest = 0, []
        wl = [n['r']]
        while wl:
            x = nodes[wl.pop()]
            i = next((k for k in nodes if nodes[k] is x), None)
            if x['k'] in ('icast', 'load', 'decay') and nodes[x['sub']]['k'] in ('icast', 'load', 'decay', 'var', 'bin') and \
                    not (x['k'] == 'icast' and nodes[x['sub']]['k'] == 'bin' and nodes[x['sub']]['op'] != '+'):
                y = nodes[x['sub']]
                if y['k'] == 'var' and y.get('d') == l.get('d'):
                    own += 1
                    continue
                if y['k'] != 'var':
                    wl.append(x['sub'])
                    continue
            if x['k'] == 'bin' and x['op'] == '+':
                wl += [x['r'], x['l']]
                continue
            rest.append(i)
        if own != 1 or not rest:
            return None
        v = None
        for i in rest:
            y = self.rv(fr, st, i)
            v = y if v is None else self.arith('+', v, y)
        return v

    def store_to(self, fr, st, loc, v, line, result):
        if loc.op == 'at':
            C, V, key = loc.a
            cur = self.read(st, C)
            nv = self.insert(cur, key, v, C)
            self.write(st, C, nv)
            sts = self.emit(st, Event('mut', 'set', C, (key.a[0] if key.op == 'k' else key, v), fr, line))
            return [(s, result) for s in sts]
        if loc.op == 'fld' and loc.a[0].op == 'at':
            C, V, key = loc.a[0].a
            if loc.a[1] == 'second':
                cur = self.read(st, C)
                kk = key if key.op == 'k' else mk('k', mk_proj(self.elem(st, V if V.op != 'live' else cur, key), 'first'))
                nv = self.insert(cur, kk, mk('rec', 'pair', (('first', kk.a[0]), ('second', v))), C)
                self.write(st, C, nv)
                sts = self.emit(st, Event('mut', 'set', C, (kk.a[0], v), fr, line))
                return [(s, result) for s in sts]
        self.write(st, loc, v)
        sts = self.emit(st, Event('write', loc.a[1] if loc.op == 'fld' else loc.op, loc, (v,), fr, line))
        return [(s, result) for s in sts]

    def insert(self, cur, key, v, C):
        d = 0
        x = cur
        while x.op in ('ins', 'del'):
            d += 1
            x = x.a[0]
        if d > 5:
            return mk('cv', C, 'deep')
        return mk('ins', cur, key, v)

    def eval_new(self, fr, st, nid, n):
        ts = sbase(n.get('at'))
        rec = rec_of(n.get('at')) or ts
        sym = mk('new', rec, (fr.fid, nid))
        i = n.get('init')
        if n.get('array'):
            self.fresh(st, sym)
            size = self.rv(fr, st, n['size']) if isinstance(n.get('size'), int) else None
            return [(s, sym) for s in self.emit(st, Event('new', rec, sym, (size,) if size is not None else (), fr,
                                                          n.get('line', 0), 'array'))]
        if isinstance(i, int):
            iv = st.vals.get((fr.fid, i))
            if iv is not None and iv.op == 'inplace':
                return [(s, sym) for s in self.emit(st, Event('new', rec, sym, (), fr, n.get('line', 0)))]
            self.fresh(st, sym)
            v = self.rv(fr, st, i)
            self.write(st, mk_obj(sym), v)
        else:
            self.fresh(st, sym)
        return [(s, sym) for s in self.emit(st, Event('new', rec, sym, (), fr, n.get('line', 0)))]

    # -------------------------------------------------------- constructors
    def construct(self, fr, st, nid, n):
        ts = sbase(n['t'])
        args = n['args']
        one = lambda v: [(st, v)]
        if n.get('copy') or n.get('move'):
            if ts.startswith(LOCKS):
                src = self.lvloc(fr, st, args[0])
                v = self.read(st, src)
                if v.op == 'lk':
                    st.store[src] = mk('lk', v.a[0], 0)
                return one(v)
            if not (n.get('repo') and n['usr'] in self.p.fns) or ts == 'efsw::FileInfo' and 'efsw::FileInfo' not in self.raw:
                v = self.rv(fr, st, args[0])
                if ts.startswith(CONTAINERS):
                    return one(v)
                return one(v)
        if ts.startswith('std::basic_string'):
            return self.string_ctor(fr, st, nid, n)
        if ts.startswith(LOCKS):
            if not args:
                return one(mk('lk', NULL, 0))
            m = self.lvloc(fr, st, args[0])
            if len(args) > 1:
                tag = sbase(fr.fn.nodes[args[1]].get('t'))
                if 'defer' in tag:
                    return one(mk('lk', m, 0))
                if 'adopt' in tag:
                    return one(mk('lk', m, 1))
            sts = self.lock(fr, st, m, n.get('line', 0))
            return [(s, mk('lk', m, 1)) for s in sts]
        if ts.startswith(ITERS):
            if args:
                return one(self.rv(fr, st, args[0]))
            return one(mk('itundef'))
        if ts.startswith(CONTAINERS):
            if not args or all(sbase(fr.fn.nodes[a].get('t')).startswith('std::allocator') for a in args):
                return one(EMPTYC)
            a0 = fr.fn.nodes[args[0]]
            t0 = sbase(a0.get('t'))
            v = self.rv(fr, st, args[0])
            if t0.startswith('std::initializer_list') or a0['k'] == 'initlist':
                return one(v)
            if len(args) >= 2 and v.op == 'it':
                w = self.rv(fr, st, args[1])
                if w.op == 'itend' and w.a[0] is v.a[0]:
                    return one(v.a[1])     # range constructor
            return one(self.fresh(st, mk('cv', STR('ctor'), (fr.fid, nid))))
        if ts.startswith('std::pair'):
            if len(args) == 2:
                return one(mk('rec', 'pair', (('first', self.rv(fr, st, args[0])), ('second', self.rv(fr, st, args[1])))))
            if len(args) == 1:
                return one(self.rv(fr, st, args[0]))
            return one(mk('def', 'pair', mk('undef', 'pair', fr.fid)))
        if ts.startswith(('std::function', 'std::atomic', 'efsw::Atomic', 'std::unique_ptr', 'std::shared_ptr',
                          'std::reference_wrapper')) and not (n.get('repo') and 'efsw::Atomic' in self.raw):
            if args:
                return one(self.rv(fr, st, args[0]))
            return one(NULL)
        if ts.startswith('std::allocator'):
            return one(NULL)
        if ts == 'efsw::FileInfo' and 'efsw::FileInfo' not in self.raw:
            if not args:
                return one(mk('fi0'))
            p = self.rv(fr, st, args[0])
            if len(args) > 1:
                w = self.rv(fr, st, args[1])
                lt = self.truth(st, w)
                v = mk('lfi', p) if lt else mk('fi', p) if lt is False else mk('any', 'fi', fr.fid, nid)
            else:
                v = mk('fi', p)
            sts = self.emit(st, Event('stat', 'FileInfo', None, (p,), fr, n.get('line', 0)))
            return [(s, v) for s in sts]
        # where is it constructed?
        target = self.target(fr, st, nid, n)
        c = self.mkcall(fr, st, nid, n)
        key = ts
        if 'ctor:' + ts in self.anchors:
            return self.anchors['ctor:' + ts](self, st, c, target)
        if n.get('repo') and n['usr'] in self.p.fns and ts not in self.noinline and \
                n['usr'] not in fr.stack:
            fn = self.p.fns[n['usr']]
            if target is None:
                target = mk('tmp', fr.fid, nid)
            for k in self.children(st, target):
                del st.store[k]
            st.store.pop(target, None)
            if target.op != 'obj':
                st.store[target] = mk('def', ts, mk('undef', ts, (fr.fid, nid)))
            a = self.bind(fr, st, fn, args)
            self.inlined.add(fn.q)
            outs = self.run(fn, st, a, this=mk_addr(target), up=fr, site=nid)
            return [(s, mk('inplace', target)) for s, r in outs]
        if n.get('def') or not args:
            v = mk('def', ts, self.fresh(st, mk('undef', short(ts), (fr.fid, nid))))
            if target is not None and target.op == 'obj':
                self.write(st, target, v)
                return one(mk('inplace', target))
            return one(v)
        sts = self.emit(st, Event('ctor', ts, target, tuple(c.args), fr, n.get('line', 0)))
        if target is not None and target.op == 'obj':
            return [(s, mk('inplace', target)) for s in sts]
        return [(s, mk('obj:' + ts, (fr.fid, nid), tuple(c.args))) for s in sts]

    def target(self, fr, st, nid, n):
        for kind, x in fr.fn.parents.get(nid, ()):
            if kind == 'n' and fr.fn.nodes[x]['k'] == 'new' and fr.fn.nodes[x].get('init') == nid:
                nn = fr.fn.nodes[x]
                sym = mk('new', rec_of(nn.get('at')) or sbase(nn.get('at')), (fr.fid, x))
                self.fresh(st, sym)
                return mk_obj(sym)
            if kind == 'd':
                d = fr.fn.decls[x]
                if not d['t'].get('ref') and d.get('kind') != 'static':
                    return mk('v', fr.fid, x, d['name'])
            if kind == 'i':
                if x is None:
                    return mk_obj(fr.this)
                return mk_fld(mk_obj(fr.this), norm_field(x))
        return None

    def string_ctor(self, fr, st, nid, n):
        args = [a for a in n['args'] if not sbase(fr.fn.nodes[a].get('t')).startswith('std::allocator')]
        one = lambda v: [(st, v)]
        if not args:
            return one(EMPTY)
        a0 = fr.fn.nodes[args[0]]
        v = self.rv(fr, st, args[0])
        if len(args) == 1:
            return one(self.as_string(st, v))
        if v.op == 'it':
            return one(mk('ap', 'strrange', v, self.rv(fr, st, args[1])))
        rest = [self.rv(fr, st, a) for a in args[1:]]
        if a0.get('t', {}).get('k') == 'int':
            if isint(v) and isint(rest[0]) and v.a[0] == 1:
                return one(STR(chr(rest[0].a[0] & 255)))
            return one(mk('ap', 'fill', v, rest[0]))
        s = self.as_string(st, v)
        if sbase(a0.get('t')).startswith('std::basic_string'):
            return one(mk('substr', s, *rest))
        return one(mk('substr', s, NULL, rest[0]))

    def as_string(self, st, v):
        """text at a char pointer, or the string itself"""
        if v.op == 'addr':
            l = v.a[0]
            if l.op in ('v', 'fld', 'idx', 'obj', 'tmp', 'g'):
                b = l.a[0] if l.op == 'idx' and l.a[1] is NULL else l
                return mk('cstr', self.read(st, b))
        if v.op == 'strdata':
            return v.a[0]
        return v

    # --------------------------------------------------------------- calls
    def bind(self, fr, st, fn, argnodes):
        a = []
        for i, prm in enumerate(fn.params):
            if i >= len(argnodes):
                a.append(mk('any', 'arg%d' % i, fr.fid, 0))
                continue
            if prm['t'].get('ref'):
                a.append(self.lvloc(fr, st, argnodes[i]))
            else:
                v = self.rv(fr, st, argnodes[i])
                if prm['t'].get('k') == 'bool':
                    v = mk_bool(v)
                a.append(v)
        return a

    def mkcall(self, fr, st, nid, n):
        c = Call()
        c.n = nid
        c.node = n
        c.nid = nid
        c.fr = fr
        c.name = n.get('n')
        c.q = n.get('q')
        c.cls = n.get('cls')
        c.line = n.get('line', 0)
        c.objloc = None
        c.obj = None
        if 'obj' in n:
            on = fr.fn.nodes[n['obj']]
            if n.get('arrow'):
                c.obj = self.rv(fr, st, n['obj'])
                c.objloc = mk_obj(c.obj)
            else:
                c.objloc = self.lvloc(fr, st, n['obj'])
                c.obj = mk_addr(c.objloc)
        c.args = []
        c.alocs = []
        for a in n['args']:
            an = fr.fn.nodes[a]
            v = self.val(fr, st, a)
            if an.get('lv'):
                c.alocs.append(v)
                c.args.append(self.value(st, v))
            else:
                if v.op == 'inplace':
                    c.alocs.append(v.a[0])
                    v = self.value(st, v.a[0])
                else:
                    c.alocs.append(None)
                c.args.append(v)
        return c

    def call(self, fr, st, nid, n):
        self.calls += 1
        name = n.get('n')
        q = n.get('q') or ''
        cls = n.get('cls') or ''
        one = lambda v: [(st, v)]
        c = self.mkcall(fr, st, nid, n)
        # 1 rule anchors
        for key in (q, (cls + '::' + name) if cls else name, name):
            h = self.anchors.get(key)
            if h is not None:
                r = h(self, st, c)
                if r is not None:
                    return r
        # 2 library
        if name == '?':
            return self.indirect(fr, st, c)
        if not n.get('repo'):
            r = self.library(fr, st, c, cls, name)
            if r is not None:
                return r
        # 3 efsw leaf functions
        if cls and cls not in self.raw and q not in self.raw:
            r = self.leaf(fr, st, c, cls, name)
            if r is not None:
                return r
        # 4 repository functions
        if n.get('repo'):
            return self.repo_call(fr, st, c)
        # 5 external
        return self.external(fr, st, c)

    def resolve_virtual(self, st, c):
        n = c.node
        usr = n['usr']
        if not n.get('virt') or n.get('nonvirt'):
            return [usr] if usr in self.p.fns else []
        cands = [usr] + self.all_overriders(usr)
        cands = [u for u in cands if u in self.p.fns]
        # static type narrowing by the backend under analysis
        if c.cls in ('efsw::FileWatcherImpl', self.backend) and self.backend:
            fam = [self.backend] + self.p.bases(self.backend)
            best = [u for u in cands if self.p.fns[u].cls == self.backend]
            if best:
                return best
            return [u for u in cands if self.p.fns[u].cls in fam]
        return cands

    def all_overriders(self, usr):
        out = []
        wl = [usr]
        while wl:
            for o in self.p.overriders.get(wl.pop(), ()):
                if o not in out:
                    out.append(o)
                    wl.append(o)
        return out

    def is_listener(self, cls):
        return cls == 'efsw::FileWatchListener' or (cls and 'efsw::FileWatchListener' in self.p.bases(cls))

    def repo_call(self, fr, st, c):
        n = c.node
        usr = n['usr']
        if self.is_listener(c.cls) and n.get('virt'):
            return self.callback(fr, st, c)
        targets = self.resolve_virtual(st, c)
        targets = [u for u in targets if self.p.fns[u].q not in self.noinline]
        if not targets or usr in fr.stack and targets == [usr] or any(u in fr.stack for u in targets) or \
                (self.inline is not None and not any(self.inline(self.p.fns[u]) for u in targets)):
            return self.external(fr, st, c, repo=True)
        out = []
        for i, u in enumerate(targets):
            fn = self.p.fns[u]
            s = st if i == len(targets) - 1 else st.copy()
            a = self.bind(fr, s, fn, n['args'])
            this = c.obj if ('obj' in n) else (fr.this if fn.cls and not fn.static else None)
            self.inlined.add(fn.q)
            s.trail = (s.trail, '>%s' % fn.n)
            for s2, r in self.run(fn, s, a, this=this, up=fr, site=c.nid):
                s2.trail = (s2.trail, '<%s' % fn.n)
                out.append((s2, r if r is not None else NULL))
        # reference results stay locations, values stay values
        return out

    def callback(self, fr, st, c):
        ev = Event('cb', c.name, c.obj, tuple(c.args), fr, c.line)
        sts = self.emit(st, ev)
        for s in sts:
            if self.havoc:
                self.havoc_shared(fr, s, ('cb', fr.fid, c.nid))
        return [(s, NULL) for s in sts]

    def havoc_shared(self, fr, st, site, keep=()):
        for C in self.shared_locs(st):
            if C in keep:
                continue
            sym = mk('hv', C)
            self.fresh(st, sym)
            for k in self.children(st, C):
                del st.store[k]
            st.store[C] = sym

    SHARED = {
        'efsw::FileWatcherInotify': ('mWatches', 'mRealWatches', 'mWatchesRef', 'mMovedOutsideWatches', 'mDeletedWatches'),
        'efsw::FileWatcherGeneric': ('mWatches', 'mDeletedWatches'),
    }

    def shared_locs(self, st):
        b = self.backend
        if b not in self.shared:
            r = self.p.records.get(b)
            l = []
            if r:
                for f in r['fields']:
                    t = sbase(f.get('t'))
                    if t.startswith(CONTAINERS):
                        l.append(mk_fld(mk_obj(THIS), f.get('q', f['n'])))
            self.shared[b] = l
        return self.shared[b]

    def lock(self, fr, st, m, line):
        outer = not st.locks
        st.locks = st.locks + (m,)
        if outer and self.havoc:
            self.havoc_shared(fr, st, ('lk', fr.fid, line), self.stable)
        return self.emit(st, Event('lock', 'lock', m, (), fr, line))

    def unlock(self, fr, st, m, line):
        l = list(st.locks)
        for i in range(len(l) - 1, -1, -1):
            if l[i] is m:
                del l[i]
                break
        st.locks = tuple(l)
        if self.forget and not l:
            self.havoc_shared(fr, st, ('ul', fr.fid, line))
        return self.emit(st, Event('unlock', 'unlock', m, (), fr, line))

    def indirect(self, fr, st, c):
        n = c.node
        f = None
        if isinstance(n.get('fnexpr'), int):
            f = self.rv(fr, st, n['fnexpr'])
        if f is not None and f.op == 'lam':
            args = [x if x is not None else mk('val', y) for x, y in zip(c.alocs, c.args)]
            return self.apply_lambda(fr, st, f, args, c.nid)
        sts = self.emit(st, Event('pcall', '?', f, tuple(c.args), fr, c.line))
        return [(s, self.fresh(s, mk('ret', '?', (fr.fid, c.nid)))) for s in sts]

    def external(self, fr, st, c, repo=False):
        n = c.node
        name = c.name
        sts = self.emit(st, Event('rcall' if repo else 'call', c.q if repo else name, c.obj, tuple(c.args), fr, c.line,
                                  None, tuple(c.alocs)))
        out = []
        for s in sts:
            # out parameters
            for i, pt in enumerate(n.get('pt', ())):
                if i >= len(c.args):
                    break
                if pt.get('ref') == 1 and not pt.get('const'):
                    if c.alocs[i] is not None:
                        self.havoc_loc(s, c.alocs[i], name, (fr.fid, c.nid, i))
                elif pt.get('k') == 'ptr' and 'const' not in pt.get('s', ''):
                    v = c.args[i]
                    if v.op == 'addr' and not repo:
                        self.havoc_loc(s, v.a[0], name, (fr.fid, c.nid, i))
                    elif v.op == 'new' and not repo:
                        self.havoc_loc(s, mk_obj(v), name, (fr.fid, c.nid, i))
            if repo and self.havoc and self.mutator(c):
                self.havoc_shared(fr, s, ('rc', fr.fid, c.nid))
            t = n.get('t', {})
            if n.get('void') or t.get('k') == 'void':
                out.append((s, NULL))
                continue
            r = self.fresh(s, mk('ret', name, (fr.fid, c.nid)))
            if getattr(self.mon, 'wants_got', False):
                self.emit(s, Event('got', c.q if repo else name, r, tuple(c.args), fr, c.line, (fr.fid, c.nid), tuple(c.alocs)))
            if n.get('lv'):
                out.append((s, mk_obj(r)))
            else:
                out.append((s, r))
        if not repo and name not in PURE_EXT:
            self.unknown.setdefault(('ext', name), c.line)
        return out

    def mutator(self, c):
        """can the callee ( not followed ) change the tables of the watcher?"""
        fam = [self.backend] + self.p.bases(self.backend) + ['efsw::DirWatcherGeneric', 'efsw::WatcherGeneric']
        return (c.cls or '') in fam and not c.node.get('cm')

    def havoc_loc(self, st, loc, name, site):
        for k in self.children(st, loc):
            del st.store[k]
        st.store[loc] = self.fresh(st, mk('out', name, site))

    # ------------------------------------------------------- efsw leaf model
    def leaf(self, fr, st, c, cls, name):
        one = lambda v: [(st, v)]
        a = c.args
        if name == 'inParentTree' and cls == 'efsw::WatcherInotify' and len(a) == 1 and c.obj is not None:
            return one(mk('ap', 'b:inTree', c.obj, a[0]))
        if cls == 'efsw::String' and name == 'strStartsWith' and len(a) == 2:
            return one(mk('sw', self.as_string(st, a[0]), self.as_string(st, a[1])))
        if cls in ('efsw::FileSystem', 'efsw::Platform::FileSystem'):
            if name == 'getOSSlash':
                return one(INT(47))
            if name == 'dirAddSlashAtEnd' and c.alocs[0] is not None:
                self.write(st, c.alocs[0], mk_slash(a[0]))
                return one(NULL)
            if name == 'dirRemoveSlashAtEnd' and c.alocs[0] is not None:
                self.write(st, c.alocs[0], mk_noslash(a[0]))
                return one(NULL)
            if name == 'slashAtEnd':
                return one(mk('slashend', a[0]))
            if name == 'fileNameFromPath':
                return one(mk_fname(a[0]))
            if name == 'pathRemoveFileName':
                return one(mk('dirname', mk_noslash(a[0])))
            if name == 'isDirectory':
                return one(mk('isdir', mk('fi', a[0])))
            if name == 'isRemoteFS':
                sts = self.emit(st, Event('query', name, None, (a[0],), fr, c.line))
                return [(s, mk('remote', a[0])) for s in sts]
            if name == 'getLinkRealPath' and len(a) > 1 and c.alocs[1] is not None:
                # ("", curPath untouched) or (real path, directory of the link)
                s2 = st.copy()
                link = mk('ap', 'linktarget', mk_noslash(a[0]))
                out = []
                if self.assume(st, mk_eq(link, EMPTY), True):
                    out.append((st, EMPTY))
                if self.assume(s2, mk_eq(link, EMPTY), False):
                    self.write(s2, c.alocs[1], mk('dirname', mk_noslash(a[0])))
                    out.append((s2, link))
                return out
            if name == 'filesInfoFromPath':
                sts = self.emit(st, Event('query', name, None, (a[0],), fr, c.line))
                return [(s, mk('listing', mk_slash(a[0]))) for s in sts]
            if name == 'precomposeFileName':
                return one(a[0])
        if cls == 'efsw::FileInfo':
            v = None
            if c.objloc is not None:
                v = self.value(st, c.objloc)
                r = st.rep.get(v)
                v = r if r is not None else v
                while v.op == 'upd' and v.a[1] == 'efsw::FileInfo::Filepath' and name != 'exists':
                    v = v.a[0]
            if name == 'isDirectory':
                return one(mk('isdir', v))
            if name == 'isReadable':
                return one(mk('readable', v))
            if name == 'isRegularFile':
                return one(mk('isreg', v))
            if name == 'isLink':
                return one(mk('islink', v if v is not None else mk('lfi', a[0])))
            if name == 'exists':
                if v is None:
                    return one(mk('exists', a[0]))
                return one(mk('exists', mk_proj(v, 'efsw::FileInfo::Filepath')))
            if name == 'inodeSupported':
                return one(ONE)
            if name == 'sameInode':
                x, y = sorted((v, a[0]), key=lambda t: t.id)
                return one(mk('sameino', x, y))
            if name in ('operator==', 'operator!='):
                x, y = sorted((v, a[0]), key=lambda t: t.id)
                e = mk('same', x, y)
                return one(e if name == 'operator==' else mk_not(e))
            if name == 'operator=':
                return self.store_to(fr, st, c.objloc, a[0], c.line, c.objloc)
            if name == 'linksTo':
                return one(mk('ap', 'realpath', mk_proj(v, 'efsw::FileInfo::Filepath')))
        if cls == 'efsw::Atomic':
            if name == 'operator=':
                return self.store_to(fr, st, c.objloc, a[0], c.line, c.objloc)
            return self.atomic_read(fr, st, c)
        if cls == 'efsw::Thread':
            sts = self.emit(st, Event('thread', name, c.obj, tuple(a), fr, c.line))
            return [(s, NULL) for s in sts]
        return None

    def atomic_read(self, fr, st, c):
        v = st.store.get(c.objloc)
        if v is not None and v.op == 'int':
            return [(st, v)]
        r = self.fresh(st, mk('ret', 'b:' + show(c.objloc), (fr.fid, c.nid)))
        x = mk('ap', 'b:atomic', c.objloc, r)
        return [(st, x)]

    # -------------------------------------------------------------- library
    def deref(self, st, it):
        """-> list of (state, location) of the element an iterator denotes"""
        if it.op == 'it':
            C, V, key = it.a
            loc = mk('at', C, V, key)
            if V.op == 'list' and len(V.a[0]) > 1 and loc not in st.store:
                out = []
                for alt in V.a[0]:
                    s = st.copy()
                    s.store[loc] = alt
                    out.append((s, loc))
                return out
            return [(st, loc)]
        if it.op == 'addr' or it.op in ('param', 'ret', 'init', 'new', 'any'):
            return [(st, mk_obj(it))]
        return [(st, mk('at', mk('bad'), mk('cv', STR('?'), it.id), mk('k', it)))]

    def iter_eq(self, a, b):
        if a.op == 'itend' and b.op == 'itend':
            return ONE
        if a.op == 'itend':
            a, b = b, a
        if b.op == 'itend' and a.op == 'it':
            if a.a[2].op == 'k':
                return NULL
            if a.a[1].op == 'list' and not a.a[1].a[0]:
                return ONE
            return mk('atend', a.a[2], a.a[1])
        if a.op == 'it' and b.op == 'it':
            return mk_eq(a.a[2], b.a[2])
        return mk('eq', *sorted((a, b), key=lambda t: t.id))

    def begin(self, fr, st, C, V, nid, tag=''):
        ek = self.fresh(st, mk('ek', C, (fr.fid, nid)))
        V = self.value(st, C)
        return mk('it', C, V, ek)

    def library(self, fr, st, c, cls, name):
        one = lambda v: [(st, v)]
        a = c.args
        site = (fr.fid, c.nid)
        if not cls:
            return self.free_library(fr, st, c, name)
        if cls.startswith('std::basic_string'):
            return self.string_method(fr, st, c, name)
        if cls in MUTEX:
            if name == 'lock':
                return [(s, NULL) for s in self.lock(fr, st, c.objloc, c.line)]
            if name == 'unlock':
                return [(s, NULL) for s in self.unlock(fr, st, c.objloc, c.line)]
            if name == 'try_lock':
                s2 = st.copy()
                return [(s, ONE) for s in self.lock(fr, s2, c.objloc, c.line)] + [(st, NULL)]
        if cls in LOCKS:
            v = self.read(st, c.objloc)
            if v.op == 'lk':
                if name == 'unlock' and v.a[1] == 1:
                    st.store[c.objloc] = mk('lk', v.a[0], 0)
                    return [(s, NULL) for s in self.unlock(fr, st, v.a[0], c.line)]
                if name == 'lock' and v.a[1] == 0:
                    st.store[c.objloc] = mk('lk', v.a[0], 1)
                    return [(s, NULL) for s in self.lock(fr, st, v.a[0], c.line)]
                if name == 'owns_lock':
                    return one(INT(v.a[1]))
        if cls.startswith('std::atomic') or cls.startswith('std::__atomic'):
            if name in ('store', 'operator='):
                return self.store_to(fr, st, c.objloc, a[0], c.line, c.objloc)
            return self.atomic_read(fr, st, c)
        if cls.startswith(ITERS):
            return self.iter_method(fr, st, c, name)
        if cls.startswith(CONTAINERS):
            return self.container(fr, st, c, cls, name)
        if cls.startswith('std::pair') and name == 'operator=':
            return self.store_to(fr, st, c.objloc, a[0], c.line, c.objloc)
        if cls.startswith('std::function'):
            if name == 'operator()':
                f = self.read(st, c.objloc)
                if f.op == 'lam':
                    return self.apply_lambda(fr, st, f, [x if x is not None else mk('val', y) for x, y in zip(c.alocs, a)],
                                             c.nid)
        if cls.startswith(('std::unique_ptr', 'std::shared_ptr')):
            if name in ('get',):
                return one(self.read(st, c.objloc))
            if name == 'operator->':
                return one(self.read(st, c.objloc))
            if name == 'operator*':
                return one(mk_obj(self.read(st, c.objloc)))
            if name == 'operator bool':
                return one(mk_bool(self.read(st, c.objloc)))
            if name == 'release':
                v = self.read(st, c.objloc)
                st.store[c.objloc] = NULL
                return one(v)
            if name == 'reset':
                v = self.read(st, c.objloc)
                nv = a[0] if a else NULL
                sts = self.emit(st, Event('delete', 'unique_ptr', v, (nv,), fr, c.line, 'reset'))
                for s in sts:
                    self.write(s, c.objloc, nv)
                return [(s, NULL) for s in sts]
        if name == 'operator=' and len(a) == 1 and c.objloc is not None:
            return self.store_to(fr, st, c.objloc, a[0], c.line, c.objloc)
        return None

    def iter_method(self, fr, st, c, name):
        it = self.read(st, c.objloc)
        a = c.args
        if name == 'operator*':
            return self.deref(st, it)
        if name == 'operator->':
            return [(s, mk_addr(l)) for s, l in self.deref(st, it)]
        if name == 'base':
            return [(st, it)]
        if name in ('operator++', 'operator--'):
            post = len(a) == 1
            if it.op != 'it':
                return [(st, c.objloc if not post else it)]
            C, V, key = it.a
            ek = key if key.op == 'ek' else mk('ek', C, ('n', fr.fid, c.nid))
            sts = self.emit(st, Event('step', name, c.objloc, (it,), fr, c.line, ek))
            out = []
            for s in sts:
                self.fresh(s, ek)
                cur = self.read(s, c.objloc)
                V2 = cur.a[1] if cur.op == 'it' else V
                o = cur
                s.store[c.objloc] = mk('it', C, V2, ek)
                # choice of the alternatives of a list is per element
                for k in [k for k in s.store if k.op == 'at' and k.a[2].op == 'old']:
                    del s.store[k]
                out.append((s, o if post else c.objloc))
            return out
        if name == 'operator=':
            st.store[c.objloc] = a[0]
            return [(st, c.objloc)]
        if name in ('operator+', 'operator-', 'operator+=', 'operator-='):
            return None
        if name in ('operator==', 'operator!='):
            e = self.iter_eq(it, a[0])
            return [(st, e if name == 'operator==' else mk_not(e))]
        return None

    def choose(self, st, loc):
        """list with several alternatives: one state per alternative"""
        return [(st, loc)]

    def container(self, fr, st, c, cls, name):
        C = c.objloc
        V = self.value(st, C)
        if V.op == 'def' or V.op == 'undef':
            V = EMPTYC
            st.store[C] = V
        a = c.args
        one = lambda v: [(st, v)]
        line = c.line
        site = (fr.fid, c.nid)
        ismap = cls.startswith(MAPS)
        isset = cls.startswith(SETS)

        def mut(op, args, nv, ret, extra=None):
            if nv is not None:
                d, x = 0, nv
                while x.op in ('ins', 'del'):
                    d += 1
                    x = x.a[0]
                if d > 5:
                    nv = mk('cv', C, 'deep')
                self.write(st, C, nv)
            sts = self.emit(st, Event('mut', op, C, args, fr, line, extra))
            return [(s, ret(s) if callable(ret) else ret) for s in sts]

        if name in ('begin', 'cbegin', 'rbegin', 'crbegin'):
            return one(self.begin(fr, st, C, V, c.nid))
        if name in ('end', 'cend', 'rend', 'crend'):
            return one(mk('itend', C))
        if name == 'empty':
            return one(mk_vempty(V))
        if name in ('size', 'length'):
            if V.op == 'list' and not V.a[0]:
                return one(NULL)
            return one(mk('vsize', V))
        if name in ('reserve', 'shrink_to_fit', 'sort'):
            return one(NULL)
        if name == 'data':
            return one(mk('vdata', V))
        if name in ('front', 'back'):
            return one(mk('at', C, V, mk('k', STR(name))))
        if name == 'find' or name == 'lower_bound' or name == 'upper_bound':
            k = a[0]
            t = self._has(st, V, k)
            out = []
            self.lookup_note(fr, st, C, V, k, line)
            for want in (False, True):
                if t is not None and t != want:
                    continue
                s = st.copy()
                if t is None:
                    if not self.assume(s, mk('has', V, k), want):
                        continue
                    if want and not self.assume(s, mk_vempty(V), False):
                        continue
                    s.trail = (s.trail, '%s%s.find(%s)' % ('' if want else '!', show(C)[-24:], show(k)[:40]))
                    r = self.mon.branch(self, s, mk('has', V, k), want, fr, line)
                    if r is not None:
                        for s3 in r:
                            out.append((s3, mk('it', C, V, mk('k', k)) if want else mk('itend', C)))
                        continue
                out.append((s, mk('it', C, V, mk('k', k)) if want else mk('itend', C)))
            return out
        if name in ('count', 'contains'):
            self.lookup_note(fr, st, C, V, a[0], line)
            t = self._has(st, V, a[0])
            return one(mk('has', V, a[0]) if t is None else INT(t))
        if name in ('operator[]', 'at'):
            if ismap:
                return one(mk('fld', mk('at', C, mk('live'), mk('k', a[0])), 'second'))
            return one(mk('at', C, mk('live'), mk('k', a[0])))
        if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            x = a[0] if a else mk('def', 'elem', NULL)
            if name.startswith('emplace') and len(a) == 2:
                x = mk('rec', 'pair', (('first', a[0]), ('second', a[1])))
            if V.op == 'list' and len(V.a[0]) < 6:
                nv = MKS['list']((x,) + V.a[0] if name.endswith('front') else V.a[0] + (x,))
            elif V.op == 'app' or V.op == 'list' or name.endswith('front'):
                nv = mk('cv', C, 'pushed')
            else:
                nv = mk('app', V, x)
            return mut('push', (x,), nv, NULL)
        if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace') and ismap:
            if len(a) == 2 and a[0].op not in ('it', 'itend'):
                k, v = a[0], a[1]
            elif len(a) == 1:
                k, v = mk_proj(a[0], 'first'), mk_proj(a[0], 'second')
            else:
                k, v = mk('any', 'k', fr.fid, c.nid), mk('any', 'v', fr.fid, c.nid)
            pr = mk('rec', 'pair', (('first', k), ('second', v)))
            out = []
            t = self._has(st, V, k)
            for want in (False, True):
                if self.insert_new:
                    if want:
                        continue
                elif t is not None and t != want:
                    continue
                s = st.copy()
                if t is None and not self.assume(s, mk('has', V, k), want):
                    continue
                it = mk('it', C, mk('live'), mk('k', k))
                r = mk('rec', 'pair', (('first', it), ('second', INT(not want))))
                if want and name != 'insert_or_assign':
                    out.append((s, r))
                else:
                    self.write(s, C, self.insert(V, mk('k', k), pr, C))
                    for s2 in self.emit(s, Event('mut', 'set', C, (k, v), fr, line)):
                        out.append((s2, r))
            return out
        if name in ('insert', 'emplace') and isset:
            return mut('push', (a[0],), mk('ins', V, mk('k', a[0]), a[0]), mk('any', 'insret', fr.fid, c.nid))
        if name == 'swap' and len(a) == 1 and c.alocs[0] is not None:
            D = c.alocs[0]
            W = self.value(st, D)
            if W.op == 'def' or W.op == 'undef':
                W = EMPTYC
            self.write(st, C, W)
            self.write(st, D, V)
            return [(s2, NULL) for s in self.emit(st, Event('mut', 'swap', C, (W,), fr, line)) for s2 in self.emit(s, Event('mut', 'swap', D, (V,), fr, line))]
        if name in ('insert', 'assign', 'splice', 'swap', 'resize', 'merge', 'emplace'):
            return mut(name, tuple(a), self.fresh(st, mk('cv', C, site)), mk('it', C, mk('live'), mk('k', mk('any', name, fr.fid, c.nid))))
        if name == 'clear':
            return mut('clear', (V,), EMPTYC, NULL)
        if name == 'pop_back' or name == 'pop_front':
            return mut('pop', (), self.fresh(st, mk('cv', C, site)), NULL)
        if name == 'erase':
            if len(a) == 2:
                if a[0].op == 'itrm':
                    return mut('erase_if', (a[0].a[2],), a[0].a[1], mk('itend', C), a[0].a[3])
                return mut('erase_range', tuple(a), self.fresh(st, mk('cv', C, site)), mk('itend', C))
            x = a[0]
            if x.op == 'it':
                ev = self.elem(st, x.a[1] if x.a[1].op != 'live' else V, x.a[2])
                if ismap:
                    k = x.a[2].a[0] if x.a[2].op == 'k' else mk_proj(ev, 'first')
                    val = mk_proj(ev, 'second')
                    alt = st.store.get(mk('at', *x.a))
                else:
                    alt = st.store.get(mk('at', *x.a))
                    val = alt if alt is not None else ev
                    k = x.a[2].a[0] if x.a[2].op == 'k' else x.a[2]
                if V.op == 'list':
                    nv = self.fresh(st, mk('cv', C, site))
                else:
                    nv = mk('del', V, k) if ismap or isset else mk('del', V, k)

                def nxt(s):
                    ek = mk('ek', C, ('er', fr.fid, c.nid)) if x.a[2].op != 'ek' else x.a[2]
                    return mk('it', C, self.read(s, C), mk('ek', C, ('er',) + site))
                evn = Event('step', 'erase', C, (x,), fr, line, x.a[2])
                out = []
                for s0 in self.emit(st, evn):
                    d, y = 0, nv
                    while y.op in ('ins', 'del', 'app'):
                        d += 1
                        y = y.a[0]
                    self.write(s0, C, nv if d <= 5 else mk('cv', C, 'deep'))
                    for s in self.emit(s0, Event('mut', 'erase', C, (k, val), fr, line, 'it')):
                        # value read before renaming
                        if fr.fn.parents.get(c.nid):
                            self.fresh(s, mk('ek', C, ('er',) + site))
                        out.append((s, nxt(s)))
                return out
            if ismap or isset:
                t = self._has(st, V, x)
                return mut('erase', (x, mk_proj(self.elem(st, V, mk('k', x)), 'second')), mk('del', V, x) if t is not False else V,
                           mk('has', V, x), 'key')
            return mut('erase', (x, x), self.fresh(st, mk('cv', C, site)), mk('itend', C))
        if name == 'operator=':
            src = a[0]
            st.store.pop(C, None)
            self.write(st, C, src)
            sts = self.emit(st, Event('mut', 'assign', C, (src,), fr, line))
            return [(s, C) for s in sts]
        if name == 'swap':
            return None
        return None

    def lookup_note(self, fr, st, C, V, k, line):
        pass

    def string_method(self, fr, st, c, name):
        one = lambda v: [(st, v)]
        a = c.args
        L = c.objloc
        s = self.value(st, L)
        if name in ('c_str', 'data'):
            return one(s)
        if name in ('size', 'length'):
            if s.op == 'str':
                return one(INT(len(s.a[0].encode('utf-8'))))
            return one(mk('size', s))
        if name == 'empty':
            return one(mk_eq(s, EMPTY))
        if name == 'clear':
            return self.store_to(fr, st, L, EMPTY, c.line, NULL)
        if name in ('operator=', 'assign') and len(a) >= 1:
            v = self.as_string(st, a[0])
            if len(a) > 1:
                v = mk('substr', v, *a[1:])
            return self.store_to(fr, st, L, v, c.line, L)
        if name in ('operator+=', 'append', 'push_back'):
            x = a[0]
            if len(a) == 2 and name == 'append':
                if isint(a[0]):
                    x = STR(chr(a[1].a[0] & 255)) if a[0].a[0] == 1 and isint(a[1]) else mk('ap', 'fill', a[0], a[1])
                else:
                    x = mk('substr', self.as_string(st, a[0]), NULL, a[1])
            elif isint(x):
                x = STR(chr(x.a[0] & 255)) if x.a[0] else EMPTY
            else:
                x = self.as_string(st, x)
            return self.store_to(fr, st, L, mk_cat(s, x), c.line, L if name != 'push_back' else NULL)
        if name == 'substr':
            if not a or a[0] is NULL and (len(a) < 2 or isint(a[1]) and a[1].a[0] < 0 or
                                          isint(a[1]) and a[1].a[0] > 2 ** 62):
                return one(s)
            pos = a[0]
            n = a[1] if len(a) > 1 else None
            if n is not None and isint(n) and (n.a[0] == -1 or n.a[0] > 2 ** 62):
                n = None
            return one(mk('substr', s, pos) if n is None else mk('substr', s, pos, n))
        if name == 'erase':
            pos = a[0] if a else NULL
            if len(a) < 2 or isint(a[1]) and (a[1].a[0] == -1 or a[1].a[0] > 2 ** 62):
                return self.store_to(fr, st, L, mk('substr', s, NULL, pos), c.line, L)
            if pos is NULL and not (a[1].op == 'it' or a[1].op == 'itend'):
                return self.store_to(fr, st, L, mk('substr', s, a[1]), c.line, L)
            return self.store_to(fr, st, L, mk('ap', 'strerase', s, *a), c.line, L)
        if name == 'replace' and len(a) == 3 and a[0] is NULL and a[1].op not in ('it', 'itend') and not isint(a[2]):
            return self.store_to(fr, st, L, mk_cat(self.as_string(st, a[2]), mk('substr', s, a[1])), c.line, L)
        if name == 'insert' and len(a) == 2 and a[0] is NULL and not isint(a[1]):
            return self.store_to(fr, st, L, mk_cat(self.as_string(st, a[1]), s), c.line, L)
        if name in ('pop_back',):
            return self.store_to(fr, st, L, mk('substr', s, NULL, mk('bin', '-', mk('size', s), ONE)), c.line, NULL)
        if name == 'resize' and len(a) == 1:
            return self.store_to(fr, st, L, mk('substr', s, NULL, a[0]), c.line, NULL)
        if name in ('find', 'rfind', 'find_last_of', 'find_first_of', 'find_last_not_of', 'find_first_not_of'):
            nm = name
            x = a[0]
            if isint(x):
                x = STR(chr(x.a[0] & 255))
                nm = {'rfind': 'find_last_of', 'find': 'find_first_of'}.get(name, name)
            elif x.op == 'str' and len(x.a[0]) == 1:
                nm = {'rfind': 'find_last_of', 'find': 'find_first_of'}.get(name, name)
            back = name in ('rfind', 'find_last_of', 'find_last_not_of')
            rest = tuple(y for y in a[1:] if not (isint(y) and (y.a[0] == -1 or y.a[0] == 0 and not back or y.a[0] > 2 ** 62)))
            return one(mk('sfind', nm, s, x, rest))
        if name in ('operator[]', 'at'):
            if L.op in ('v', 'fld', 'P', 'g', 'tmp', 'cap'):
                return one(mk('chrl', L, a[0]))
            return one(mk('val', mk('chat', s, a[0])))
        if name == 'back':
            return one(mk('val', mk('chat', s, mk('bin', '-', mk('size', s), ONE))))
        if name == 'front':
            return one(mk('val', mk('chat', s, NULL)))
        if name == 'compare':
            if len(a) == 1:
                return one(mk('cmp', *sorted((s, self.as_string(st, a[0])), key=lambda t: t.id)))
            if len(a) == 3 and a[0] is NULL and a[1].op == 'size' and a[1].a[0] is a[2]:
                return one(mk('boolint', mk_not(mk('prefix', a[2], s))))
            return one(mk('ap', 'compare', s, *a))
        if name in ('reserve', 'shrink_to_fit'):
            return one(NULL)
        if name in ('begin', 'cbegin', 'rbegin'):
            return one(mk('ap', 'sbegin', s))
        if name in ('end', 'cend', 'rend'):
            return one(mk('ap', 'send', s))
        return None

    def free_library(self, fr, st, c, name):
        one = lambda v: [(st, v)]
        a = c.args
        site = (fr.fid, c.nid)
        q = c.q or ''
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and len(a) == 2:
            x, y = a
            if x.op in ('it', 'itend', 'itundef') or y.op in ('it', 'itend', 'itundef'):
                if name in ('operator==', 'operator!='):
                    e = self.iter_eq(x, y)
                    return one(e if name == 'operator==' else mk_not(e))
            x, y = self.as_string(st, x), self.as_string(st, y)
            return one(self.arith(name[8:], self.resolve(st, x), self.resolve(st, y)))
        if name == 'operator+' and len(a) == 2:
            x, y = a
            if x.op in ('it',):
                return None
            conv = lambda v: STR(chr(v.a[0] & 255)) if isint(v) else self.as_string(st, v)
            return one(mk_cat(conv(x), conv(y)))
        if name in ('move', 'forward', 'ref', 'cref', 'addressof', 'as_const') and len(a) == 1:
            if name == 'addressof':
                return one(mk_addr(c.alocs[0]) if c.alocs[0] is not None else a[0])
            if c.node.get('lv') and c.alocs[0] is not None:
                return one(c.alocs[0])
            if c.node.get('lv'):
                loc = mk('tmp', fr.fid, c.nid)
                self.write(st, loc, a[0])
                return one(loc)
            return one(a[0])
        if name == 'make_pair':
            return one(mk('rec', 'pair', (('first', a[0]), ('second', a[1]))))
        if name in ('begin', 'cbegin') and len(a) == 1 and c.alocs[0] is not None:
            return one(self.begin(fr, st, c.alocs[0], a[0], c.nid))
        if name in ('end', 'cend') and len(a) == 1 and c.alocs[0] is not None:
            return one(mk('itend', c.alocs[0]))
        if name in ('next', 'prev') and a and a[0].op == 'it':
            return one(mk('it', a[0].a[0], a[0].a[1], self.fresh(st, mk('ek', a[0].a[0], ('nx', fr.fid, c.nid)))))
        if name in ('sort', 'stable_sort', 'reverse', 'unique'):
            return one(NULL)
        if name in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count_if', 'for_each', 'remove_if',
                    'count', 'remove', 'swap', 'copy', 'copy_if', 'transform', 'min', 'max', 'equal'):
            return self.algorithm(fr, st, c, name)
        if name == 'strcmp' and len(a) == 2:
            x, y = sorted((self.as_string(st, a[0]), self.as_string(st, a[1])), key=lambda t: t.id)
            return one(mk('cmp', x, y))
        if name == 'strlen' and len(a) == 1:
            return one(mk('size', self.as_string(st, a[0])))
        if name in ('strStartsWith',):
            return one(mk('sw', a[0], a[1]))
        if name in ('to_string',):
            return one(mk('ap', 'to_string', a[0]))
        return None

    def algorithm(self, fr, st, c, name):
        a = c.args
        if name in ('min', 'max') and len(a) >= 2:
            loc = mk('tmp', fr.fid, c.nid)
            self.write(st, loc, mk('ap', name, *sorted(a[:2], key=lambda t: t.id)))
            return [(st, loc if c.node.get('lv') else self.read(st, loc))]
        if not a or a[0].op not in ('it', 'itend'):
            return None
        if a[0].op == 'itend':
            return None
        C, V, _ = a[0].a
        site = (fr.fid, c.nid)
        if name in ('find', 'count', 'remove') and len(a) == 3:
            pred = lambda s, loc, val: [(s, mk_eq(val, a[2]))]
        elif len(a) >= 3 and a[2].op == 'lam':
            pred = lambda s, loc, val: self.apply_lambda(fr, s, a[2], [loc], c.nid)
        else:
            return None
        ek = self.fresh(st, mk('ek', C, ('alg',) + site))
        V = self.value(st, C)
        loc = mk('at', C, V, ek)
        outcomes = []
        base = []
        for s, l in self.deref(st.copy(), mk('it', C, V, ek)):
            outcomes += [(s2, mk_bool(r) if r is not None else NULL) for s2, r in pred(s, l, self.read(s, l))]
        if name == 'for_each':
            out = []
            sts = [st.copy()] + [s for s, r in outcomes]
            # each element once: the body is applied to a generic element, then renamed
            for s in sts:
                for s2 in self.emit(s, Event('step', 'for_each', C, (mk('it', C, V, ek),), fr, c.line, ek)):
                    self.fresh(s2, ek)
                    out.append((s2, a[2]))
            return out
        if name in ('remove_if', 'remove'):
            pr = tuple((tuple(sorted(((f, v) for f, v in s.facts.items() if ek in f.sy), key=lambda x: x[0].id)), r)
                       for s, r in outcomes)
            nv = self.fresh(st, mk('cv', C, site))
            return [(st, mk('itrm', C, nv, mk_elem(V, ek), pr))]
        neg = name in ('find_if_not', 'all_of')
        out = []
        # found
        for s, r in outcomes:
            s2 = s.copy()
            if self.assume(s2, r, not neg) and self.assume(s2, mk('atend', ek, V), False) and \
                    self.assume(s2, mk_vempty(V), False):
                v = {'find': mk('it', C, V, ek), 'find_if': mk('it', C, V, ek), 'find_if_not': mk('it', C, V, ek),
                     'any_of': ONE, 'all_of': NULL, 'none_of': NULL,
                     'count_if': ONE, 'count': ONE}[name]
                s2.trail = (s2.trail, '%s found' % name)
                b = self.mon.branch(self, s2, mk('found', V, r), True, fr, c.line)
                for s3 in ([s2] if b is None else b):
                    out.append((s3, v))
        s2 = st.copy()
        pr = tuple(sorted(set(r for s, r in outcomes), key=lambda t: t.id))
        s2.facts[mk('none', V, pr)] = True
        v = {'find': mk('itend', C), 'find_if': mk('itend', C), 'find_if_not': mk('itend', C),
             'any_of': NULL, 'all_of': ONE, 'none_of': ONE, 'count_if': NULL, 'count': NULL}[name]
        s2.trail = (s2.trail, '%s none' % name)
        r = self.mon.branch(self, s2, mk('none', V, pr), True, fr, c.line)
        for s3 in ([s2] if r is None else r):
            out.append((s3, v))
        return out
