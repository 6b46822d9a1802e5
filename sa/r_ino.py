"""C05-C14, C25, C26: the inotify backend ( path-sensitive dataflow )."""
from .prog import AnalysisError
from .result import Result
from .rules import rule
from .engine import *
from .ino import *
from .r_leaf import leaves

MASK = {'IN_MODIFY': 2, 'IN_CLOSE_WRITE': 8, 'IN_MOVED_FROM': 0x40, 'IN_MOVED_TO': 0x80, 'IN_CREATE': 0x100, 'IN_DELETE': 0x200,
        'IN_Q_OVERFLOW': 0x4000}
OTHER = {'IN_ACCESS': 1, 'IN_ATTRIB': 4, 'IN_CLOSE_NOWRITE': 0x10, 'IN_OPEN': 0x20, 'IN_DELETE_SELF': 0x400, 'IN_MOVE_SELF': 0x800,
         'IN_UNMOUNT': 0x2000, 'IN_IGNORED': 0x8000}
ISDIR = 0x40000000
ADD, DELETE, MODIFIED, MOVED = 1, 2, 3, 4
ANAME = {1: 'Add', 2: 'Delete', 3: 'Modified', 4: 'Moved'}


def excuse(eng, st, N, w, atom, val):
    """does the outcome of this test mean that nothing may be reported for w any more?"""
    while atom.op == 'not':
        atom, val = atom.a[0], not val
    if atom.op == 'eq':
        a, b = atom.a
        if val and (a is NULL or b is NULL):
            x = a if b is NULL else b
            return x is w or x.op == 'init' and x.a[0] is N.of(w, 'Listener')
        if not val and (a is w or b is w):
            x = b if a is w else a
            return any(s.op in ('elem', 'proj') for s in subterms(x))
        return False
    if atom.op == 'ap' and atom.a[0] == 'b:atomic':
        return not val and atom.a[1] is N.mInitOK
    if atom.op == 'has':
        return not val and vroot(atom.a[0], N.mWatches) and any(x is w for x in subterms(atom.a[1]))
    if atom.op in ('atend', 'none'):
        V = atom.a[1] if atom.op == 'atend' and len(atom.a) > 1 else atom.a[0]
        # an element that was passed over without being compared with w says nothing about w
        return val and isinstance(V, T) and vroot(V, N.mWatches) and eng.truth(st, mk_vempty(V)) is not False
    return False


class Reports(Monitor):
    """records the reports made for one watch; ('x',) marks a test that allows to report nothing more"""
    init = ()

    def __init__(self, N, w):
        self.N, self.w = N, w

    def event(self, eng, st, ev):
        if ev.kind == 'cb':
            N, w = self.N, self.w
            a = ev.args
            d = eng.resolve(st, get(eng, st, w, 'Directory', N))
            i = eng.resolve(st, get(eng, st, w, 'ID', N))
            l = eng.resolve(st, get(eng, st, w, 'Listener', N))
            reg = eng.resolve(st, get(eng, st, w, 'OldFileName', N))
            st.mon = tuple(x for x in st.mon if x[0] != 'x') + (
                ('cb', ev.name, ev.obj, a, (l, i, d, reg), ev.where()),)

    def branch(self, eng, st, atom, val, fr, line):
        if excuse(eng, st, self.N, self.w, atom, val) and ('x',) not in st.mon:
            st.mon = st.mon + (('x',),)


def handle_params(fn):
    return (param(fn, is_ptr_to('Watcher')), param(fn, is_string),
            param(fn, lambda t: t.get('s', '').replace('const ', '') in ('unsigned long', 'unsigned int', 'uint32_t', 'int', 'long')))


def anchors_of(p):
    ad = adder(p)
    return {ad.q: opaque}


def handler(p):
    for f in p.fns.values():
        if f.cls == CLS and f.n == 'handleAction':
            return f
    raise AnalysisError('handleAction vanished')


def run_handler(p, mask, name=None):
    fn = handler(p)
    N = Names(p)
    iw, iname, ia = handle_params(fn)
    w = mk('param', iw, fn.params[iw]['name'])
    nm = mk('param', iname, fn.params[iname]['name'])
    eng = Engine(p, Reports(N, w), anchors=anchors_of(p))
    res = eng.enter(fn, params={ia: INT(mask), iw: w, iname: nm})
    return fn, N, w, nm, eng, res


def expected(label, st, N, w, eng, old):
    """reports due for one notification: list of (function, action, with old name)"""
    if label in ('IN_MODIFY', 'IN_CLOSE_WRITE'):
        return [('handleFileAction', MODIFIED, False)]
    if label == 'IN_CREATE':
        return [('handleFileAction', ADD, False)]
    if label == 'IN_DELETE':
        return [('handleFileAction', DELETE, False)]
    if label == 'IN_Q_OVERFLOW':
        return [('handleMissedFileActions', None, False)]
    if label == 'IN_MOVED_TO':
        if old is True:
            return [('handleFileAction', ADD, False), ('handleFileAction', MODIFIED, False)]
        if old is False:
            return [('handleFileAction', MOVED, True)]
        return None
    return []


def describe(e):
    return ANAME.get(e[1], 'missed actions') if e else 'nothing'


def cbname(c):
    if c[1] == 'handleFileAction' and len(c[3]) > 3 and isint(c[3][3]):
        return ANAME.get(c[3][3].a[0], str(c[3][3].a[0]))
    return 'missed actions' if c[1] == 'handleMissedFileActions' else c[1]


@rule('C07', 'Path-sensitive dataflow over the inotify dispatch function, once per kernel notification type ( with and without '
      'the directory flag, and every type that must stay silent ): on every path the sequence of listener calls must be exactly '
      'the sequence that the type calls for, with the id, directory and listener of the watch and the name and old name given; a '
      'path may stop early only behind a test that the watch or its listener is gone or the watcher is being destroyed. Plus: '
      'the mask given to inotify_add_watch contains every type that is turned into a report, and the read loop passes the '
      'watch found under the descriptor, the name and the mask of the same event.',
      ['A null listener or an unregistered watch makes a report undue'], 'path-sensitive dataflow (event-to-report table)')
def c07(p, tier):
    r = Result()
    npaths = 0
    for label, m in list(MASK.items()) + list(OTHER.items()):
        for extra in (0, ISDIR) if label in ('IN_CREATE', 'IN_DELETE', 'IN_MOVED_TO', 'IN_MOVED_FROM') or tier == 'thorough' else (0,):
            fn, N, w, nm, eng, res = run_handler(p, m | extra)
            npaths += len(res)
            full = 0
            for st, _ in res:
                cbs = [x for x in st.mon if x[0] == 'cb']
                stop = ('x',) in st.mon
                o = mk_eq(mk('init', N.of(w, 'OldFileName')), EMPTY)
                old = eng.truth(st, o) if label == 'IN_MOVED_TO' else None
                if label == 'IN_MOVED_TO' and old is None and cbs:
                    old = cbname(cbs[0]) != 'Moved' if len(cbs) == 1 else len(cbs) > 1
                    r.bad('mask:%s:old' % label, 'an arrival (%s) is reported as %s without looking at the pending old name, at %s' %
                          (label, cbname(cbs[0]), cbs[0][5]))
                    continue
                exp = expected(label, st, N, w, eng, old)
                if exp is None:
                    if not stop:
                        r.bad('mask:%s:none' % label, 'nothing is reported for %s on a path through %s where the watch is active: %s' %
                              (label, fn.loc(), st.path(10)))
                    continue
                what = '%s%s%s' % (label, '|IN_ISDIR' if extra else '', {True: ' without pending old name', False: ' with pending old name', None: ''}[old])
                for i, c in enumerate(cbs):
                    if i >= len(exp):
                        r.bad('extra:%s:%s' % (label, cbname(c)), '%s: a %s report too many at %s ( after %s )' %
                              (what, cbname(c), c[5], ', '.join(cbname(x) for x in cbs[:i]) or 'nothing'))
                        break
                    if not check_cb(r, eng, st, what, label, c, exp[i], nm, N, w):
                        break
                    r.ok()
                else:
                    if len(cbs) < len(exp) and not stop:
                        r.bad('missing:%s:%s' % (label, describe(exp[len(cbs)])),
                              '%s: the %s report is missing on a path of %s where the watch is still active: %s' %
                              (what, describe(exp[len(cbs)]), fn.q, st.path(10)))
                    elif len(cbs) == len(exp):
                        full += 1
                        if label == 'IN_MOVED_FROM' and not stop:
                            v = eng.read(st, N.of(w, 'OldFileName'))
                            if differs(eng, st, v, nm):
                                r.bad('pending:%s' % label, '%s: the old name is not remembered for the coming arrival ( it is %s ): %s' %
                                      (what, show(v), st.path(8)))
            if not full:
                r.bad('never:%s' % label, '%s: no path of %s makes the expected reports' % (label, fn.q))
    check_mask(p, r)
    r.need('paths', npaths, 60)
    leaves(p, r, 'fname')
    from . import r_rec

    def loop():
        out, notes, n = r_rec.analyse(p)
        for k, t in out.items():
            if k.startswith(('c07:', 'overflow')):
                r.bad(k.replace('c07:', 'loop:'), t)
        r.need('handed_on', n['handed_on'], 1)
        r.need('overflow_paths', n['overflow_paths'], 1)
        r.obligations += n['handed_on'] + n['overflow_paths']
    r.part(loop)
    return r


def check_cb(r, eng, st, what, label, c, e, nm, N, w):
    _, name, obj, a, (l, i, d, reg), where = c
    if name != e[0] or e[1] is not None and isint(a[3]) and a[3].a[0] != e[1]:
        r.bad('wrong:%s:%s' % (label, describe(e)), '%s is reported as %s where %s is due, at %s' % (what, cbname(c), describe(e), where))
        return False
    pairs = [('listener', obj, l), ('watch id', a[0], i), ('directory', a[1], d)]
    if name == 'handleFileAction':
        pairs.append(('name', a[2], nm))
        pairs.append(('old name', a[4] if len(a) > 4 else EMPTY, reg if e[2] else EMPTY))
    for n, x, y in pairs:
        if obj is None and n == 'listener':
            continue
        if not equal_then(eng, st, x, y):
            r.bad('arg:%s:%s:%s' % (label, cbname(c), n), '%s: the %s report is given the %s %s instead of %s, at %s' %
                  (what, cbname(c), n, show(x), show(y), where))
            return False
    return True


def equal_then(eng, st, x, y):
    x, y = eng.resolve(st, x), eng.resolve(st, y)
    return x is y or eng.truth(st, mk_eq(x, y)) is True or not known(x)


def check_mask(p, r):
    need = 0
    for v in (2, 8, 0x40, 0x80, 0x100, 0x200):
        need |= v
    n = 0
    for f in p.fns.values():
        for nid, x in f.nodes.items():
            if x['k'] == 'call' and x['n'] == 'inotify_add_watch' and len(x['args']) >= 3:
                n += 1
                v = const(p, f, x['args'][2])
                if v is None:
                    r.notes.append('mask given to inotify_add_watch at %s is not a constant expression: undecided' % f.loc(x.get('line')))
                    continue
                r.ok()
                miss = [k for k, b in MASK.items() if k != 'IN_Q_OVERFLOW' and not v & b and k != 'IN_CLOSE_WRITE']
                if not v & (2 | 8):
                    miss.append('IN_CLOSE_WRITE')
                if not v & 2 and not v & 8:
                    miss.append('IN_MODIFY')
                for k in miss:
                    r.bad('subscribe:' + k, '%s does not subscribe to %s, so these changes can not be reported' % (f.loc(x.get('line')), k))
                for b, k in ((0x80000000, 'IN_ONESHOT'), (0x01000000, 'IN_ONLYDIR-'), (0x04000000, 'IN_EXCL_UNLINK'), (0x20000000, 'IN_MASK_ADD-'), (0x10000000, 'IN_MASK_CREATE-')):
                    if v & b and not k.endswith('-'):
                        r.bad('subscribe:' + k, '%s sets %s, which ends or suppresses notifications of an active watch' % (f.loc(x.get('line')), k))
    r.need('subscriptions', n, 1)


def const(p, f, nid):
    n = f.nodes[nid]
    if 'cv' in n:
        return n['cv'] & 0xffffffff
    if n['k'] == 'int':
        return n['v'] & 0xffffffff
    if n['k'] in ('icast', 'load', 'decay'):
        return const(p, f, n['sub'])
    if n['k'] == 'bin' and n['op'] in '|&+':
        a, b = const(p, f, n['l']), const(p, f, n['r'])
        if a is None or b is None:
            return None
        return {'|': a | b, '&': a & b, '+': a + b}[n['op']] & 0xffffffff
    if n['k'] == 'un' and n['op'] == '~':
        a = const(p, f, n['sub'])
        return None if a is None else ~a & 0xffffffff
    return None
