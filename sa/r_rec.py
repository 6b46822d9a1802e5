"""C26: decoding of the notifications returned by one read; the read loop's part of C07."""
from .prog import AnalysisError
from .engine import *
from .ino import *
from . import conc
from .r_ino import handler, handle_params, MASK
from .r_run import WAITS, analyse_run, item_of, bit
from .rules import rule, Result

OVF = MASK['IN_Q_OVERFLOW']
REPORTED = sum(MASK.values()) & ~OVF
RECORD = 16


def items(t):
    return [x for x in subterms(t) if x.op == 'item']


def cursor(i):
    return i.a[1]


def number(x):
    return 0 if x is NULL else x.a[0] if isint(x) else None


def linear(t):
    """( base, constant ) of a sum; the base of a plain number is NULL"""
    k = 0
    while isinstance(t, T):
        if t.op in ('cast', 'icast') and isinstance(t.a[0], T):
            t = t.a[0]
        elif t.op == 'bin' and t.a[0] in '+-' and len(t.a) == 3 and number(t.a[2]) is not None and number(t.a[1]) is None:
            k += number(t.a[2]) if t.a[0] == '+' else -number(t.a[2])
            t = t.a[1]
        elif t.op == 'bin' and t.a[0] == '+' and len(t.a) == 3 and number(t.a[1]) is not None:
            k += number(t.a[1])
            t = t.a[2]
        elif number(t) is not None:
            return NULL, k + number(t)
        else:
            break
    return t, k


def left(f, v, ret):
    """what a comparison says about the bytes left: ( cursor, 'most' or 'least', bytes )"""
    if f.op != 'lt' or f.a[0] is f.a[1]:
        return None
    if f.a[1] is ret:
        c, k = linear(f.a[0])
        return (c, 'least', k + 1) if v else (c, 'most', k)
    if f.a[0] is ret:
        c, k = linear(f.a[1])
        return (c, 'most', k - 1) if v else (c, 'least', k)
    for i in (0, 1):
        d, n = linear(f.a[i]), linear(f.a[1 - i])
        if n[0] is NULL and d[0].op == 'bin' and d[0].a[0] == '-' and len(d[0].a) == 3 and d[0].a[1] is ret:
            c, n = d[0].a[2], n[1] - d[1]
            if i == 0:
                return (c, 'most', n - 1) if v else (c, 'least', n)
            return (c, 'least', n + 1) if v else (c, 'most', n)


class Rec(Monitor):
    """mon = ( read result, item being handled, ( handed on, excused, overflow, overflow handled ), stepped by, records, waits, lists )
    stepped by: None before the first record, else the amount of the last step ('?' when it was computed otherwise)"""
    init = (None, None, (), None, 0, 0, ())

    def __init__(self, p, bad, note):
        self.p, self.bad, self.note = p, bad, note
        self.N = Names(p)
        self.fn = handler(p)
        self.iw, self.iname, self.ia = handle_params(self.fn)
        self.lenf = 'inotify_event::len'
        self.mRealWatches = self.N.mRealWatches
        self.n = {'reads': 0, 'records': 0, 'steps': 0, 'handed_on': 0, 'overflow_paths': 0, 'ends': 0}

    # mon access
    def flag(self, st, f):
        if f not in st.mon[2]:
            st.mon = st.mon[:2] + (tuple(sorted(st.mon[2] + (f,))),) + st.mon[3:]

    def begin(self, eng, st, i, at):
        """a record is looked at"""
        ret, cur, fl, step, nrec, nw, li = st.mon
        if ret is None or i is cur:
            return
        if ret == 'read':
            self.note('a record is looked at %s before anything was found out about the number of bytes returned' % at)
            return
        c = cursor(i)
        if cur is not None:
            if i.a[0] is not cur.a[0]:
                return
            if step is None:
                return
            if c.op != 'inc' and not (c.op == 'bin' and c.a[0] == '+'):
                return
        self.n['records'] += 1
        lt = mk_lt(c, ret)
        t = eng.truth(st, lt)
        if t is not True and any(x and x[0] is c and x[1] == 'least' and x[2] > 0 for x in (left(f, v, ret) for f, v in st.facts.items())):
            t = True
        if t is not True and eng.truth(st, mk_eq(c, ret)) is False and (eng.truth(st, mk_lt(ret, NULL)) is False or eng.truth(st, mk_eq(ret, INT(-1))) is False):
            # whole records: a cursor that is not at the end is below it
            t = True
        if t is not True:
            rel = [f for f in st.facts if f.op in ('lt', 'eq') and any(x is ret for x in subterms(f)) and any(x is c for x in subterms(f))]
            odd = [f for f in rel if f not in (mk_lt(ret, c), lt, mk_eq(ret, c))]
            if c is NULL:
                # before the first record: at least one byte
                rel = [f for f in st.facts if any(x is ret for x in subterms(f)) and f.op in ('lt', 'eq')]
                odd = [f for f in rel if f.op == 'lt' and not (f.a[0] is ret and number(f.a[1]) is not None or f.a[1] is ret and number(f.a[0]) is not None)]
            if odd:
                self.note('bound of the cursor %s not understood' % show(odd[0])[:120])
            else:
                self.bad('bound', 'a record is read at %s without the cursor being known to be below the number of bytes returned: %s' % (at, st.path(8)))
        st.mon = (ret, i, (), None, nrec + 1, nw, ())

    def finish(self, eng, st, at):
        """the record is left: what had to happen with it?"""
        ret, cur, fl, step, nrec, nw, li = st.mon
        if cur is None or step is not None:
            return
        if 'overflow' in fl:
            self.n['overflow_paths'] += 1
            if 'missed' not in fl:
                self.bad('overflow', 'after the kernel dropped notifications ( IN_Q_OVERFLOW ) nothing tells the listeners before the next record at %s: %s' % (at, st.path(10)))
        elif 'handed' not in fl and 'excused' not in fl:
            self.bad('dropped', 'a notification is not handed on although its watch was not found to be missing ( next record at %s ): %s' % (at, st.path(10)))

    def branch(self, eng, st, atom, val, fr, line):
        if st.mon[0] == 'read':
            x = next((x for x in subterms(atom) if x.op == 'ret' and x.a[0] == 'read'), None)
            if x is not None:
                st.mon = (x,) + st.mon[1:]
        for i in items(atom):
            self.begin(eng, st, i, '%s:%s' % (fr.fn.file, line))
        ret, cur, fl, step, nrec, nw, li = st.mon
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        lf = left(atom, val, ret) if isinstance(ret, T) else None
        if lf and cur is not None and step is not None and (lf[1] == 'least' or lf[0].op == 'inc'):
            if lf[1] == 'least':
                return
            self.n['ends'] += 1
            if lf[2] >= RECORD and eng.truth(st, mk_lt(lf[0], ret)) is not False:
                self.bad('tail', 'the batch is taken as finished at %s:%s with %d bytes left, which is the size of a notification without a name: %s' % (fr.fn.file, line, lf[2], st.path(8)))
            st.mon = (None, None, (), None, nrec, nw, ())
            return
        if isinstance(ret, T) and cur is not None and step is not None and atom.op == 'eq' and any(x is ret for x in atom.a) and any(x.op == 'inc' for x in atom.a):
            if val:
                self.n['ends'] += 1
                st.mon = (None, None, (), None, nrec, nw, ())
            return
        if isinstance(ret, T) and cur is None and any(x is ret for x in subterms(atom)) and atom.op in ('lt', 'eq'):
            return
        if cur is None:
            return
        if atom.op == 'ap' and atom.a[0] == 'b:atomic' and atom.a[1] is self.N.mInitOK and not val:
            self.flag(st, 'stop')
            self.flag(st, 'excused')
        if isinstance(ret, T) and step is not None and atom.op in ('lt', 'eq') and any(x is ret for x in subterms(atom)):
            self.flag(st, 'odd')
        # tests that excuse
        if atom.op == 'has' and not val and vroot(atom.a[0], self.N.mWatches):
            self.flag(st, 'excused')
        elif atom.op in ('atend', 'none', 'vempty') and val:
            V = atom.a[1] if atom.op == 'atend' else atom.a[0]
            if vroot(V, self.N.mWatches):
                self.flag(st, 'excused')
            if vroot(V, self.mRealWatches) or vroot(V, self.N.mWatches):
                if 'overflow' in fl:
                    self.flag(st, 'missed')
        elif atom.op == 'eq' and val and NULL in atom.a:
            x = atom.a[0] if atom.a[1] is NULL else atom.a[1]
            if any(s.op == 'elem' and vroot(s.a[0], self.N.mWatches) for s in subterms(x)) or x.op in ('ret', 'hv', 'ap'):
                self.flag(st, 'excused')
            b = self.maskbits(x, cur)
            if b is not None:
                pass
        elif atom.op == 'eq' and not val and NULL in atom.a:
            x = atom.a[0] if atom.a[1] is NULL else atom.a[1]
            b = self.maskbits(x, cur)
            if b is not None and not b & (REPORTED | 0x40000000):
                self.flag(st, 'excused')
                if b & OVF:
                    self.flag(st, 'overflow')
        elif atom.op == 'eq' and any(self.is_mask(x, cur) for x in atom.a):
            b = next((number(x) for x in atom.a if number(x) is not None), None)
            if val and b is not None and not b & REPORTED:
                self.flag(st, 'excused')
                if b & OVF:
                    self.flag(st, 'overflow')
        elif atom.op == 'eq' and any(x.op == 'proj' and x.a[0] is cur and str(x.a[1]).endswith('::wd') for y in atom.a for x in subterms(y)):
            self.flag(st, 'excused')
        elif atom.op == 'lt' and any(x.op == 'proj' and x.a[0] is cur and str(x.a[1]).endswith('::wd') for y in atom.a for x in subterms(y)):
            if val:
                self.flag(st, 'excused')

    def is_mask(self, x, cur):
        i = item_of(x)
        return i is not None and i[0] is cur

    def maskbits(self, x, cur):
        if x.op in ('band', 'bin') and any(isinstance(y, T) and self.is_mask(y, cur) for y in x.a):
            return next((number(y) for y in x.a if isinstance(y, T) and number(y) is not None), None)
        return None

    def event(self, eng, st, ev):
        k = ev.kind
        ret, cur, fl, step, nrec, nw, li = st.mon
        if k == 'call' and ev.name in WAITS + ('read',):
            if ret is not None and cur is not None and step is None:
                if 'stop' in fl:
                    return []
                self.bad('abandoned', 'the rest of a batch is abandoned: the loop waits or reads again at %s in the middle of it: %s' % (ev.where(), st.path(10)))
            elif ret is not None and step is not None:
                if 'odd' in fl:
                    self.note('end of the batch not understood')
                    st.mon = (None, None, (), None, nrec, nw, ())
                    return
                if 'stop' in fl:
                    return []
                self.bad('rest', 'the loop waits or reads again at %s without having seen the end of the batch: %s' % (ev.where(), st.path(10)))
            if isinstance(ret, T) and cur is None and 'stop' not in fl:
                lf = [left(f, v, ret) for f, v in st.facts.items()]
                most = [x[2] for x in lf if x and x[0] is NULL and x[1] == 'most']
                if most and min(most) >= RECORD:
                    self.bad('tail', 'a batch of %d bytes is left out: the loop waits or reads again at %s: %s' % (min(most), ev.where(), st.path(8)))
            if ev.name == 'read':
                self.n['reads'] += 1
                self.size(eng, st, ev)
                st.mon = ('read', None, (), None, nrec, nw, ())
            else:
                if nw >= 1:
                    return []
                st.mon = (None, None, (), None, nrec, nw + 1, ())
            return
        if k == 'write' and ret == 'read' and isinstance(ev.args[0], T) and any(x.op == 'ret' and x.a[0] == 'read' for x in subterms(ev.args[0])):
            x = next(x for x in subterms(ev.args[0]) if x.op == 'ret' and x.a[0] == 'read')
            st.mon = (x,) + st.mon[1:]
            return
        if ret is None or ret == 'read':
            return
        if k == 'step' and len(ev.args) == 2 and isinstance(ev.args[1], T):
            its = [i for a in ev.args for i in items(a)]
            if its and (cur is not None or ev.name == '+=') or cur is not None and step is None and ev.name == '+=' and self.cursor_loc(eng, st, ev.obj, cur):
                if cur is None:
                    self.begin(eng, st, its[0], ev.where())
                    ret, cur, fl, step, nrec, nw, li = st.mon
                    if cur is None:
                        return
                self.n['steps'] += 1
                self.amount(eng, st, ev)
                if step is not None:
                    self.bad('twice', 'the cursor is moved on twice for one record, the second time at %s: %s' % (ev.where(), st.path(8)))
                self.finish(eng, st, ev.where())
                if nrec >= 2:
                    return []
                st.mon = (ret, cur, (), 'ok', nrec, nw, ())
                return
        for a in ([ev.obj] if isinstance(ev.obj, T) else []) + list(ev.args):
            if isinstance(a, T):
                for i in items(a):
                    if k in ('rcall', 'call', 'query', 'branch') and i.a[0].op == 'out':
                        if cur is None or step is not None and cursor(i).op == 'inc':
                            self.begin(eng, st, i, ev.where())
                    break
        if k == 'step' and isinstance(ev.args[0], T) and ev.args[0].op == 'it' and 'overflow' in fl:
            it = ev.args[0]
            el = mk_elem(it.a[1], it.a[2])
            if vroot(it.a[1], self.mRealWatches) or it.a[1].op == 'list':
                if ('seen' not in li) and not self.excusable(eng, st, el):
                    self.bad('overflow:one', 'a watch is passed over at %s when the listeners are told that notifications were lost: %s' % (ev.where(), st.path(8)))
                st.mon = st.mon[:6] + ((),)
        if k == 'mut' and ev.name.startswith(('push', 'insert', 'set', 'emplace')) and 'overflow' in fl:
            st.mon = st.mon[:6] + (('seen',),)
        if k == 'rcall' and ev.name == self.fn.q:
            self.handed(eng, st, ev)

    def excusable(self, eng, st, el):
        for f, v in st.facts.items():
            if v and f.op == 'eq' and NULL in f.a and any(x is el for x in subterms(f)):
                x = f.a[0] if f.a[1] is NULL else f.a[1]
                if field_of(x) in (None, F(self.p, 'efsw::Watcher', 'Listener')) or x.op == 'proj' and x.a[0] is el:
                    return True
            if f.op in ('none', 'found', 'has') and any(x is el for x in subterms(f)):
                return True
        return False

    def cursor_loc(self, eng, st, loc, cur):
        return eng.read(st, loc) is cursor(cur)

    def amount(self, eng, st, ev):
        ret, cur, fl, step, nrec, nw, li = st.mon
        x = ev.args[1]
        if not (ev.name in ('+=',)):
            return
        lens = [y for y in subterms(x) if y.op == 'proj' and y.a[0].op == 'item' and y.a[1].endswith('::len')]
        if x.op == 'bin' and x.a[0] == '+' and len(x.a) == 3:
            a, b = x.a[1], x.a[2]
            while isinstance(a, T) and a.op in ('cast', 'icast'):
                a = a.a[0]
            while isinstance(b, T) and b.op in ('cast', 'icast'):
                b = b.a[0]
            c = number(a) if number(a) is not None else number(b)
            l = b if number(a) is not None else a
            if c == RECORD and l.op == 'proj' and l.a[0] is cur and l.a[1].endswith('::len'):
                return
            if c is not None and l.op == 'proj' and l.a[0].op == 'item':
                self.bad('advance', 'the cursor is moved by %s at %s, a record takes %d bytes and its len: %s' % (show(x), ev.where(), RECORD, st.path(6)))
                return
        if isint(x) and eng.truth(st, mk_eq(mk_proj(cur, self.lenf), INT(x.a[0] - RECORD))) is True:
            return
        if isint(x) or lens and x.op == 'proj' or not lens and items(x):
            self.bad('advance', 'the cursor is moved by %s at %s, a record takes %d bytes and its len: %s' % (show(x), ev.where(), RECORD, st.path(6)))
        elif not same(eng, st, x, mk('bin', '+', INT(RECORD), mk_proj(cur, self.lenf))):
            self.note('the cursor is moved by %s' % show(x)[:120])

    def handed(self, eng, st, ev):
        ret, cur, fl, step, nrec, nw, li = st.mon
        w, name, mask = ev.args[self.iw], ev.args[self.iname], ev.args[self.ia]
        if isint(mask):
            if mask.a[0] & OVF:
                self.flag(st, 'missed')
                st.mon = st.mon[:6] + (('seen',),)
            return
        i = item_of(mask)
        if i is None:
            its = items(mask)
            if its and cur is not None:
                c = next((number(y) for y in mask.a if isinstance(y, T) and number(y) is not None), None)
                if mask.op == 'band' and c is not None and (c & REPORTED) != REPORTED:
                    self.bad('c07:mask', 'only the bits %#x of the mask of a notification are handed on at %s: %s' % (c, ev.where(), st.path(6)))
                self.flag(st, 'handed')
            return
        self.n['handed_on'] += 1
        it = i[0]
        if cur is not None and it is not cur and it.a[0] is cur.a[0] and step is None:
            self.bad('c07:other', 'the mask handed on at %s is that of another record: %s' % (ev.where(), st.path(6)))
        ni = [x for x in subterms(name) if x.op == 'proj' and x.a[0].op == 'item']
        if ni and not any(x.a[0] is it and x.a[1].endswith('::name') for x in ni):
            self.bad('c07:name', 'the name handed on at %s is %s, not the name of the record whose mask is handed on: %s' % (ev.where(), show(name), st.path(6)))
        elif not ni and name.op in ('str',) and known(name):
            self.bad('c07:name', 'the name handed on at %s is %s, not the name of the record: %s' % (ev.where(), show(name), st.path(6)))
        wi = [x for x in subterms(w) if x.op == 'proj' and x.a[0].op == 'item']
        if wi and not any(x.a[0] is it and x.a[1].endswith('::wd') for x in wi):
            self.bad('c07:watch', 'the watch handed on at %s was not looked up with the descriptor of the record whose mask is handed on: %s' % (ev.where(), st.path(6)))
        if 'handed' in fl:
            self.bad('again', 'a notification is handed on a second time at %s: %s' % (ev.where(), st.path(8)))
        self.flag(st, 'handed')

    def size(self, eng, st, ev):
        buf, n = ev.args[1], ev.args[2]
        b = buf
        while isinstance(b, T) and b.op in ('addr', 'obj', 'idx', 'decay'):
            if b.op == 'idx' and number(b.a[1]) not in (0, None):
                break
            b = b.a[0]
        cap = None
        if isinstance(b, T) and b.op == 'new':
            cap = self.alloc.get(b)
        elif isinstance(b, T) and b.op == 'v':
            d = ev.fr.fn.decls.get(b.a[1])
            if d:
                m = __import__('re').search(r'char\s*\[(\d+)\]', d['t'].get('s', ''))
                cap = int(m.group(1)) if m else None
        if cap is None or number(n) is None:
            self.note('size of the buffer given to read is not known at %s ( %s, %s )' % (ev.where(), show(buf)[:60], show(n)[:60]))
        elif number(n) > cap:
            self.bad('size', 'up to %d bytes are read at %s into a buffer of %d' % (number(n), ev.where(), cap))
        elif number(n) < RECORD + 256:
            self.bad('small', 'the %d bytes asked for at %s are not enough for one notification ( %d with the longest name )' % (number(n), ev.where(), RECORD + 256))

    alloc = {}


class Alloc(Monitor):
    init = None


def analyse(p):
    if hasattr(p, '_rec'):
        return p._rec
    out, notes = {}, []
    m = Rec(p, lambda k, t: out.setdefault(k, t), lambda t: notes.append(t) if t not in notes else None)
    m.alloc = {}
    orig = m.event

    def event(eng, st, ev):
        if ev.kind == 'new' and ev.args and isint(ev.args[0]) and isinstance(ev.obj, T):
            m.alloc[ev.obj] = ev.args[0].a[0]
        return orig(eng, st, ev)
    m.event = event
    analyse_run(p, m)
    p._rec = (out, notes, m.n)
    return p._rec


def unsigned_result(p, r):
    """a failed read ( -1 ) compared as unsigned is a huge number of bytes, unless -1 was ruled out first"""
    for u in conc.reach(callees(p), conc.worker_entries(p, CLS)[0].usr):
        f = p.fns.get(u)
        if f is None or f.cls != CLS:
            continue
        V = set()
        for x in f.nodes.values():
            if x['k'] == 'assign' and x['op'] == '=' and f.nodes[x['l']]['k'] == 'var' and reads(f, x['r']):
                V.add(f.nodes[x['l']]['d'])
        for b in f.blocks.values():
            for e in b['e']:
                if e['k'] == 'decl' and isinstance(e.get('init'), int) and reads(f, e['init']):
                    V.add(e['d'])
        if not V:
            continue
        bad, good = [], 0
        for x in f.nodes.values():
            if x['k'] != 'bin' or x['op'] not in ('<', '<=', '>', '>=', '!=', '=='):
                continue
            sides = [uses(f, x[s], V) for s in ('l', 'r')]
            if not any(sides):
                continue
            t = [f.nodes[x[s]].get('t', {}) for s in ('l', 'r')]
            if all(y.get('k') == 'int' and y.get('sg') is False for y in t):
                bad.append(x)
            else:
                good += 1
        r.obligations += len(bad) + good
        if bad and not good:
            r.bad('unsigned', '%s compares the result of read at %s as an unsigned number and nothing rules out -1 before: a failed read would be taken for a batch of '
                  'any length' % (f.q, f.loc(bad[0].get('line'))))


def reads(f, i):
    x = f.nodes[i]
    while x['k'] in ('icast', 'load', 'decay'):
        x = f.nodes[x['sub']]
    return x['k'] == 'call' and x['n'] == 'read' and not x.get('repo')


def uses(f, i, V):
    x = f.nodes[i]
    while x['k'] in ('icast', 'load', 'decay'):
        x = f.nodes[x['sub']]
    return x['k'] == 'var' and x.get('d') in V


def signedness(p, r):
    """a failed read ( -1 ) must not become a huge number: the result of read is not compared as unsigned before it was checked"""
    n = 0
    for u in conc.reach(callees(p), conc.worker_entries(p, CLS)[0].usr):
        f = p.fns.get(u)
        if f is None or f.cls != CLS:
            continue
        for x in f.nodes.values():
            if x['k'] == 'call' and x['n'] in ('select', 'pselect', '__select', '__fdelt_chk') and not x.get('repo'):
                n += 1
                r.bad('select', '%s waits with %s at %s: descriptors of FD_SETSIZE and above are written outside of the set' % (f.q, x['n'], f.loc(x.get('line'))))
    r.obligations += 1


@rule('C26', 'Path-sensitive dataflow over the read loop with a symbolic batch. The buffer is at least as big as what read may return; a record is looked at only '
      'where the cursor is known to be below the number of bytes returned, which rules out a failed and an empty read; for every record whose watch is '
      'found the dispatch function is called exactly once before the cursor moves; the cursor moves once per record, by the size of the header plus '
      'the len of that record; the loop goes back to waiting only after the end of the batch was seen. No wait is limited to small descriptor numbers.',
      ['The kernel returns whole records'], 'path-sensitive dataflow (cursor and batch)')
def c26(p, tier):
    r = Result()
    out, notes, n = analyse(p)
    for k, t in out.items():
        if not k.startswith(('c07:', 'overflow')):
            r.bad(k, t)
    for t in notes:
        r.note(t)
    r.obligations += sum(n.values())
    r.part(signedness, p, r)
    r.part(unsigned_result, p, r)
    for k in ('reads', 'records', 'steps', 'handed_on', 'ends'):
        r.need(k, n[k], 1)
    return r
