"""The read loop of the inotify backend: C09 ( pending renames ), C26 ( decoding )."""
from .prog import AnalysisError
from .result import Result
from .rules import rule
from .engine import *
from .ino import *
from . import conc
from .r_ino import handler, handle_params, MASK

WAITS = ('poll', 'select', 'ppoll', 'pselect', 'epoll_wait', 'epoll_pwait')
FROM, TO, DEL, OVF = MASK['IN_MOVED_FROM'], MASK['IN_MOVED_TO'], MASK['IN_DELETE'], MASK['IN_Q_OVERFLOW']


def bit(m, b):
    """atom: mask m has bit b"""
    return mk_not(mk_eq(mk_band(m, INT(b)), NULL))


def split(eng, st, atom):
    """[(state, value)] for the possible values of an atom"""
    v = eng.truth(st, atom)
    if v is not None:
        return [(st, v)]
    out = []
    for want in (True, False):
        s = st.copy()
        if eng.assume(s, atom, want):
            out.append((s, want))
    return out


def entry(p):
    """the function run by the thread"""
    w = conc.worker_entries(p, CLS)
    if len(w) != 1:
        raise AnalysisError('expected one thread entry, found %d' % len(w))
    return w[0]


def item_of(mask):
    """the kernel record a mask was read from"""
    m = mask
    while m.op in ('cast', 'icast'):
        m = m.a[0]
    if m.op == 'proj' and m.a[1].endswith('inotify_event::mask'):
        return m.a[0], m.a[1].rsplit('::', 1)[0]
    return None


def name_item(n):
    """the kernel record a name was copied from"""
    for x in subterms(n):
        if x.op == 'proj' and x.a[1].endswith('inotify_event::name'):
            return x.a[0]
    return None


def setm(st, t, idle=None):
    st.mon = (t, st.mon[1] if idle is None else idle) + st.mon[2:]


class RunMonitor(Monitor):
    """mon = (tracked, idle, events, waits): tracked = None | (watch, name, cookie, status, where)"""
    init = (None, False, 0, 0)
    EVENTS = 3
    WAITS = 4

    def __init__(self, p, r):
        self.p, self.r = p, r
        self.N = Names(p)
        self.fn = handler(p)
        self.iw, self.iname, self.ia = handle_params(self.fn)
        self.n = {'dispatch': 0, 'departures': 0, 'pushes': 0, 'waits': 0}

    # ---------------------------------------------------------------- pending entry already listed?
    def listed(self, eng, st):
        t = st.mon[0]
        if not t:
            return
        w, n = t[0], t[1]
        for k, v in st.rep.items():
            if v is w and k.op == 'proj' and k.a[1] in ('first', 'pair::first'):
                if vroot_elem(k.a[0], self.N.mMovedOutsideWatches):
                    k2 = mk_proj(k.a[0], 'second')
                    if same(eng, st, k2, n):
                        setm(st, None)
                        return
        # the element's own term may have been chosen as the name of the watch
        if w.op == 'proj' and w.a[1] == 'first' and vroot_elem(w.a[0], self.N.mMovedOutsideWatches) and \
                same(eng, st, mk_proj(w.a[0], 'second'), n):
            setm(st, None)

    def branch(self, eng, st, atom, val, fr, line):
        if st.mon[0] and st.mon[0][0] is NULL:
            return []       # the watch of a departure is never null
        self.listed(eng, st)

    def event(self, eng, st, ev):
        k = ev.kind
        if k == 'step' and len(ev.args) == 2 and any(isinstance(a, T) and any(x.op == 'item' for x in subterms(a)) for a in ev.args):
            if st.mon[2] >= self.EVENTS - 1 and not st.mon[0] or st.mon[2] >= self.EVENTS:
                return []
            st.mon = st.mon[:2] + (st.mon[2] + 1,) + st.mon[3:]
            return
        if k == 'rcall' and ev.name == self.fn.q:
            return self.dispatch(eng, st, ev)
        if k == 'call':
            if ev.name in WAITS:
                self.n['waits'] += 1
                return self.at_wait(eng, st, ev)
            elif ev.name == 'read':
                setm(st, st.mon[0], False)
            return
        if k == 'mut' and st.mon[0]:
            w, n = st.mon[0][0], st.mon[0][1]
            if ev.obj is self.N.mMovedOutsideWatches:
                if ev.name.startswith(('push', 'set', 'emplace', 'insert')):
                    self.n['pushes'] += 1
                    for a in ev.args:
                        f, s = mk_proj(a, 'first'), mk_proj(a, 'second')
                        if same(eng, st, f, w) and same(eng, st, s, n):
                            setm(st, None)
                            return
            elif any(contains(a, w) for a in ev.args if isinstance(a, T)) and ev.name != 'erase':
                setm(st, None)      # kept in another list: not followed further
        elif k == 'delete' and st.mon[0]:
            if same(eng, st, ev.obj, st.mon[0][0]):
                setm(st, None)

    # ---------------------------------------------------------------- one notification handed on
    def dispatch(self, eng, st, ev):
        N = self.N
        w, name, mask = ev.args[self.iw], ev.args[self.iname], ev.args[self.ia]
        self.n['dispatch'] += 1
        if isint(mask):
            t = st.mon[0]
            if mask.a[0] & DEL and t:
                out = []
                for s, v in split(eng, st, mk_eq(w, t[0])):
                    t2 = s.mon[0]
                    if v and same(eng, s, name, t2[1]):
                        setm(s, None)
                    out.append(s)
                return out
            return
        it = item_of(mask)
        if it is None:
            return
        item, rec = it
        cookie = mk_proj(item, rec + '::cookie')
        out = []
        for s, v in split(eng, st, bit(mask, FROM)):
            if v:
                if not eng.assume(s, bit(mask, TO), False) or not eng.assume(s, bit(mask, OVF), False):
                    continue
                out += self.departure(eng, s, ev, w, name, cookie)
                continue
            for s2, v2 in split(eng, s, bit(mask, TO)):
                if v2:
                    if eng.assume(s2, bit(mask, OVF), False):
                        out += self.arrival(eng, s2, ev, w, name, cookie)
                else:
                    out.append(s2)
        return out

    def departure(self, eng, st, ev, w, name, cookie):
        self.n['departures'] += 1
        sts = [st]
        if st.mon[0]:
            # two renames never have the same cookie
            if not eng.assume(st, mk_eq(cookie, st.mon[0][2]), False):
                return []
            sts = [s for s, v in split(eng, st, mk_eq(w, st.mon[0][0]))]
        out = []
        for s in sts:
            eng.write(s, self.N.of(eng.resolve(s, w), 'OldFileName'), name)
            out.append(s)
            if s.mon[0] is None:
                s2 = s.copy()
                setm(s2, (eng.resolve(s2, w), name, cookie, 'pending', (ev.where(),)))
                out.append(s2)
        return out

    def arrival(self, eng, st, ev, w, name, cookie):
        N, r = self.N, self.r
        out = []
        todo = [(st, None)]
        if st.mon[0]:
            todo = split(eng, st, mk_eq(cookie, st.mon[0][2]))
        for s, pair in todo:
            if not pair:
                out.append((s, False, False))
                continue
            if s.mon[0][3] == 'delete due':
                continue        # a rename arrives only once
            for s2, own in split(eng, s, mk_eq(w, s.mon[0][0])):
                out.append((s2, True, own))
        res = []
        for s, pair, own in out:
            w2 = eng.resolve(s, w)
            o = eng.resolve(s, eng.read(s, N.of(w2, 'OldFileName')))
            empty = eng.truth(s, mk_eq(o, EMPTY))
            t = s.mon[0]
            if pair and own:
                if empty is True:
                    setm(s, (t[0], t[1], t[2], 'delete due', t[4]))
                elif same(eng, s, o, t[1]):
                    setm(s, None)
                elif name_item(o) is not None or known(o):
                    r.bad('pair:wrong', 'an arrival whose cookie matches the departure seen at %s is handed on at %s while the old '
                          'name recorded in the watch is %s, not the name of that departure: %s' %
                          (t[4][0], ev.where(), show(o), s.path(10)))
                    setm(s, None)
            else:
                if empty is not True:
                    # may only be the name of a departure with the same cookie in the same directory
                    i = name_item(o)
                    ok = False
                    if i is not None:
                        ok = any(same(eng, s, mk_proj(i, F), cookie) for F in cookie_fields(cookie))
                    if i is None and o.op == 'big':
                        ok = True
                    if not ok:
                        r.bad('pair:stale', 'an arrival (IN_MOVED_TO) is handed on at %s while the watch may still hold the old name %s of a '
                              'departure with another cookie, so it would be reported as Moved from an unrelated name: %s' %
                              (ev.where(), show(o), s.path(10)))
                if pair:
                    setm(s, (t[0], t[1], t[2], 'delete due', t[4]))
            eng.write(s, N.of(w2, 'OldFileName'), EMPTY)
            res.append(s)
        return res

    # ---------------------------------------------------------------- nothing may be forgotten when the loop waits again
    def at_wait(self, eng, st, ev):
        t, idle, nev, nw = st.mon
        if t:
            w, n, cookie, status, where = t
            held = self.held(st, w)
            if status == 'delete due':
                self.r.bad('lost:arrival', 'the departure seen at %s has arrived in another directory or under an unknown name, but no Delete is '
                           'reported for it and it is not recorded as moved outside before the next wait at %s: %s' %
                           (where[0], ev.where(), st.path(14)))
                setm(st, None)
                return
            if not held:
                self.r.bad('lost:dropped', 'the departure seen at %s is forgotten: at the next wait (%s) it is neither reported as Delete, nor recorded '
                           'in the list of moves to the outside under its own name, nor still pending: %s' % (where[0], ev.where(), st.path(14)))
                setm(st, None)
                return
            if idle:
                self.r.bad('lost:idle', 'the departure seen at %s stays pending over a wait that returned no event (%s): %s' %
                           (where[0], ev.where(), st.path(14)))
                setm(st, None)
                return
        if nw >= self.WAITS:
            return []
        st.mon = (st.mon[0], True, nev, nw + 1)

    def held(self, st, w):
        own = mk_obj(w)
        for k, v in st.store.items():
            b = k
            while b.op in ('fld', 'idx', 'at'):
                b = b.a[0]
            if b is own:
                continue
            if contains(v, w) or v is w:
                return True
        return False


class DrainMonitor(Monitor):
    """Every recorded move to the outside leads to its Delete. mon = (done, excused, complete, pushed, ncov)"""
    init = (False, False, False, False)

    def __init__(self, p, known_loops=()):
        self.p = p
        self.N = Names(p)
        self.fn = handler(p)
        self.iw, self.iname, self.ia = handle_params(self.fn)
        self.L = set(known_loops)
        self.loops, self.skipped, self.wrong, self.clears = {}, {}, {}, {}
        self.cov, self.covloops, self.covskip = {}, {}, {}
        self.ncover = 0

    def entry(self, st, ev):
        for f, v in st.facts.items():
            if f.op == 'atend' and not v and isinstance(f.a[0], T) and f.a[0] in self.L and vroot(f.a[1], self.N.mMovedOutsideWatches):
                return mk_elem(f.a[1], f.a[0])
        for t in (ev.args[self.iw], ev.args[self.iname]):
            for x in subterms(t):
                if x.op == 'elem' and vroot(x.a[0], self.N.mMovedOutsideWatches) and isinstance(x.a[1], T) and x.a[1].op == 'ek':
                    return x
        return None

    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        if atom.op == 'atend' and vroot(atom.a[1], self.N.mMovedOutsideWatches):
            if atom.a[0] in self.L:
                st.mon = (False, False, 'over' if val else 'in', st.mon[3])
            elif val:
                st.mon = (st.mon[0], True) + st.mon[2:]
        elif atom.op == 'none' and val and vroot(atom.a[0], self.N.mMovedOutsideWatches):
            st.mon = (st.mon[0], True) + st.mon[2:]
        elif atom.op == 'vempty' and val and vroot(atom.a[0], self.N.mMovedOutsideWatches):
            st.mon = st.mon[:2] + ('over',) + st.mon[3:]

    def event(self, eng, st, ev):
        k = ev.kind
        if k == 'call' and ev.name == 'read':
            return []       # the drain is analysed from any list; events are the matter of the other monitor
        if k == 'step':
            ek = ev.extra
            if isinstance(ek, T) and ek in self.L:
                gone = any(f.op == 'atend' and v and f.a[0] not in self.L and vroot(f.a[1], self.N.mMovedOutsideWatches) or
                           f.op == 'none' and v and vroot(f.a[0], self.N.mMovedOutsideWatches) for f, v in st.facts.items())
                if not st.mon[0] and not st.mon[1] and not gone:
                    self.skipped.setdefault(ek, (ev.where(), st.path(10)))
                st.mon = (False, False, 'step', st.mon[3])
        elif k == 'rcall' and ev.name == self.fn.q and isint(ev.args[self.ia]) and ev.args[self.ia].a[0] & DEL:
            e = self.entry(st, ev)
            if e is not None:
                a, b = same(eng, st, ev.args[self.iw], mk_proj(e, 'first')), same(eng, st, ev.args[self.iname], mk_proj(e, 'second'))
                if b and (a or eng.truth(st, mk_eq(ev.args[self.iw], mk_proj(e, 'first'))) is not False):
                    self.loops.setdefault(e.a[1], ev.where())
                    st.mon = (True,) + st.mon[1:]
                elif a and known(eng.resolve(st, ev.args[self.iname])) and ev.line not in self.wrong:
                    self.wrong[ev.line] = (ev.where(), show(eng.resolve(st, ev.args[self.iname])))
        elif k == 'mut' and ev.obj is self.N.mMovedOutsideWatches and ev.name == 'clear':
            self.ncover += 1
            over = any(f.op == 'atend' and v and f.a[0] in self.L or f.op == 'vempty' and v and vroot(f.a[0], ev.obj) for f, v in st.facts.items())
            if st.mon[2] == 'in' and not over:
                self.clears.setdefault(ev.where(), st.path(10))


def cookie_fields(c):
    return [c.a[1]] if c.op == 'proj' else []


def vroot_elem(e, C):
    return e.op == 'elem' and vroot(e.a[0], C)


def analyse_run(p, mon, limit=300000):
    N = Names(p)
    fn = entry(p)
    a = anchors(p)
    eng = Engine(p, mon, anchors=a, limit=limit)
    eng.forget = True
    eng.generations = {'inc': 5, 'out': 4, 'hv': 4, 'cv': 4}
    eng.lossy = False
    root = fn
    # the lambda handed to the thread: enter the member function it calls
    if fn.lam:
        t = [n for n in fn.nodes.values() if n['k'] == 'call' and n.get('cls') == CLS]
        if len(t) != 1 or t[0]['usr'] not in p.fns:
            raise AnalysisError('the thread entry does not call one member function')
        root = p.fns[t[0]['usr']]
    res = eng.enter(root)
    return eng, res, root


def anchors(p):
    from .r_ino import anchors_of
    a = anchors_of(p)
    a[handler(p).q] = opaque
    return a


@rule('C09', 'Path-sensitive typestate analysis of the read loop. Every departure ( IN_MOVED_FROM handed on ) is followed as a separate '
      'obligation along every path: it is discharged by an arrival with the same cookie while its own old name is recorded, by a Delete '
      'handed on for that watch and name, by being recorded as moved outside under that watch and name, or by the removal of the watch; '
      'whenever the loop waits again it must be discharged or still held, and held only if the last wait brought events. Every arrival '
      'handed on must find the old name empty or find the name of the departure with the same cookie. Every recorded entry must lead to a '
      'Delete for its watch and name, or to the Delete of the watched directories it covers.',
      ['The kernel sets one type bit per notification and gives the two halves of a rename the same cookie'],
      'path-sensitive typestate (pending renames)')
def c09(p, tier):
    r = Result()
    for ne, nw in (((4, 4),) if tier == 'thorough' else ()) + ((3, 4), (2, 3)):
        m = RunMonitor(p, r)
        m.EVENTS, m.WAITS = ne, nw
        try:
            eng, res, root = analyse_run(p, m, 1500000 if ne == 4 else 300000)
            break
        except AnalysisError as e:
            if 'state limit' not in str(e):
                raise
            r.notes.append('%d events: %s' % (ne, e))
    else:
        r.counts['undecided'] = 1
        return r
    r.counts['events'], r.counts['waits_in_sequence'] = ne, nw
    d = DrainMonitor(p)
    analyse_run(p, d)
    d2 = DrainMonitor(p, d.loops)
    eng2, _, _ = analyse_run(p, d2)
    d.skipped, d.clears = d2.skipped, d2.clears
    for at, n in d.wrong.values():
        if not d.loops:
            r.bad('drain:args', 'the watch of an entry of the list of moves to the outside is handed on for a Delete at %s with the name %s instead of '
                  'the name recorded in the entry' % (at, n))
    r.need('drain_loops', len(d.loops), 0)
    for ek, at in d.loops.items():
        r.ok()
        if ek in d.skipped:
            r.bad('drain:skipped', 'an entry of the list of moves to the outside is passed over without a Delete for its watch and name ( due at %s, '
                  'next entry taken at %s ) although it was not found to be gone from the list: %s' % ((at,) + d.skipped[ek]))
    for at, path in d.clears.items():
        r.bad('drain:clear', 'the list of moves to the outside is emptied at %s although not every entry was reported: %s' % (at, path))
    r.counts['abstract_states'] = eng.count + eng2.count
    r.obligations += m.n['departures'] + m.n['dispatch'] + m.n['pushes']
    r.need('dispatches', m.n['dispatch'], 3)
    r.need('departures', m.n['departures'], 1)
    r.need('waits', m.n['waits'], 1)
    return r
