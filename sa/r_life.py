"""C04: the end of a watcher; C06: the end of a watch."""
from .prog import AnalysisError
from .engine import *
from .ino import *
from .r_ino import handler
from . import conc, r_rem, r_add
from .r_leaf import leaves
from .rules import rule, Result
from .r_run import WAITS, analyse_run, entry

GEN = 'efsw::FileWatcherGeneric'
SLEEPS = ('usleep', 'nanosleep', 'sleep', 'clock_nanosleep', 'pthread_cond_timedwait', 'sleep_for', 'sleep_until', 'pthread_cond_wait')
READS = ('read', 'readv', 'recv')


def thread_field(p, cls):
    for f in p.records[cls]['fields']:
        if 'Thread' in f['t'].get('s', ''):
            return mk_fld(mk_obj(THIS), f['n'])
    raise AnalysisError('%s has no thread' % cls)


def flag_field(p, cls):
    return mk_fld(mk_obj(THIS), F(p, cls, 'mInitOK'))


class Dtor(Monitor):
    """mon = ( told to stop, waited for )"""
    init = (False, False)

    def __init__(self, p, cls, fn, bad):
        self.p, self.cls, self.fn, self.bad = p, cls, fn, bad
        self.flag, self.thread = flag_field(p, cls), thread_field(p, cls)
        self.n = 0
        self.own = {f['n'] for c in [cls] + p.bases(cls) for f in p.records.get(c, {'fields': []})['fields']}

    def none(self, eng, st):
        return eng.truth(st, mk_eq(mk('init', self.thread), NULL)) is True

    def joined(self, eng, st, ev):
        self.n += 1
        if not st.mon[0]:
            self.bad('order', '%s waits for its thread at %s before telling it to stop ( %s is still set ), it would wait forever: %s' %
                     (self.fn.q, ev.where(), show(self.flag), st.path(6)))
        if st.locks:
            self.bad('locks', '%s waits for its thread at %s while holding %s, which the thread may need to finish' % (self.fn.q, ev.where(), ', '.join(show(x) for x in st.locks)))
        st.mon = (st.mon[0], True)

    def release(self, eng, st, what, at):
        if not st.mon[1] and not self.none(eng, st):
            self.bad('early', '%s %s at %s although its thread may still be running: %s' % (self.fn.q, what, at, st.path(6)))

    def event(self, eng, st, ev):
        k = ev.kind
        if k == 'write' and ev.obj is self.flag:
            v = ev.args[0]
            if isinstance(v, T) and (v is NULL or isint(v) and v.a[0] == 0):
                st.mon = (True, st.mon[1])
            elif isint(v) and not st.mon[1]:
                st.mon = (False, st.mon[1])
        elif k == 'delete' and (ev.name == 'efsw::Thread' or ev.obj is mk('init', self.thread)) or k == 'delete' and ev.name == 'unique_ptr' and 'mThread' in show(ev.obj):
            self.joined(eng, st, ev)
        elif k in ('thread', 'call') and ev.name in ('wait', 'join', 'pthread_join') or k == 'rcall' and ev.name == 'efsw::Thread::wait':
            self.joined(eng, st, ev)
        elif k in ('thread', 'call', 'rcall') and ev.name.split('::')[-1] in ('terminate', 'detach', 'pthread_cancel', 'pthread_kill'):
            self.bad('kill', '%s ends its thread with %s at %s instead of waiting for it' % (self.fn.q, ev.name, ev.where()))
        elif k == 'delete':
            self.release(eng, st, 'frees %s' % show(ev.obj), ev.where())
        elif k == 'mut' and ev.name in ('clear', 'erase') and ev.obj.op == 'fld' and ev.obj.a[1] in self.own:
            self.release(eng, st, 'empties %s' % show(ev.obj), ev.where())
        elif k == 'call' and ev.name == 'close':
            self.release(eng, st, 'closes its descriptor', ev.where())


class Wait(Monitor):
    """worker: mon = ( the stop flag was read since the last wait?, waits so far, result of the wait )"""
    init = (True, 0, None)

    def __init__(self, p, cls, bad, nonblock):
        self.p, self.bad, self.nonblock = p, bad, nonblock
        self.flag = flag_field(p, cls)
        self.n = {'waits': 0, 'reads': 0, 'checks': 0}
        self.rounds = cls == GEN
        if self.rounds:
            self.init = (True, 0, None, ())

    def branch(self, eng, st, atom, val, fr, line):
        for x in subterms(atom):
            if x.op == 'ap' and x.a[0] == 'b:atomic' and x.a[1] is self.flag or x.op == 'init' and x.a[0] is self.flag:
                self.n['checks'] += 1
                v = val
                y = atom
                while y.op == 'not':
                    y, v = y.a[0], not v
                if y is x or y.op == 'eq' and any(z is NULL or isint(z) and z.a[0] == 0 for z in y.a):
                    st.mon = (v if y is x else not v,) + st.mon[1:]
                    if st.mon[0] is False:
                        st.mon = ('stop',) + st.mon[1:]
                else:
                    st.mon = (True,) + st.mon[1:]
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        if any(x.op == 'ret' and any(x.a[0] == w or str(x.a[0]).endswith(w) for w in WAITS) for x in subterms(atom)):
            a = atom.a
            num = lambda x: 0 if x is NULL else x.a[0] if isint(x) else None
            lo, hi, ne = st.mon[2] if isinstance(st.mon[2], tuple) else (-1, 9, ())
            if atom.op == 'lt' and num(a[0]) is not None:      # k < ret
                lo, hi = (max(lo, num(a[0]) + 1), hi) if val else (lo, min(hi, num(a[0])))
            elif atom.op == 'lt' and num(a[1]) is not None:    # ret < k
                lo, hi = (lo, min(hi, num(a[1]) - 1)) if val else (max(lo, num(a[1])), hi)
            elif atom.op == 'eq' and (num(a[0]) is not None or num(a[1]) is not None):
                k = num(a[0]) if num(a[0]) is not None else num(a[1])
                lo, hi, ne = (k, k, ne) if val else (lo, hi, tuple(sorted(set(ne) | {k}))[:3])
            elif atom.op not in ('lt', 'eq') and any(x is atom for x in [atom]) and atom.op == 'ret':
                lo, hi, ne = (lo, hi, tuple(sorted(set(ne) | {0}))) if val else (0, 0, ne)
            else:
                st.mon = st.mon[:2] + (None,) + st.mon[3:]
                return
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
            st.mon = st.mon[:2] + ((lo, hi, ne),) + st.mon[3:]

    def event(self, eng, st, ev):
        if self.rounds and ev.kind == 'lock':
            at = (ev.fr.fn.q, ev.line)
            if at in st.mon[3]:
                if st.mon[0] == 'stop':
                    self.bad('another', 'the worker starts another round at %s although it has seen that %s is cleared: destruction would not end it: %s' %
                             (ev.where(), show(self.flag), st.path(8)))
            elif len(st.mon[3]) < 6:
                st.mon = st.mon[:3] + (tuple(sorted(set(st.mon[3]) | {at})),)
        if ev.kind not in ('call', 'rcall'):
            return
        if ev.name in READS:
            self.n['reads'] += 1
            if self.nonblock:
                return
            ok = st.mon[2]
            if isinstance(ok, tuple):
                # -1 and 0 ( nothing, or interrupted ) must be ruled out
                ok = not (ok[0] <= 0 and 0 not in ok[2] or ok[0] <= -1 and -1 not in ok[2])
                if not ok and st.mon[2][0] == -1 and 0 in st.mon[2][2]:
                    ok = True                                  # an error of the wait is not a reason to block forever: the next round looks at the flag
            if ok is False:
                self.bad('block', 'the worker reads at %s without having been told that there is something to read: it could block where destruction '
                         'cannot end it: %s' % (ev.where(), st.path(8)))
            if ok is None and not st.mon[1]:
                self.bad('block', 'the worker reads at %s without a bounded wait before: destruction could wait forever: %s' % (ev.where(), st.path(8)))
        elif ev.name.split('::')[-1] in WAITS + SLEEPS:
            self.n['waits'] += 1
            if ev.name in ('poll', 'epoll_wait'):
                t = ev.args[-1]
                if isint(t) and t.a[0] < 0:
                    self.bad('forever', 'the worker waits without a time limit at %s: destruction needs another event to finish' % ev.where())
            elif ev.name in ('select', 'pselect', 'ppoll'):
                t = ev.args[4 if ev.name != 'ppoll' else 2]
                if t is NULL or isint(t) and t.a[0] == 0:
                    self.bad('forever', 'the worker waits without a time limit at %s: destruction needs another event to finish' % ev.where())
            elif ev.name == 'pthread_cond_wait':
                self.bad('forever', 'the worker waits without a time limit at %s' % ev.where())
            if st.mon[0] == 'stop':
                self.bad('ignored', 'the worker waits again at %s although it has seen that %s is cleared: destruction would not end it: %s' %
                         (ev.where(), show(self.flag), st.path(8)))
            elif not st.mon[0]:
                self.bad('unchecked', 'the worker waits again at %s without having looked at %s since its last wait: destruction would not end it: %s' %
                         (ev.where(), show(self.flag), st.path(8)))
            if st.mon[1] >= 2:
                return []
            st.mon = (False, st.mon[1] + 1, False) + st.mon[3:]


def nonblocking(p):
    for f in p.fns.values():
        for n in f.nodes.values():
            if n['k'] == 'call' and n['n'] in ('inotify_init1', 'fcntl'):
                return True
    return False


def run_worker(p, cls, mon, limit=200000):
    w = conc.worker_entries(p, cls)
    if len(w) != 1:
        raise AnalysisError('expected one thread entry of %s, found %d' % (cls, len(w)))
    fn = w[0]
    if fn.lam:
        t = [n for n in fn.nodes.values() if n['k'] == 'call' and n.get('cls') == cls]
        if len(t) != 1 or t[0]['usr'] not in p.fns:
            raise AnalysisError('the thread entry does not call one member function')
        fn = p.fns[t[0]['usr']]
    anch = {}
    for f in p.fns.values():
        if f.cls in ('efsw::WatcherGeneric', 'efsw::DirWatcherGeneric', 'efsw::System', 'efsw::Platform::System'):
            anch[f.q] = opaque
    eng = Engine(p, mon, anchors=anch, limit=limit, backend=cls)
    eng.forget = True
    return eng, eng.enter(fn), fn


class ThreadDtor(Monitor):
    init = False

    def event(self, eng, st, ev):
        if ev.kind in ('call', 'rcall', 'thread') and ev.name.split('::')[-1] in ('join', 'wait', 'pthread_join'):
            st.mon = True
        if ev.kind in ('call', 'rcall', 'thread') and ev.name.split('::')[-1] == 'detach':
            st.mon = 'detach'


def thread_class(p, r):
    """the destructor of the thread wrapper waits for the thread"""
    for fn in p.fns.values():
        if fn.cls == 'efsw::Thread' and fn.isdtor:
            m = ThreadDtor()
            eng = Engine(p, m, raw={'efsw::Thread'})
            res = eng.enter(fn)
            for st, _ in res:
                r.ok()
                absent = any(f.op in ('eq',) and v and (NULL in f.a or any(isint(z) and z.a[0] == 0 for z in f.a)) for f, v in st.facts.items()) or \
                    any(v is False and 'Thread' in show(f) for f, v in st.facts.items() if f.op not in ('eq', 'lt'))
                if st.mon == 'detach':
                    r.bad('thread:detach', 'the destructor of the thread object lets the thread run on: %s' % st.path(6))
                elif not st.mon and not absent:
                    r.bad('thread:join', 'the destructor of the thread object does not wait for the thread: %s' % st.path(6))


def c04_dtor(p, r, cls):
    fns = [f for f in p.fns.values() if f.cls == cls and f.isdtor]
    if not fns:
        r.bad('none:' + cls, '%s has no destructor that ends its thread' % cls)
    for fn in fns:
        m = Dtor(p, cls, fn, lambda k, t: r.bad('%s:%s' % (cls, k), t))
        eng = Engine(p, m, backend=cls, noinline=('efsw::DirWatcherGeneric', 'efsw::WatcherGeneric'))
        res = eng.enter(fn)
        for st, _ in res:
            r.ok()
            if not st.mon[1] and not m.none(eng, st):
                r.bad(cls + ':nojoin', '%s returns without having waited for its thread: %s' % (fn.q, st.path(6)))
            if not st.mon[0]:
                r.bad(cls + ':nostop', '%s does not tell its thread to stop: %s' % (fn.q, st.path(6)))


@rule('C04', 'Path-sensitive typestate of destruction, both Linux backends: on every path of the destructor the stop flag is cleared first, then the thread is waited for ( holding '
      'no lock ), and only then is anything freed, emptied or closed. The destructor of the thread object joins. In the worker every wait '
      'has a time limit, is followed by a look at the stop flag before the next wait, and the descriptor is read only after the wait reported '
      'something to read.', ['Listeners return from their callbacks'], 'path-sensitive typestate (destruction order)')
def c04(p, tier):
    r = Result()
    for cls in (CLS, GEN):
        r.part(c04_dtor, p, r, cls)
    r.part(thread_class, p, r)

    def ino_worker():
        m = Wait(p, CLS, lambda k, t: r.bad('worker:' + k, t), nonblocking(p))
        analyse_run(p, m)
        r.obligations += sum(m.n.values())
        r.need('worker_waits', m.n['waits'], 1)
        r.need('worker_reads', m.n['reads'], 1)
        r.need('flag_checks', m.n['checks'], 1)
    r.part(ino_worker)

    def gen_worker():
        m = Wait(p, GEN, lambda k, t: r.bad('gworker:' + k, t), True)
        run_worker(p, GEN, m)
        r.obligations += sum(m.n.values())
        r.need('polling_waits', m.n['waits'], 1)
    r.part(gen_worker)
    return r


# -------------------------------------------------------------------- C06
def is_watch(t):
    s = t.get('s', '').replace('const', '').strip()
    return s.endswith('*') and 'Watcher' in s and '<' not in s


def live_iterators(st):
    """variables that are iterators of a container that is a member"""
    return tuple(sorted((l for l, v in st.store.items() if isinstance(v, T) and v.op == 'it' and v.a[0].op == 'fld' and v.a[0].a[0] is mk_obj(THIS)), key=str))


class Free(Monitor):
    """worker: mon = ( pointer that may dangle, where, deleted since the last clear?, waits,
    iterators of tables that a listener may have invalidated )"""
    init = (None, None, False, 0, ())

    def __init__(self, p, bad):
        self.p, self.bad = p, bad
        self.N = Names(p)
        self.n = {'deletes': 0, 'pointers_compared': 0}
        self.root = None
        self.dispatch = handler(p).q

    def pointers(self, st):
        """locals of the worker that hold a watch"""
        out = []
        for k, v in st.store.items():
            if k.op == 'v' and isinstance(k.a[1], int):
                fn = self.root
                d = fn.decls.get(k.a[1]) if fn is not None and k.a[0] == self.rootfid else None
                if d is not None and is_watch(d.get('t', {})) and v is not NULL and not (isint(v) and v.a[0] == 0):
                    out.append((k, d['name'], v))
        return out

    def ruled_out(self, eng, st, v):
        """the path looked the pointer up among the watches to be freed"""
        for f, w in st.facts.items():
            if f.op in ('found', 'has', 'none', 'atend') and any(vroot(x, self.N.mDeletedWatches) for x in subterms(f)) and any(x is v for x in subterms(f)):
                return True
        return False

    def event(self, eng, st, ev):
        k = ev.kind
        if self.root is None and ev.fr is not None:
            fr = ev.fr
            while getattr(fr, 'up', None) is not None:
                fr = fr.up
            self.root, self.rootfid = fr.fn, fr.fid
        if k == 'rcall' and ev.name == self.dispatch or k == 'cb':
            st.mon = st.mon[:4] + (live_iterators(st),)
        elif k == 'step' and ev.args and isinstance(ev.args[0], T) and ev.args[0].op == 'it' and ev.obj in st.mon[4]:
            self.bad('iterator', 'the worker goes on with an iterator of a table of watches at %s after it called a listener, which can add and remove watches: %s' %
                     (ev.where(), st.path(6)))
        elif k == 'write' and ev.obj in st.mon[4]:
            st.mon = st.mon[:4] + (tuple(x for x in st.mon[4] if x is not ev.obj),)
        if k == 'delete' and ev.name in ('efsw::WatcherInotify', 'efsw::Watcher'):
            x = ev.obj
            if x is NULL or isint(x) or eng.truth(st, mk_eq(x, NULL)) is True:
                return
            self.n['deletes'] += 1
            if not any(s.op == 'elem' and vroot(s.a[0], self.N.mDeletedWatches) for s in subterms(x)) and known(x):
                self.bad('direct', 'the worker frees %s at %s, which is not a watch that was removed and queued to be freed: %s' % (show(x), ev.where(), st.path(6)))
            st.mon = st.mon[:2] + (True,) + st.mon[3:]
            if st.mon[0] is not None:
                return
            for loc, name, v in self.pointers(st):
                if v is x or v.op == 'elem' and v is x:
                    continue
                self.n['pointers_compared'] += 1
                t = eng.truth(st, mk_eq(v, x))
                if t is False or self.ruled_out(eng, st, v):
                    continue
                if any(s is x for s in subterms(v)):
                    continue
                st.mon = ((loc, v), (name, ev.where())) + st.mon[2:]
                return
        elif k == 'mut' and ev.obj is self.N.mDeletedWatches and ev.name in ('clear', 'assign', 'swap', 'erase'):
            st.mon = st.mon[:2] + (False,) + st.mon[3:]
        elif k == 'call' and ev.name in WAITS:
            if st.mon[2]:
                self.bad('twice', 'freed watches are still queued to be freed at the next wait %s' % ev.where())
            d = st.mon[0]
            if d is not None:
                v = st.store.get(d[0])
                if v is d[1]:
                    self.bad('dangling:' + st.mon[1][0], 'the worker keeps %s over the next wait at %s although the watch it points to may have been freed at %s: %s' %
                             (st.mon[1][0], ev.where(), st.mon[1][1], st.path(8)))
            if st.mon[3] >= 2:
                return []
            st.mon = (None, None, False, st.mon[3] + 1, st.mon[4])


class AfterFree(Monitor):
    """any function: nothing freed is used again on the same path. mon = freed terms"""
    init = ()

    def __init__(self, bad):
        self.bad = bad
        self.n = 0

    def event(self, eng, st, ev):
        if ev.kind == 'delete':
            self.n += 1
            for x, at in st.mon:
                if x is ev.obj:
                    self.bad('double', '%s is freed again at %s, it was freed at %s: %s' % (show(x), ev.where(), at, st.path(6)))
            if ev.obj.op not in ('int',) and ev.obj is not NULL:
                st.mon = (st.mon + ((ev.obj, ev.where()),))[-4:]
        elif st.mon and ev.kind in ('cb', 'rcall', 'write', 'mut'):
            for x, at in st.mon:
                o = ev.obj
                base = o
                n = 0
                while isinstance(base, T) and base.op in ('fld', 'at', 'idx') and n < 10:
                    base = base.a[0]
                    n += 1
                if isinstance(base, T) and (n or ev.kind in ('rcall', 'cb')) and base is (mk_obj(x) if n or base.op == 'obj' else x):
                    self.bad('use', '%s is used at %s after it was freed at %s: %s' % (show(x), ev.where(), at, st.path(6)))


def deletes(p):
    """functions that free watches"""
    out = []
    for f in p.fns.values():
        for n in f.nodes.values():
            if n['k'] == 'delete' and any(w in str(n.get('dt')) + str(f.nodes.get(n.get('sub'), {}).get('t', '')) for w in ('Watcher',)):
                out.append(f)
                break
    return out


@rule('C06', 'Path-sensitive dataflow. Removal takes a watch out of every table and list that leads to it, together with every watch that has it as an ancestor, and queues it instead of freeing '
      'it. Only the worker, at the end of a round, and destruction, after the worker has ended, free what is queued; when the worker waits again the queue is '
      'empty and no variable it keeps over the wait can point to a freed watch: each was compared with it or cleared. In the polling backend removal during a round '
      'queues and only a removal between rounds frees. No iterator of a table is advanced after a listener was called. No function uses or frees on the same path what it has freed.',
      ['Raw pointers to watches are kept only in the members and variables of the library'], 'path-sensitive dataflow (ownership of watches)')
def c06(p, tier):
    r = Result()

    def removal():
        out, n, fn = r_rem.analyse_removal(p)
        for k, t in out.items():
            if k.startswith('left:') or k in ('freed', 'lost', 'ref', 'real') or k.startswith('child'):
                r.bad('remove:' + k, t)
        r.obligations += sum(n.values())
        r.counts.update({'removal_' + k: v for k, v in n.items()})
    r.part(removal)

    def worker():
        m = Free(p, lambda k, t: r.bad('worker:' + k, t))
        analyse_run(p, m)
        r.obligations += sum(m.n.values())
        r.need('deletes_in_worker', m.n['deletes'], 1)
        r.counts['pointers_compared'] = m.n['pointers_compared']
    r.part(worker)
    r.part(c06_elsewhere, p, r)
    r.part(c06_generic, p, r)
    leaves(p, r, 'tree')
    return r


class GenRemove(Monitor):
    """mon = ( watch taken out of the table, queued?, silenced?, freed? )"""
    init = (None, False, False, False)

    def __init__(self, p, fn, bad):
        self.p, self.fn, self.bad = p, fn, bad
        self.mWatches = mk_fld(mk_obj(THIS), F(p, GEN, 'mWatches'))
        self.polling = mk_fld(mk_obj(THIS), F(p, GEN, 'mPolling'))
        self.listener = F(p, 'efsw::Watcher', 'Listener')
        self.n = {'removed': 0, 'freed': 0, 'queued': 0}

    def event(self, eng, st, ev):
        k = ev.kind
        x, q, s, f = st.mon
        if k == 'mut' and ev.obj is self.mWatches and ev.name == 'erase' and len(ev.args) > 1:
            self.n['removed'] += 1
            st.mon = (ev.args[-1], q, s, f)
        elif k == 'mut' and ev.name in ('push', 'insert', 'set') and ev.obj is not self.mWatches and ev.obj.op == 'fld' and any(a is x for a in ev.args):
            self.n['queued'] += 1
            st.mon = (x, True, s, f)
        elif k == 'write' and ev.name == self.listener and x is not None and any(y is x for y in subterms(ev.obj)):
            st.mon = (x, q, ev.args[0] is NULL, f)
        elif k == 'delete' and 'WatcherGeneric' in ev.name and ev.obj is not NULL:
            if ev.obj.op == 'new':
                return
            self.n['freed'] += 1
            t = eng.truth(st, mk_eq(st.store.get(self.polling, mk('init', self.polling)), NULL))
            if t is None:
                t = eng.truth(st, st.store.get(self.polling, mk('init', self.polling)))
                t = None if t is None else not t
            if t is not True:
                self.bad('inuse', '%s frees the watch at %s although the worker may be using it ( a listener that removes its own watch is called '
                         'from inside of it ): %s' % (self.fn.q, ev.where(), st.path(6)))
            st.mon = (x, q, s, True)


class GenWorker(Monitor):
    """mon = ( a queued watch was freed and is still queued, the queue was freed since the lock was taken, iterators a listener may have invalidated )"""
    init = (False, False, ())

    def __init__(self, p, bad):
        self.p, self.bad = p, bad
        self.deleted = mk_fld(mk_obj(THIS), F(p, GEN, 'mDeletedWatches'))
        self.polling = mk_fld(mk_obj(THIS), F(p, GEN, 'mPolling'))
        self.listener = F(p, 'efsw::Watcher', 'Listener')
        self.table = mk_fld(mk_obj(THIS), F(p, GEN, 'mWatches'))
        self.n = {'rounds': 0, 'freed': 0}

    def event(self, eng, st, ev):
        k = ev.kind
        if k == 'lock':
            st.mon = (st.mon[0], False, st.mon[2])
        elif k == 'step' and ev.args and isinstance(ev.args[0], T) and ev.args[0].op == 'it' and ev.obj in st.mon[2]:
            self.bad('round:iterator', 'the worker goes on with an iterator of the table of watches at %s after it called listeners, which can add and remove watches: %s' %
                     (ev.where(), st.path(6)))
        elif k == 'write' and ev.obj in st.mon[2]:
            st.mon = (st.mon[0], st.mon[1], tuple(x for x in st.mon[2] if x is not ev.obj))
        elif k in ('rcall', 'call') and ev.name == 'efsw::WatcherGeneric::watch':
            self.n['rounds'] += 1
            old = live_iterators(st)
            st.mon = (st.mon[0], st.mon[1], old)
            v = st.store.get(self.polling, mk('init', self.polling))
            t = eng.truth(st, mk_eq(v, NULL))
            if t is None:
                t = eng.truth(st, v)
                t = None if t is None else not t
            if t is not False:
                self.bad('round:polling', 'the worker looks at a watch at %s without having marked that a round is going on: a listener that removes the watch frees it '
                         'while it is in use: %s' % (ev.where(), st.path(6)))
            if not isinstance(ev.obj, T):
                return
            loc = mk_fld(mk_obj(ev.obj), self.listener)
            if eng.truth(st, mk_eq(st.store.get(loc, mk('init', loc)), NULL)) is not False:
                self.bad('round:removed', 'the worker looks at a watch at %s without checking that no listener has removed it in this round: %s' % (ev.where(), st.path(6)))
            if st.mon[1]:
                self.bad('round:freed', 'the worker looks at a watch at %s after it has freed the removed watches of the same round: %s' % (ev.where(), st.path(6)))
        elif k == 'delete' and 'WatcherGeneric' in ev.name and ev.obj is not NULL:
            x = ev.obj
            if any(s.op == 'elem' and vroot(s.a[0], self.deleted) for s in subterms(x)):
                self.n['freed'] += 1
                st.mon = (x, True, st.mon[2])
            elif known(x) and x.op != 'new':
                self.bad('direct', 'the worker frees %s at %s, which is not a watch that was removed and queued: %s' % (show(x), ev.where(), st.path(6)))
        elif k == 'mut' and ev.obj is self.deleted:
            if ev.name in ('clear', 'assign', 'swap', 'erase', 'pop') or ev.name == 'set' and ev.args and ev.args[-1] is NULL:
                st.mon = (False, st.mon[1], st.mon[2])
        elif k == 'unlock' and st.mon[0]:
            self.bad('twice', 'freed watches stay queued to be freed at %s: %s' % (ev.where(), st.path(6)))
            st.mon = (False, st.mon[1], st.mon[2])


def c06_generic(p, r):
    tot = {}
    for fn in list(p.fns.values()):
        if fn.cls == GEN and fn.n == 'removeWatch':
            m = GenRemove(p, fn, lambda k, t: r.bad('generic:' + k, t))
            eng = Engine(p, m, backend=GEN, noinline=('efsw::DirWatcherGeneric',))
            for st, _ in eng.enter(fn):
                x, q, s, f = st.mon
                if x is None or eng.truth(st, mk_eq(x, NULL)) is True:
                    continue
                r.ok()
                if not q and not f:
                    r.bad('generic:lost', '%s takes a watch out of the table and neither frees nor queues it: %s' % (fn.q, st.path(6)))
                if q and not f and not s:
                    r.bad('generic:silent', '%s queues a removed watch with its listener still set: the round that is going on may still call it: %s' % (fn.q, st.path(6)))
                if q and f:
                    r.bad('generic:both', '%s frees a watch and leaves it queued to be freed: %s' % (fn.q, st.path(6)))
            for k, v in m.n.items():
                tot[k] = tot.get(k, 0) + v
    r.need('generic_removed', tot.get('removed', 0), 2)
    m = GenWorker(p, lambda k, t: r.bad('generic:' + k, t))
    run_worker(p, GEN, m)
    r.need('generic_rounds', m.n['rounds'], 1)
    r.need('generic_freed', m.n['freed'], 1)


class Direct(Monitor):
    init = None

    def __init__(self, fn, bad):
        self.fn, self.bad, self.n = fn, bad, 0

    def event(self, eng, st, ev):
        if ev.kind == 'delete' and 'Watcher' in ev.name and isinstance(ev.obj, T) and ev.obj is not NULL:
            self.n += 1
            if ev.obj.op != 'new' and not isint(ev.obj) and known(ev.obj):
                self.bad('freed:' + self.fn.n, '%s frees a watch at %s, the worker may be using it: %s' % (self.fn.q, ev.where(), st.path(6)))


def c06_elsewhere(p, r):
    """functions of the inotify backend, other than the worker and the destructor, that free a watch"""
    w = {f.usr for e in conc.worker_entries(p, CLS) for f in [e]}
    n = 0
    for f in deletes(p):
        if f.cls != CLS or f.isdtor or f.usr in w or f.n == entry(p).n:
            continue
        callers = [g for g in p.fns.values() if any(x['k'] == 'call' and x.get('usr') == f.usr for x in g.nodes.values())]
        if callers and all(g.isdtor or g.usr in w or g.n == 'run' for g in callers):
            continue                                      # part of the worker, analysed there
        m = Direct(f, lambda k, t: r.bad(k, t))
        eng = Engine(p, m)
        eng.enter(f)
        n += m.n
    r.counts['deletes_elsewhere'] = n
    r.obligations += n


SNAP = ('efsw::DirectorySnapshot', 'efsw::FileSystem', 'efsw::FileInfo', 'efsw::DirectorySnapshotDiff')


class Listener(Monitor):
    init = None

    def __init__(self, fn, field, bad):
        self.fn, self.bad, self.n = fn, bad, 0
        self.field = field

    def event(self, eng, st, ev):
        if ev.kind == 'cb' and isinstance(ev.obj, T):
            self.n += 1
            x = ev.obj
            x = x.a[0] if x.op == 'obj' else x
            if x.op == 'init' and x.a[0].op == 'fld' and x.a[0].a[1] == self.field and eng.truth(st, mk_eq(x, NULL)) is not False:
                self.bad(self.fn.n, '%s calls the listener at %s without checking that the watch was not removed: %s' % (self.fn.q, ev.where(), st.path(6)))


def generic_listeners(p, r):
    fld = F(p, 'efsw::Watcher', 'Listener')
    n = 0
    cbs = {f.usr for f in p.fns.values() if any(x['k'] == 'call' and x['n'] in ('handleFileAction', 'handleMissedFileActions') for x in f.nodes.values())}
    for fn in list(p.fns.values()):
        if fn.cls in ('efsw::DirWatcherGeneric', 'efsw::WatcherGeneric', GEN) and \
                any(x['k'] == 'call' and x['n'] in ('handleFileAction', 'handleMissedFileActions') for x in fn.nodes.values()):
            m = Listener(fn, fld, lambda k, t: r.bad('removed:' + k, t))
            eng = Engine(p, m, backend=GEN, noinline=SNAP + ('efsw::DirWatcherGeneric',),
                         inline=lambda f: f.cls not in SNAP and not (set(conc.reach(callees(p), f.usr)) | {f.usr}) & cbs)
            eng.enter(fn)
            n += m.n
            r.obligations += m.n
    r.need('generic_callbacks', n, 1)
