"""C08: watches follow a renamed directory."""
from .prog import AnalysisError
from .engine import *
from .ino import *
from .r_ino import handler, handle_params, anchors_of, excuse, ISDIR
from .r_leaf import leaves
from .rules import rule, Result


class Move(Monitor):
    """mon = ( key of the watch looked at, what was done to it, keys of the loops entered, nothing due any more?, writes that left the loop )
    what was done: (( 'dir', value ), ( 'erase', path ), ( 'set', path, id ) ...)"""
    init = (None, (), (), False)

    def __init__(self, p, N, w, name, bad, note):
        self.p, self.N, self.w, self.name, self.bad, self.note = p, N, w, name, bad, note
        self.loops, self.breaks = set(), []
        self.n = {'rewritten': 0, 'left': 0}

    def is_elem(self, eng, st, x):
        """the key, when x is a watch of the table"""
        if isinstance(x, T) and x.op == 'proj' and x.a[0].op == 'elem' and vroot(x.a[0].a[0], self.N.mWatches):
            return x.a[0].a[1]
        return None

    def branch(self, eng, st, atom, val, fr, line):
        if excuse(eng, st, self.N, self.w, atom, val):
            st.mon = st.mon[:3] + (True,)
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        if atom.op == 'atend' and vroot(atom.a[1], self.N.mWatches):
            k = atom.a[0]
            if val:
                st.mon = (None, ()) + ((st.mon[2] + (k,))[-4:] if k not in st.mon[2] else st.mon[2], st.mon[3])
            else:
                N = self.N
                W = mk_proj(mk_elem(atom.a[1], k), 'second')
                d, o = get(eng, st, self.w, 'Directory', N), get(eng, st, self.w, 'OldFileName', N)
                st.mon = ((k, W, get(eng, st, W, 'Directory', N), mk_slash(mk_cat(d, o)), mk_slash(mk_cat(d, self.name))), (), st.mon[2], st.mon[3])

    def event(self, eng, st, ev):
        k, done, loops, exc = st.mon
        if k is None:
            return
        E, k = k, k[0]
        if ev.kind == 'write' and ev.obj.op == 'fld' and ev.obj.a[1] == F(self.p, 'efsw::Watcher', 'Directory'):
            self.loops.add(k)
            st.mon = (E, done + (('dir', ev.obj, ev.args[0], ev.where()),), loops, exc)
        elif ev.kind == 'mut' and ev.obj is self.N.mWatchesRef and ev.name in ('erase', 'set', 'insert', 'emplace'):
            st.mon = (E, done + ((('erase' if ev.name == 'erase' else 'set'),) + tuple(ev.args) + (ev.where(),),), loops, exc)
        elif ev.kind == 'step' and ev.args and isinstance(ev.args[0], T) and ev.args[0].op == 'it' and vroot(ev.args[0].a[1], self.N.mWatches):
            self.judge(eng, st, E, done, ev)
            st.mon = (None, (), loops, exc)
        elif ev.kind == 'unlock' and (ev.obj is self.N.mWatchesLock or ev.obj is None):
            self.breaks.append((k, done, ev.where(), st.path(8)))

    def judge(self, eng, st, E, done, ev):
        k, W, D, O, Nw = E
        N = self.N
        first = mk_slash(mk_cat(mk('init', N.of(self.w, 'Directory')), mk('init', N.of(self.w, 'OldFileName'))))
        for f in st.facts:                # another version of the same path
            if f.op in ('eq', 'prefix') and any(x is D for x in f.a):
                for x in f.a:
                    if x is not D and x is not O and show(x) == show(first):
                        O = x
        if not any(x is D for f in st.facts for x in subterms(f)) and not done:
            self.cand = getattr(self, 'cand', {})
            self.cand.setdefault(k, []).append(('untested', st.path(8), ev.where()))
            return
        eq = eng.truth(st, mk_eq(O, D))
        pre = eng.truth(st, mk('prefix', O, D))
        dirs = [x for x in done if x[0] == 'dir']
        other = [f for f in st.facts if any(x is D for x in subterms(f)) and f not in (mk_eq(O, D), mk('prefix', O, D))]
        # a path rewritten because of the wrong comparison
        if eq is True or pre is True:
            want = mk_cat(Nw, mk('substr', D, mk('size', O)))
            wants = [Nw] if eq is True else []
            wants.append(want)
            if not dirs:
                if self.same_elem(eng, st, W):
                    return
                self.cand = getattr(self, 'cand', {})
                self.cand.setdefault(k, []).append(('kept', st.path(8), ev.where(), 'the renamed directory' if eq else 'a directory below it'))
                return
            self.n['rewritten'] += 1
            v = eng.resolve(st, dirs[-1][2])
            if not any(v is x or eng.resolve(st, x) is v for x in wants):
                if known(v) or v.op in ('cat', 'slash', 'param'):
                    self.bad('value', 'the watch on %s becomes %s at %s, it has to become %s: %s' %
                             ('the renamed directory' if eq else 'a directory below the renamed one', show(v), dirs[-1][3], show(wants[0]), st.path(8)))
                else:
                    self.note('new path %s at %s not understood' % (show(v)[:120], dirs[-1][3]))
                return
            er = [x for x in done if x[0] == 'erase']
            se = [x for x in done if x[0] == 'set']
            if not any(any(a is D or a is O and eq or eng.resolve(st, a) is eng.resolve(st, D) for a in x[1:-1]) for x in er):
                bad = [x for x in er if known(x[1])]
                self.bad('ref:erase', 'the path index keeps the old path of %s%s: %s' % ('the renamed directory' if eq else 'a directory below the renamed one',
                         ', what is erased at %s is %s' % (bad[0][-1], show(bad[0][1])) if bad else '', st.path(8)))
            good = [x for x in se if x[1] is v or eng.resolve(st, x[1]) is v]
            if not good:
                self.bad('ref:set', 'the path index does not get the new path of %s%s: %s' % ('the renamed directory' if eq else 'a directory below the renamed one',
                         ', what is set at %s is %s' % (se[0][-1], show(se[0][1])) if se else '', st.path(8)))
            else:
                i = eng.resolve(st, good[0][2])
                ids = [mk_proj(W.a[0], 'first')] + [mk('init', self.N.of(W, f)) for f in ('InotifyID', 'ID')]
                if not any(i is eng.resolve(st, x) for x in ids) and known(i):
                    self.bad('ref:id', 'the path index leads from the new path to %s at %s, not to the watch that was renamed: %s' % (show(i), good[0][-1], st.path(8)))
                ke = next((n for n, x in enumerate(done) if x[0] == 'erase'), None)
                ks = max(n for n, x in enumerate(done) if x in good)
                if ke is not None and ke > ks and done[ke][1] is not D:
                    self.bad('ref:order', 'the path index is erased at %s after the new path was set: %s' % (done[ke][-1], st.path(8)))
        elif pre is False or eq is False and pre is None and other:
            if not dirs and not any(x[0] in ('erase', 'set') for x in done):
                self.n['left'] += 1
                return
            if pre is False:
                self.bad('other', 'the path of a watch that is not on the renamed directory nor below it is changed at %s: %s' % (done[0][-1], st.path(8)))
                return
            self.foreign(eng, st, D, O, other, done)
        elif dirs:
            self.foreign(eng, st, D, O, other, done)
        else:
            if self.same_elem(eng, st, W):
                return
            if other:
                self.cand = getattr(self, 'cand', {})
                self.cand.setdefault(k, []).append(('note', 'test of %s not understood' % show(other[0])[:120], ''))
            else:
                self.cand = getattr(self, 'cand', {})
                self.cand.setdefault(k, []).append(('untested', st.path(8), ev.where()))

    def same_elem(self, eng, st, W):
        return eng.truth(st, mk_eq(W, self.w)) is True

    def foreign(self, eng, st, D, O, other, done):
        for f in other:
            if f.op == 'prefix' and f.a[1] is D and st.facts[f]:
                x = f.a[0]
                if not (x.op == 'slash' or x.op == 'cat' and x.a[-1].op == 'str' and x.a[-1].a[0].endswith('/')):
                    if any(g is not f and g.op not in ('prefix', 'eq') for g in other):
                        self.note('test of %s not understood' % show(f)[:120])
                        return
                    self.bad('sibling', 'the path of a watch is changed at %s when it begins with %s, which other directories do too whose name only begins '
                             'with the same characters: %s' % (done[0][-1], show(x), st.path(8)))
                    return
            if f.op == 'eq' and not st.facts[f] and any(x.op == 'sfind' and x.a[0] == 'find' and x.a[1] is D for x in f.a) and INT(-1) in f.a:
                self.bad('inside', 'the path of a watch is changed at %s when it contains the old path anywhere, not only when it begins with it: %s' % (done[0][-1], st.path(8)))
                return
        if not other:
            self.bad('all', 'the path of a watch is changed at %s without having been compared with the old path of the directory: %s' % (done[0][-1], st.path(8)))
        else:
            self.note('test of %s not understood' % show(other[0])[:120])


@rule('C08', 'Path-sensitive dataflow over the dispatch function for the arrival half of a rename inside one directory. Every path with the old name recorded, the '
      'watch recursive and the notification one of a directory goes through the loop over all watches, no iteration of which leaves it early. In every iteration the '
      'symbolic path D of the watch is compared with O, the old path closed by a slash: D = O gives the new path closed by a slash, '
      'D beginning with O gives the new path plus D without O, everything else stays untouched; the path index loses D and gains the new path with the '
      'id of the same watch.', ['A watch is removed or silenced only by the tests of C07'], 'path-sensitive dataflow (value numbering of paths)')
def c08(p, tier):
    r = Result()
    fn = handler(p)
    N = Names(p)
    iw, iname, ia = handle_params(fn)
    w, nm = mk('param', iw, fn.params[iw]['name']), mk('param', iname, fn.params[iname]['name'])
    old = mk('init', N.of(w, 'OldFileName'))
    nloop = 0
    for mask in (0x80 | ISDIR,):
        m = Move(p, N, w, nm, r.bad, r.note)
        eng = Engine(p, m, anchors=anchors_of(p))

        def setup(s):
            s.facts[mk_eq(old, EMPTY)] = False
        res = eng.enter(fn, params={ia: INT(mask), iw: w, iname: nm}, setup=setup)
        for k, lst in getattr(m, 'cand', {}).items():
            if k in m.loops:
                for c in lst:
                    if c[0] == 'note':
                        r.note(c[1])
                    elif c[0] == 'kept':
                        r.bad('kept', 'a watch on %s keeps its path at %s: %s' % (c[3], c[2], c[1]))
                    else:
                        r.bad('untested', 'a watch keeps its path at %s without having been compared with the old path of the directory: %s' % (c[2], c[1]))
        for k, done, at, path in m.breaks:
            if k in m.loops:
                r.bad('early', 'the loop over the watches ends at %s before all of them were looked at: %s' % (at, path))
        for st, _ in res:
            k, done, loops, exc = st.mon
            r.ok()
            if any(x in m.loops for x in loops) or k is not None and k[0] in m.loops:
                nloop += 1
                continue
            if exc or eng.truth(st, mk_eq(old, EMPTY)) is True:
                continue
            rec = eng.truth(st, mk_eq(mk('init', N.of(w, 'Recursive')), NULL))
            if rec is True:
                continue
            r.bad('skip', 'after the rename of a directory inside a recursive watch no watch follows: %s' % st.path(10))
        r.obligations += sum(m.n.values())
        r.counts.update(m.n)
    r.need('paths_through_loop', nloop, 1)
    r.need('rewritten', r.counts.get('rewritten', 0), 2)
    r.need('left', r.counts.get('left', 0), 1)
    leaves(p, r, 'prefix', 'slash')
    return r
