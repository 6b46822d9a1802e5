"""C15: what a poll of one directory finds."""
from .prog import AnalysisError
from .engine import *
from .ino import *
from .r_leaf import leaves
from .rules import rule, Result

SNAPSHOT = 'efsw::DirectorySnapshot'
DIFF = 'efsw::DirectorySnapshotDiff'
LISTS = ('FilesCreated', 'FilesModified', 'FilesDeleted', 'FilesMoved', 'DirsCreated', 'DirsModified', 'DirsDeleted', 'DirsMoved')


def diff_fields(p):
    return {F(p, DIFF, n): n for n in LISTS}


def snap_field(p, want):
    fs = [f['n'] for f in p.records[SNAPSHOT]['fields'] if want(f['t'].get('s', ''))]
    if len(fs) != 1:
        raise AnalysisError('%s has %d fields of the expected type' % (SNAPSHOT, len(fs)))
    return fs[0]


def flags_of(fl, kind):
    return [x for x in fl if isinstance(x, tuple) and x[0] == kind]


class Scan(Monitor):
    """mon = ( element of the new listing being looked at, what was done since the last step, flags )
    done: ( 'push', list, value, where ) ( 'set', key, value ) ( 'erase', container, key ) ( 'clear', )"""
    init = (None, (), frozenset())

    def __init__(self, p, fn, bad, note):
        self.p, self.fn, self.bad, self.note = p, fn, bad, note
        self.lists = diff_fields(p)
        self.info = mk_fld(mk_obj(THIS), snap_field(p, lambda s: s == 'efsw::FileInfo'))
        self.files = mk_fld(mk_obj(THIS), snap_field(p, lambda s: s.startswith(MAPS)))
        self.n = {k: 0 for k in ('same', 'modified', 'replaced', 'created', 'moved', 'ignored', 'passed over', 'deleted', 'kept', 'ends')}

    # ---- the state after any number of rounds
    def widen(self, st, mine):
        for k in list(st.store):
            v = st.store[k]
            if k is mine:
                continue
            if k is self.files or k.op == 'v' and self.is_old(st, v, k) or k.op == 'fld' and k.a[1] in self.lists:
                st.store[k] = mk('hv', k)
            elif any(x.op in ('ek', 'old', 'gen', 'hv', 'cv') for x in v.sy):
                st.store[k] = mk('big', 'any', k.id)
        self.forget(st, lambda x: x.op in ('ek', 'old', 'gen', 'hv', 'cv', 'big'))
        st.facts = {f: v for f, v in st.facts.items() if not any(x.op in ('ins', 'del', 'app') for x in subterms(f))}

    def forget(self, st, drop):
        st.facts = {f: v for f, v in st.facts.items() if not any(drop(x) for x in f.sy)}
        st.rep = {k: v for k, v in st.rep.items() if not any(drop(x) for x in k.sy | v.sy)}

    def is_listing(self, V):
        return V.op == 'listing' or V.op in ('ins', 'del') and self.is_listing(V.a[0])

    def is_old(self, st, V, C=None):
        """some version of the previous snapshot, or of a copy of it"""
        if vroot(V, self.files):
            return True
        return any(vroot(V, c[1]) for c in flags_of(st.mon[2], 'copy'))

    def true(self, eng, st, t):
        return eng.truth(st, t)

    def isdir(self, eng, st, v):
        return eng.truth(st, mk('isdir', v)) if v.op != 'rec' else None

    # ---- events
    def branch(self, eng, st, atom, val, fr, line):
        while atom.op == 'not':
            atom, val = atom.a[0], not val
        cur, done, fl = st.mon
        if atom.op == 'atend':
            ek, V = atom.a
            if self.is_listing(V):
                if val:
                    st.mon = (None, (), fl | {'all new'})
                    if done and cur is not None:
                        pass
                else:
                    st.mon = (mk_elem(V, ek), (), fl - {'searched'})
            elif self.is_old(st, V):
                if val:
                    st.mon = (cur, done, fl | {'searched' if cur is not None else 'all old'})
                elif cur is None:
                    st.mon = (cur, (), fl)
        elif atom.op == 'vempty' and val:
            if self.is_listing(atom.a[0]):
                st.mon = (cur, done, fl | {'all new'})
            elif self.is_old(st, atom.a[0]):
                st.mon = (cur, done, fl | {'searched' if cur is not None else 'all old'})

    def event(self, eng, st, ev):
        k = ev.kind
        cur, done, fl = st.mon
        if k == 'mut':
            if ev.obj.op == 'fld' and ev.obj.a[1] in self.lists:
                if ev.name == 'push':
                    st.mon = (cur, done + (('push', self.lists[ev.obj.a[1]], ev.args[0], ev.where()),), fl)
            elif ev.obj is self.files and ev.name in ('clear', 'assign', 'swap') or ev.obj is self.files and ev.name == 'set':
                if ev.name == 'set':
                    st.mon = (cur, done + (('set',) + tuple(ev.args[:2]),), fl)
                elif ev.name == 'clear':
                    st.mon = (cur, done, fl | {'cleared'})
                elif ev.name == 'assign' and self.is_listing(ev.args[0]):
                    st.mon = (cur, done, fl | {'replaced'})
                else:
                    st.mon = (cur, done, fl | {'unknown'})
            elif ev.name == 'assign' and ('copy', ev.obj) in fl:
                st.mon = (cur, done, fl - {('copy', ev.obj)})
            elif ev.name == 'erase' and ev.args and not (ev.extra == 'it' and cur is None):
                st.mon = (cur, done + (('erase', ev.obj, ev.args[0]),), fl)
        elif k == 'step' and ev.args and ev.args[0].op == 'it':
            C, V, ek = ev.args[0].a
            if ev.name == 'erase':
                if cur is not None or C is not self.files or ek.op != 'ek':
                    return
                done = done + (('erase', C, mk_proj(mk_elem(V, ek), 'first')),)
            if self.is_listing(V):
                self.judge_new(eng, st, mk_elem(V, ek), done, ev)
                fl = fl | {('copy', l) for l in self.copies(st)}
                st.mon = (cur, done, fl)
                self.widen(st, ev.obj)
                st.mon = (None, (), fl - {'searched'} | {'rounds'})
            elif self.is_old(st, V):
                if cur is not None:
                    self.judge_pass(eng, st, cur, mk_elem(V, ek), done, ev)
                    self.forget(st, lambda x: x is ek or x.op in ('old', 'gen') and x.a[0] is ek)
                else:
                    if 'rounds' not in fl:
                        fl = fl | {('copy', l) for l in self.copies(st)}
                        st.mon = (cur, done, fl)
                    fl = fl | self.judge_old(eng, st, mk_elem(V, ek), C, done, ev)
                    st.mon = (cur, done, fl)
                    self.widen(st, ev.obj)
                    st.mon = (None, (), fl)
        elif k == 'ret' and ev.fr.up is None:
            self.judge_end(eng, st, ev)

    # ---- judgements
    def murky(self, st, *about):
        """does the path depend on something the analysis cannot name?"""
        for f in st.facts:
            if any(x.op in ('ret', 'any', 'out', 'big') or x.op == 'ap' and x.a[0] not in ('b:atomic',) for x in subterms(f)):
                return True
        return False

    def say(self, st, key, text):
        if self.murky(st) or 'unknown' in st.mon[2]:
            self.note('%s: not decided whether %s' % (self.fn.q, text[:160]))
        else:
            self.bad(key, text)

    def before(self, st, K):
        """was the name in the previous snapshot?"""
        for f, v in st.facts.items():
            if f.op == 'has' and f.a[1] is K and self.is_old(st, f.a[0]):
                return v
        return None

    def listed(self, st, K):
        for f, v in st.facts.items():
            if f.op == 'has' and f.a[1] is K and self.is_listing(f.a[0]):
                return v
            if f.op == 'vempty' and v and self.is_listing(f.a[0]):
                return False
        return None

    def pair(self, st, op, x, y=None):
        """is the fact op( x, y ) known? y: any entry of the previous snapshot"""
        for f, v in st.facts.items():
            if f.op == op and any(a is x for a in f.a):
                o = f.a[0] if f.a[1] is x else f.a[1]
                if y is None and any(z.op == 'elem' and self.is_old(st, z.a[0]) for z in subterms(o)) or y is not None and o is y:
                    return v
        return None

    def paths_equal(self, eng, st, x, y):
        q = 'efsw::FileInfo::Filepath'
        return eng.truth(st, mk_eq(mk_proj(x, q), mk_proj(y, q)))

    def same_inode(self, eng, st, x, y):
        v = self.pair(st, 'sameino', x, y)
        if v is None:
            q = 'efsw::FileInfo::Inode'
            v = eng.truth(st, mk_eq(mk_proj(x, q), mk_proj(y, q)))
        return v

    def judge_new(self, eng, st, E, done, ev):
        K, N = mk_proj(E, 'first'), mk_proj(E, 'second')
        push = [d for d in done if d[0] == 'push']
        sets = [d for d in done if d[0] == 'set']
        gone = [d for d in done if d[0] == 'erase']
        copies = self.copies(st)
        out = [d[2] for d in gone if d[1] in copies]
        drop = [d[2] for d in gone if d[1] is self.files]
        at = push[0][3] if push else ev.where()
        how = st.path(7)
        fl = st.mon[2]
        was = self.before(st, K)
        kept = any(d[1] is K and d[2] is N for d in sets)
        old = next((mk_proj(a, 'second') for f in st.facts for a in subterms(f) if a.op == 'elem' and a.a[1].op == 'k' and a.a[1].a[0] is K and self.is_old(st, a.a[0])), None)
        if old is None:
            old = mk_proj(mk_elem(mk('init', self.files), mk('k', K)), 'second')
        isd, wasd = eng.truth(st, mk('isdir', N)), eng.truth(st, mk('isdir', old))
        if wasd is None or isd is None:
            e = eng.truth(st, mk_eq(mk('isdir', N), mk('isdir', old)))
            if e is not None and (wasd is not None or isd is not None):
                wasd, isd = (wasd, wasd is e) if wasd is not None else (isd is e, isd)
        if len(push) == 2 and was and {d[1][5 - d[1].startswith('Dirs'):] for d in push} == {'Deleted', 'Created'}:
            # replaced by something of the other kind: one deletion, one creation
            self.n['replaced'] += 1
            gone_, made = (push[0], push[1]) if push[0][1].endswith('Deleted') else (push[1], push[0])
            if wasd is isd or wasd is None or isd is None:
                self.say(st, 'replaced', 'an entry is reported as deleted and created at %s although it is not known to have become something of the other kind: %s' % (at, how))
            elif gone_[1].startswith('Dirs') is not wasd or made[1].startswith('Dirs') is not isd:
                self.say(st, 'replaced', 'an entry that %s a directory and %s one is put into %s and %s at %s' % ('was' if wasd else 'was not', 'is' if isd else 'is not', gone_[1], made[1], at))
            elif gone_[2] is not old or made[2] is not N:
                self.say(st, 'replaced', '%s and %s get %s and %s at %s' % (gone_[1], made[1], show(gone_[2])[:80], show(made[2])[:80], at))
            elif not kept:
                self.say(st, 'snapshot', 'an entry that became something of the other kind is not put into the snapshot ( %s ): %s' % (at, how))
            elif copies and not any(x is K for x in out):
                self.say(st, 'replaced', 'an entry that became something of the other kind is not taken off the list of those that are gone ( %s ): %s' % (at, how))
            return
        if len(push) > 1:
            self.say(st, 'twice', 'one entry is put into %s and %s at %s: one change is reported as two: %s' % (push[0][1], push[1][1], push[1][3], how))
            return
        if any(x is K for x in drop):
            self.say(st, 'forget', 'an entry that is there is removed from the snapshot near %s: it is reported again by the next poll: %s' % (at, how))
        if not push:
            if was and self.pair(st, 'same', N) is True:
                self.n['same'] += 1
                if copies and not any(x is K for x in out):
                    self.say(st, 'unchanged', 'an unchanged entry is not taken off the list of those that are gone ( %s ): it is reported as deleted: %s' % (ev.where(), how))
                return
            if was is False and eng.truth(st, mk('isdir', N)) is False and eng.truth(st, mk('isreg', N)) is False:
                self.n['ignored'] += 1
                if kept:
                    self.say(st, 'special', 'an entry that is neither a file nor a directory enters the snapshot ( %s ): only its deletion would be reported: %s' % (ev.where(), how))
                return
            self.say(st, 'lost', 'an entry of the directory that %s is put into no list ( %s ): the change is lost: %s' %
                     ('was known and changed' if was else 'was not known' if was is False else 'may be new or changed', ev.where(), how))
            return
        L, v = push[0][1], push[0][2]
        kind, what = ('directory', L[4:]) if L.startswith('Dirs') else ('file', L[5:])
        d = eng.truth(st, mk('isdir', N))
        if d is not (kind == 'directory'):
            self.say(st, 'kind', 'an entry that is %s is put into %s at %s: %s' % ('a directory' if d else 'no directory' if d is False else 'not known to be a ' + kind, L, at, how))
            return
        value = mk_proj(v, 'second') if what == 'Moved' else v
        if value is not N:
            self.say(st, 'value', '%s gets %s instead of the entry found ( %s ) at %s' % (L, show(value)[:120], show(N)[:80], at))
            return
        if not kept:
            self.say(st, 'snapshot', 'an entry put into %s at %s is not put into the snapshot: the next poll finds the same difference again: %s' % (L, at, how))
            return
        if what == 'Modified':
            self.n['modified'] += 1
            if was is not True or self.pair(st, 'same', N) is not False:
                self.say(st, 'modified', 'an entry is reported as modified at %s that was not there before or did not change: %s' % (at, how))
            elif copies and not any(x is K for x in out):
                self.say(st, 'modified', 'a modified entry is not taken off the list of those that are gone ( %s ): it is reported as deleted too: %s' % (at, how))
            elif wasd is not isd and not (isd is False and eng.truth(st, mk('isreg', N)) is False):
                q = 'efsw::FileInfo::Permissions'
                if wasd is None and any(contains(f, mk_proj(old, q)) for f in st.facts if f.op != 'same'):
                    self.note('%s: kinds compared in a way that was not recognised' % self.fn.q)
                else:
                    self.say(st, 'kinds', 'an entry is reported as modified at %s that may have been %s before: %s: %s' %
                             (at, 'a file' if isd else 'a directory', 'the new directory is not watched' if isd else 'what was in it is not reported as deleted', how))
        elif what == 'Created':
            self.n['created'] += 1
            if was is not False:
                self.say(st, 'created', 'an entry is reported as created at %s that may have been there before: %s' % (at, how))
            elif 'searched' not in fl and not any(x.op in ('none', 'found') for f in st.facts for x in subterms(f)):
                self.say(st, 'search', 'an entry is reported as created at %s without looking for its file among all the entries of the snapshot: a renamed entry would be reported as created and deleted: %s' % (at, how))
        elif what == 'Moved':
            self.n['moved'] += 1
            O = mk_proj(v, 'first')
            el = next((x for x in subterms(O) if x.op == 'elem' and self.is_old(st, x.a[0])), None)
            if el is None:
                self.say(st, 'old', 'the old name put into %s at %s is %s, not the name of an entry of the snapshot' % (L, at, show(O)[:100]))
                return
            if O is not mk_proj(el, 'first'):
                self.say(st, 'old', 'the old name put into %s at %s is %s, not the name the entry had' % (L, at, show(O)[:100]))
                return
            if was is not False:
                self.say(st, 'moved', 'an entry is reported as moved at %s that may have been there before: %s' % (at, how))
            elif self.same_inode(eng, st, N, mk_proj(el, 'second')) is not True:
                self.say(st, 'moved', 'an entry is reported as moved from a name at %s that is not known to have been the same file: %s' % (at, how))
            elif self.listed(st, O) is not False:
                self.say(st, 'link', 'an entry is reported as moved from a name at %s that may still be there: %s' % (at, how))
            elif not any(x is O for x in drop):
                self.say(st, 'moved', 'the old name of an entry reported as moved at %s stays in the snapshot: %s' % (at, how))
            elif copies and not any(x is O for x in out):
                self.say(st, 'moved', 'the old name of an entry reported as moved at %s is not taken off the list of those that are gone: it is reported as deleted too: %s' % (at, how))
        else:
            self.say(st, 'present', 'an entry that is there is put into %s at %s: %s' % (L, at, how))

    def judge_pass(self, eng, st, cur, E, done, ev):
        K, N = mk_proj(cur, 'first'), mk_proj(cur, 'second')
        O, old = mk_proj(E, 'first'), mk_proj(E, 'second')
        self.n['passed over'] += 1
        if self.same_inode(eng, st, N, old) is False or self.listed(st, O) is True or self.paths_equal(eng, st, old, N) is True or \
                eng.truth(st, mk_eq(O, K)) is True:
            return
        a, b = eng.truth(st, mk('isdir', N)), eng.truth(st, mk('isdir', old))
        if a is not None and b is not None and a is not b:
            return
        self.say(st, 'pass', 'the search for the old name of a new entry passes over an entry at %s that may have been the same file and may be gone: the rename would be reported as creation and deletion: %s' % (ev.where(), st.path(7)))

    def copies(self, st):
        return {l for l, v in st.store.items() if l.op == 'v' and l is not self.files and
                (vroot(v, self.files) and v.op in ('init', 'hv', 'ins', 'del', 'cv') or ('copy', l) in st.mon[2])}

    def judge_old(self, eng, st, E, C, done, ev):
        K, D = mk_proj(E, 'first'), mk_proj(E, 'second')
        push = [d for d in done if d[0] == 'push']
        drop = [d[2] for d in done if d[0] == 'erase' and d[1] is self.files]
        at = push[0][3] if push else ev.where()
        how = st.path(7)
        if len(push) > 1:
            self.say(st, 'twice', 'one entry that is gone is put into %s and %s at %s: %s' % (push[0][1], push[1][1], push[1][3], how))
        elif push:
            L, v = push[0][1], push[0][2]
            self.n['deleted'] += 1
            d = eng.truth(st, mk('isdir', D))
            if not L.endswith('Deleted'):
                self.say(st, 'gone', 'an entry that is gone is put into %s at %s: %s' % (L, at, how))
            elif d is not L.startswith('Dirs'):
                self.say(st, 'kind', 'an entry that %s is put into %s at %s: %s' % ('was a directory' if d else 'was no directory' if d is False else 'was not looked at', L, at, how))
            elif v is not D:
                self.say(st, 'value', '%s gets %s instead of the entry that is gone at %s' % (L, show(v)[:120], at))
            elif ('copy', C) not in st.mon[2] and self.listed(st, K) is not False and self.here(st) is not False:
                self.say(st, 'present', 'an entry of the snapshot is reported as deleted at %s without knowing that it is gone: %s' % (at, how))
            elif not any(x is K for x in drop):
                return frozenset({('stays', at)})
        else:
            self.n['kept'] += 1
            if self.listed(st, K) is not True and not any(f.op == 'exists' and v and contains(f, D) for f, v in st.facts.items()):
                self.say(st, 'undeleted', 'an entry that is gone is put into no list ( %s ): %s' % (ev.where(), how))
            elif drop:
                self.say(st, 'undeleted', 'an entry is removed from the snapshot without being reported ( %s ): %s' % (ev.where(), how))
        return frozenset()

    def here(self, st):
        """does the directory exist?"""
        for f, v in st.facts.items():
            if f.op == 'exists' and not any(x.op == 'elem' for x in subterms(f)):
                return v
        return None

    def judge_end(self, eng, st, ev):
        fl = st.mon[2]
        self.n['ends'] += 1
        at, how = ev.where(), st.path(6)
        if self.here(st) is not False and 'all new' not in fl:
            self.say(st, 'end', '%s returns at %s without having looked at every entry of the directory: %s' % (self.fn.q, at, how))
        elif 'all old' not in fl:
            self.say(st, 'end', '%s returns at %s without having looked for deletions among all the entries of the snapshot: %s' % (self.fn.q, at, how))
        stays = flags_of(fl, 'stays')
        if stays and 'cleared' not in fl and 'replaced' not in fl:
            self.say(st, 'stays', 'an entry reported as deleted at %s stays in the snapshot: it is reported as deleted by every poll: %s' % (stays[0][1], how))
        v = eng.value(st, self.info)
        if v.op != 'fi' and not any(f.op == 'same' and w and any(a.op == 'fi' for a in f.a) for f, w in st.facts.items()):
            self.say(st, 'info', '%s returns at %s without keeping what it found out about the directory itself: the same change is found again by the next poll: %s' % (self.fn.q, at, how))


class Changed(Monitor):
    init = ()


def c15_scan(p, r):
    fns = [f for f in p.fns.values() if f.cls == SNAPSHOT and DIFF.split('::')[-1] in f.ret.get('s', '') and not f.params]
    if len(fns) != 1:
        raise AnalysisError('%d functions compare a directory with its snapshot' % len(fns))
    m = Scan(p, fns[0], r.bad, r.note)
    eng = Engine(p, m, backend='efsw::FileWatcherGeneric')
    eng.enter(fns[0])
    n = m.n
    for k, least in (('same', 1), ('modified', 2), ('replaced', 2), ('created', 2), ('moved', 2), ('ignored', 1), ('passed over', 2), ('deleted', 4), ('kept', 1), ('ends', 3)):
        r.need('entries ' + k if k != 'ends' else k, n[k], least)
    r.ok(sum(n.values()), '%s: %s' % (fns[0].q, n))
    return m


def c15_changed(p, r):
    """the summary that tells whether there is anything to report"""
    lists = diff_fields(p)
    for f in p.fns.values():
        if f.cls != DIFF or f.params or f.ret.get('s') not in ('bool', '_Bool'):
            continue
        eng = Engine(p, Changed(), backend='efsw::FileWatcherGeneric')
        for st, v in eng.enter(f):
            t = eng.truth(st, v) if v is not None else None
            if t is None and v is not None:
                t = False if eng.assume(st, v, False) else True
            if t is None:
                r.note('%s: result not decided' % f.q)
                continue
            if t is False:
                full = [lists[q] for q in lists if eng.truth(st, mk_vempty(mk('init', mk_fld(mk_obj(THIS), q)))) is not True and
                        not (v.op not in BOOLOPS and contains(v, mk_fld(mk_obj(THIS), q)) or v.op in ('not', 'lt', 'eq') and v.a[0].op != 'vempty' and contains(v, mk_fld(mk_obj(THIS), q)))]
                if full:
                    r.bad('changed', '%s can answer that nothing changed without looking at %s: %s' % (f.q, ', '.join(full), st.path(8)))
            r.ok(1)


@rule('C15', 'the function that compares a directory with its snapshot is followed along every path, one round of its loops at a time: for an entry of the new '
      'listing every combination of "known before", "same attributes", "kind" and "same file under an old name" has to lead to its one list, with the '
      'snapshot updated; for an entry of the old snapshot its absence has to lead to one report of its deletion',
      ['A directory listing holds every name once', 'Entries with the same inode number are the same file'],
      'typestate over the per-entry classification, loop rounds summarised by widening')
def c15(p, tier):
    r = Result()
    r.part(c15_scan, p, r)
    r.part(c15_changed, p, r)
    r.part(leaves, p, r, 'compare', 'inode', 'isdir', 'isreg', 'info', 'listing')
    return r
