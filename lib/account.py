"""Accounting of log sources: what happens to every source of a target, from listing to report or terminal.

The automaton state is a frozenset of facts:
  ('root', G)              the listing of the target
  ('grp', g) / ('src', s)  the group / source in hand
  ('noidx', name)          no index matches the name; ('idx', name, index)
  ('opened', s) / ('openerr', s, e) / ('proc', s, index) / ('end', s) / ('ierr', s, e)
  ('item', s, a)           an anomaly not kept yet; ('kept', s, bag)
  ('push', bag, kind)      kinds: 'err' (source and error), 'log', 'noidx'
  ('errdone', s, bag) ('logged', s, bag) ('ixdone', g, bag)
  ('srcsdone', g) ('grpsdone',) ('linesum', s) ('anomsum', s)
Bags are vectors named by their allocation site."""
from common import *

LIST = rx(r'(^|::)Content::(group_sources|get_sources)$')
OPEN = rx(r'(^|::)Source::(file_open|url_open)$')
PROC = rx(r'(^|::)ChunkProcessor::new$')
LOOK = rx(r'(^|::)(Model::get_index|lookup_or_single)$')
NAME = rx(r'(^|::)IndexName::from_source$')
PRINT = rx(r'^std::io::(stdio::)?_e?print$')
EVENTS = lambda n: LIST(n) or OPEN(n) or PROC(n) or LOOK(n) or NAME(n) or PRINT(n)
BAGT = ('AnomalyContext', 'LogReport', 'Source')

def strip_iter(e, st, v):
    """The collection an iterator walks in full (and in whatever order), or None."""
    for _ in range(12):
        v = e.content(st, v)
        if v.k == 'adt' and v.a[0] in ('it:seq', 'it:sorted', 'it:fuse', 'it:rev', 'it:peekable', 'it:cloned', 'it:copied'):
            v = v.a[2]
        elif v.k == 'call' and v.a[0] in ('perm', 'std::collections::HashMap::drain', 'std::vec::Vec::drain', 'std::collections::BTreeMap::into_iter'):
            v = v.a[1]
        else:
            return v
    return v

def helpers(p):
    """Functions that handle processors, anomalies or report entries: always analysed in place."""
    out = []
    for k in p.ws_fns():
        f = p.fns[k]
        if f['crate'] not in ('logreduce_model', 'logreduce_cli') or '::process::' in f['npath'] or f['npath'].startswith('<') or f.get('trait'):
            continue
        if any(any(t in f['locals'][i + 1][0] for t in ('ChunkProcessor', 'AnomalyContext', 'LogReport')) for i in range(f['argc'])):
            out.append(k)
    return out

class Acct(Client):
    live = False
    def __init__(self, ctx, prog, root):
        self.ctx, self.p, self.root = ctx, prog, root
        self.bad = {}
        A = prog.adts
        self.LR = next((k for k in A if k.endswith('::LogReport')), None)
        self.RP = next((k for k in A if k.endswith('logreduce_model::Report')), None)
        self.CP = next((k for k in A if k.endswith('::ChunkProcessor')), None)
    def fidx(self, adt, name):
        fs = self.p.adts[adt]['variants'][0]
        fs = fs.get('f') or fs.get('fields')
        for i, x in enumerate(fs):
            if x[0] == name:
                return i
        return None
    def field(self, v, adt, name):
        i = self.fidx(adt, name)
        return None if i is None else getproj(v, ('f', 0, i))
    def init(self):
        return frozenset()
    def say(self, key, msg):
        self.bad.setdefault(key, '%s: %s' % (self.p.display(self.root), msg))
    # ---- automaton helpers
    def get(self, st, kind):
        return [x for x in st.auto if x[0] == kind]
    def add(self, st, *x):
        st.auto = st.auto | {x}
    def rm(self, st, f):
        st.auto = frozenset(x for x in st.auto if not f(x))
    def cur(self, st, kind):
        xs = self.get(st, kind)
        return xs[0][1] if xs else None
    # ---- calls
    def on_call(self, e, st, c):
        n, d = c.name, c.decl
        last = d.rsplit('::', 1)[-1]
        if LIST(n):
            s2 = st.copy()
            G = e.fresh(st, c.site, 'listing')
            self.ctx.count('listings')
            self.add(st, 'root', G, n.rsplit('::', 1)[-1])
            self.add(s2, 'listfailed')
            self.listed(e, st, c)
            return [(st, ok(G)), (s2, err(e.fresh(s2, c.site, 'listerr')))]
        if NAME(n):
            return [(st, mk('call', 'nameof', e.snap(st, c.args[0])))]
        if LOOK(n):
            nm = e.snap(st, c.args[1])
            ix = mk('call', 'index', nm)
            if ('idx', nm) in st.auto:
                return [(st, some(ix))]
            if ('noidx', nm) in st.auto:
                return [(st, NONE)]
            s2 = st.copy()
            self.add(st, 'idx', nm)
            self.add(s2, 'noidx', nm)
            return [(st, some(ix)), (s2, NONE)]
        if OPEN(n):
            a = set()
            for x in c.args:
                a |= subterms(e.snap(st, x))
            s = self.cur(st, 'src')
            if s is None or s not in a:
                self.say('open-other', '%s opens something that is not the source in hand' % where(self.p, c.fnkey, c.block))
                return None
            self.ctx.count('open_sites')
            s2 = st.copy()
            self.add(st, 'opened', s)
            ev = e.fresh(s2, c.site, 'openerr')
            self.add(s2, 'openerr', s, ev)
            return [(st, ok(mk('call', 'reader', s))), (s2, err(ev))]
        if d == 'std::iter::Iterator::next' and c.args and c.args[0].k == 'ref':
            w = e.content(st, c.args[0])
            if w.k == 'call' and w.a[0] == 'proc':
                loc = c.args[0].a[0]
                while e.read(st, loc).k == 'ref':
                    loc = e.read(st, loc).a[0]
                return self.next_items(e, st, loc, w, c.site)
        if PROC(n):
            rd = e.snap(st, c.args[0])
            s = rd.a[1] if rd.k == 'call' and rd.a[0] == 'reader' else None
            if s is None or s is not self.cur(st, 'src'):
                self.say('proc-other', '%s inspects something that is not the content of the source in hand' % where(self.p, c.fnkey, c.block))
                return None
            self.rm(st, lambda x: x[0] in ('opened', 'end'))
            v = mk('call', 'proc', s, S('new'))
            self.add(st, 'proc', s, e.snap(st, c.args[1]))
            self.proc(e, st, c, s)
            return [(st, v)]
        if (n in ('std::vec::Vec::new', 'std::vec::Vec::with_capacity') or d == 'std::default::Default::default') and c.fn['targs'] and any(t in c.fn['targs'][0] for t in BAGT):
            if d.endswith('default') and not c.fn['targs'][0].startswith('std::vec::Vec<'):
                return None
            b = mk('call', 'bag', S(repr(c.site)))
            self.rm(st, lambda x: x[0] in ('kept', 'push') and b in x)
            for k in [k for k in st.facts if b in subterms(k)]:
                del st.facts[k]
            st.facts[E.simp_op('Eq', mk('call', 'len', b), E.I(0))] = TRUE
            return [(st, b)]
        if n in ('std::vec::Vec::push',) or n in ('std::vec::Vec::extend', 'std::vec::Vec::append', 'std::vec::Vec::insert') or d == 'std::iter::Extend::extend':
            b = e.content(st, c.args[0])
            if b.k == 'call' and b.a[0] == 'bag':
                if last in ('push', 'insert'):
                    v = e.snap(st, c.args[-1])
                    st.facts.pop(E.simp_op('Eq', mk('call', 'len', b), E.I(0)), None)
                    st.facts[E.simp_op('Eq', mk('call', 'len', b), E.I(0))] = FALSE
                    self.pushed(e, st, c, b, v)
                    return [(st, E.UNIT)]
                # a bulk move between bags
                v = e.content(st, c.args[1])
                src = strip_iter(e, st, v)
                if src.k == 'call' and src.a[0] == 'bag':
                    for x in list(st.auto):
                        if src in x:
                            self.rm(st, lambda y: y is x)
                            self.add(st, *[b if z is src else z for z in x])
                    st.facts.pop(E.simp_op('Eq', mk('call', 'len', b), E.I(0)), None)
                    return [(st, E.UNIT)]
        if d.startswith('itertools::Itertools::sorted') or d in ('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter'):
            src = strip_iter(e, st, c.args[0])
            if self.tracked(e, st, src):
                if 'Itertools' in d:
                    return [(st, mk('adt', 'it:seq', 0, mk('call', 'perm', src), S('val'), E.I(0)))]
                return [(st, mk('call', 'perm', src))]
        if d.rsplit('::', 1)[-1] in ('sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key'):
            b = e.content(st, c.args[0])
            if self.tracked(e, st, b) or b.k == 'call' and b.a[0] in ('bag', 'perm'):
                return [(st, E.UNIT)]
        if PRINT(n):
            self.printed(e, st, c, e.snap(st, c.args[0]))
            return [(st, E.UNIT)]
        return None
    def tracked(self, e, st, t):
        r = self.get(st, 'root')
        if any(t is x[1] for x in r):
            return True
        g = self.cur(st, 'grp')
        return g is not None and t is getproj(g, ('f', 0, 1))
    # ---- iteration
    def on_next(self, e, st, it, val, site):
        src = strip_iter(e, st, it)
        g = self.cur(st, 'grp')
        for x in self.get(st, 'root'):
            if src is x[1]:
                flat = x[2] == 'get_sources'
                if flat:
                    self.end_source(e, st)
                    if val is NONE:
                        self.add(st, 'grpsdone')
                    else:
                        self.ctx.count('source_visits')
                        self.add(st, 'src', self.item(e, st, val))
                else:
                    self.end_source(e, st)
                    self.end_group(e, st)
                    if val is NONE:
                        self.add(st, 'grpsdone')
                    else:
                        self.ctx.count('group_visits')
                        self.add(st, 'grp', self.item(e, st, val))
                return
        if g is not None and src is getproj(g, ('f', 0, 1)):
            self.end_source(e, st)
            if val is NONE:
                self.add(st, 'srcsdone', g)
            else:
                self.ctx.count('source_visits')
                self.add(st, 'src', self.item(e, st, val))
    def item(self, e, st, val):
        return e.content(st, val.a[2])
    def next_items(self, e, st, loc, v, site):
        if not (v.k == 'call' and v.a[0] == 'proc'):
            return None
        s = v.a[1]
        mid, done = mk('call', 'proc', s, S('mid')), mk('call', 'proc', s, S('done'))
        self.end_item(e, st, s)
        out = []
        s1 = st.copy()
        self.add(s1, 'end', s)
        e.write(s1, loc, done)
        out.append((s1, NONE))
        s2 = st.copy()
        a = e.fresh(s2, site, 'anomaly')
        e.write(s2, loc, mid)
        self.rm(s2, lambda x: x[0] == 'item')
        self.add(s2, 'item', s, a)
        out.append((s2, some(ok(a))))
        s3 = st.copy()
        er = e.fresh(s3, site, 'readerr')
        e.write(s3, loc, done)
        self.add(s3, 'ierr', s, er)
        out.append((s3, some(err(er))))
        return out
    def join_hint(self, a, b):
        if a.k == 'call' and b.k == 'call' and a.a[0] == 'proc' == b.a[0] and a.a[1] is b.a[1]:
            return mk('call', 'proc', a.a[1], S('any'))
        return None
    # ---- obligations
    def stored(self, e, st, a):
        """a sits in a collection being built."""
        for v in st.store.values():
            for t in subterms(v):
                if t.k in ('coll', 'vpush') and a in subterms(t):
                    return True
        return False
    def end_item(self, e, st, s):
        for x in self.get(st, 'item'):
            if not self.stored(e, st, x[2]):
                self.say('lost-anomaly', 'an anomaly of a source is not kept on some path')
            self.rm(st, lambda y: y is x)
    def end_source(self, e, st):
        s = self.cur(st, 'src')
        if s is not None:
            self.end_item(e, st, s)
            self.finish_source(e, st, s)
        self.rm(st, lambda x: x[0] in ('src', 'opened', 'openerr', 'proc', 'end', 'ierr', 'item', 'kept', 'errdone', 'logged', 'linesum', 'anomsum', 'cnt', 'named'))
        if self.cur(st, 'grp') is None:
            self.rm(st, lambda x: x[0] in ('idx', 'noidx'))
    def end_group(self, e, st):
        g = self.cur(st, 'grp')
        if g is not None:
            self.finish_group(e, st, g)
        self.rm(st, lambda x: x[0] in ('grp', 'srcsdone', 'ixdone', 'idx', 'noidx'))
    # ---- overridables
    def listed(self, e, st, c): pass
    def proc(self, e, st, c, s): pass
    def pushed(self, e, st, c, b, v): pass
    def printed(self, e, st, c, v): pass
    def finish_source(self, e, st, s): pass
    def finish_group(self, e, st, g): pass

from engine import S

class ReportAcct(Acct):
    """Model::report"""
    def pushed(self, e, st, c, b, v):
        s, g = self.cur(st, 'src'), self.cur(st, 'grp')
        sub = subterms(v)
        for x in self.get(st, 'item'):
            if x[2] in sub:
                self.rm(st, lambda y: y is x)
                self.add(st, 'kept', x[1], b)
                return
        if v.k == 'adt' and v.a[0] == self.LR:
            an = self.field(v, self.LR, 'anomalies')
            self.add(st, 'push', b, 'log')
            if s is not None and self.field(v, self.LR, 'source') is s:
                ok_ = any(x[0] == 'kept' and x[2] is an for x in st.auto) and all(x[2] is an for x in self.get(st, 'kept'))
                if ok_ or an.k == 'coll':
                    self.add(st, 'logged', s, b)
                else:
                    self.say('log-anomalies', '%s: the log report of a source does not hold the anomalies found in it' % where(self.p, c.fnkey, c.block))
                self.logged(e, st, c, s, g, v, an)
            else:
                self.say('log-source', '%s: a log report is attributed to another source than the one inspected' % where(self.p, c.fnkey, c.block))
            return
        errs = [x for x in st.auto if x[0] in ('ierr', 'openerr') and x[2] in sub]
        if errs and s is not None and s in sub:
            self.add(st, 'push', b, 'err')
            self.add(st, 'errdone', s, b)
            return
        if g is not None and getproj(g, ('f', 0, 1)) in sub:
            nm = getproj(g, ('f', 0, 0))
            self.add(st, 'push', b, 'noidx')
            if any(x[0] == 'noidx' and x[1] is nm for x in st.auto):
                self.add(st, 'ixdone', g, b)
            else:
                self.say('index-error', '%s: sources are reported as having no index although the lookup did not fail' % where(self.p, c.fnkey, c.block))
    def logged(self, e, st, c, s, g, v, an): pass
    def finish_source(self, e, st, s):
        a = st.auto
        has = lambda k: any(x[0] == k for x in a)
        self.ctx.count('source_outcomes')
        if (has('ierr') or has('openerr')) and not has('errdone'):
            self.say('lost-error', 'a source that cannot be %s is not recorded in the read errors' % ('opened' if has('openerr') else 'read to its end'))
        if not has('ierr') and not has('openerr') and not has('end'):
            self.say('not-inspected', 'a source is left without being inspected to its end nor recorded as unreadable')
        if has('kept') and not has('logged'):
            self.say('not-logged', 'the anomalies of a source do not reach the report%s' % (' when the source fails later on' if has('ierr') else ''))
    def finish_group(self, e, st, g):
        a = st.auto
        if not any(x[0] in ('srcsdone', 'ixdone') for x in a):
            self.say('group', 'the sources of a group are left out: neither all inspected nor reported as having no index')
    def at_return(self, e, st, v):
        if v.k == 'adt' and v.a[0] == RES and v.a[1] == 1:
            self.ctx.count('return_paths')
            if not any(x[0] == 'listfailed' for x in st.auto):
                self.say('aborted', 'the report is aborted by something else than a failure to list the sources')
            return None
        if not (v.k == 'adt' and v.a[0] == RES and v.a[1] == 0 and v.a[2].k == 'adt' and v.a[2].a[0] == self.RP):
            self.say('return', 'the returned report cannot be recognised: %s' % str(v)[:200])
            return None
        self.ctx.count('return_paths')
        r = v.a[2]
        if not any(x[0] == 'grpsdone' for x in st.auto):
            self.say('groups', 'a report is returned before all the groups of sources were visited')
        for f, kind in (('read_errors', 'err'), ('log_reports', 'log'), ('index_errors', 'noidx')):
            b = self.field(r, self.RP, f)
            if b is None:
                self.say('field:' + f, 'Report has no field %s' % f)
                continue
            for x in self.get(st, 'push'):
                if (x[2] == kind) != (x[1] is b):
                    self.say('field:' + f, 'what is recorded (%s) does not end up in the matching field of the report (%s)' % (x[2], f))
        return r

class LiveAcct(Acct):
    """The terminal output: everything is discharged by printing it."""
    def printed(self, e, st, c, v):
        sub = subterms(v)
        for x in list(st.auto):
            if x[0] == 'item' and any(x[2] in subterms(t) for t in [v]) and any(t.k == 'fld' and t.a[0] is x[2] or t is x[2] or t.k == 'fld' and x[2] in subterms(t) for t in sub):
                self.line(e, st, c, x, v)
            if x[0] in ('ierr', 'openerr') and x[2] in sub and x[1] in sub:
                self.add(st, 'errdone', x[1])
            if x[0] == 'noidx' and self.cur(st, 'src') in sub:
                self.add(st, 'ixdone', x[1])
    def line(self, e, st, c, x, v):
        AC = next((k for k in self.p.adts if k.endswith('::AnomalyContext')), None)
        AN = next((k for k in self.p.adts if k.endswith('logreduce_model::Anomaly')), None)
        an = self.field(x[2], AC, 'anomaly')
        need = [self.field(an, AN, f) for f in ('line', 'pos')]
        if all(t in subterms(v) for t in need):
            self.rm(st, lambda y: y is x)
            self.add(st, 'kept', x[1])
    def end_item(self, e, st, s):
        for x in self.get(st, 'item'):
            self.say('lost-anomaly', 'an anomaly (its line and position) is not printed on some path')
            self.rm(st, lambda y: y is x)
    def finish_source(self, e, st, s):
        has = lambda k: any(x[0] == k for x in st.auto)
        self.ctx.count('source_outcomes')
        if (has('ierr') or has('openerr')) and not has('errdone'):
            self.say('lost-error', 'a source that cannot be %s is not mentioned' % ('opened' if has('openerr') else 'read to its end'))
        if has('noidx') and not has('idx'):
            if not has('ixdone'):
                self.say('noindex', 'a source without index is not mentioned')
        elif not has('ierr') and not has('openerr') and not has('end'):
            self.say('not-inspected', 'a source is left without being inspected to its end nor mentioned as unreadable')
    def end_source(self, e, st):
        super().end_source(e, st)
        self.rm(st, lambda x: x[0] in ('ixdone',))
    def at_return(self, e, st, v):
        self.ctx.count('return_paths')
        if v.k == 'adt' and v.a[0] == RES and v.a[1] == 1:
            if not any(x[0] == 'listfailed' for x in st.auto):
                self.say('aborted', 'the inspection is aborted by something else than a failure to list the sources')
            return
        if not any(x[0] == 'grpsdone' for x in st.auto):
            self.say('groups', 'the inspection ends before all the sources were visited')
