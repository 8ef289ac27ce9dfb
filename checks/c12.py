"""Training covers every line of every baseline source."""
from lines import *

OPEN = rx(r'(^|::)Source::(file_open|url_open)$')
TRAIN = rx(r'(^|::)Index::train$')
TNEW = rx(r'(^|::)ChunkTrainer::new$')
TADD = rx(r'(^|::)ChunkTrainer::add$')
TDONE = rx(r'(^|::)ChunkTrainer::complete$')
GROUP = rx(r'(^|::)Content::group_sources$')

class Train(Lines):
    per_line = ('inserted',)
    def __init__(self, ctx, prog, root):
        Lines.__init__(self, ctx, prog, root)
        self.bags = set()
    def boundary(self, e, st, at, ret=False):
        L = self.line(st)
        for x in self.get(st, 'failed'):
            if not ret:
                self.say('failed:' + x[1], '%s goes on after a line that could not be %s: the rest is indexed as if it were complete' % (at, 'read' if x[1] == 'read' else 'decoded'), st)
        for x in self.get(st, 'owed'):
            self.say('owed', '%s: lines taken out of the pending chunk were not added to the index' % at, st)
        if L is None or self.get(st, 'failed'):
            return
        self.ctx.count('lines_judged')
        if ('seen',) not in st.auto and not self.get(st, 'pushed'):
            self.say('lost', '%s: a line that was not seen before is not added to the pending chunk' % at, st)
        kinds = {(x[1], x[2]) for x in self.get(st, 'inc')}
        for nm, kd in (('line_count', 'one'), ('byte_count', 'bytes')):
            if (fieldpath(self.p, '::ChunkTrainer', nm), kd) not in kinds:
                self.say('count:' + nm, '%s: %s does not count the line' % (at, nm), st)
    def vec(self, e, st, c, last):
        if not c.args or c.args[0].k != 'ref' and last not in ('push',):
            pass
        loc = self.locof(e, st, c.args[0])
        p = self.path(loc)
        L = self.line(st)
        if last == 'push':
            v = e.snap(st, c.args[1])
            if L is not None and v is mk('call', 'tokens', mk('call', 'text', mk('fld', L, 0, 0))):
                if p is None:
                    self.say('place', '%s keeps the line in a place that does not survive' % where(self.p, c.fnkey, c.block), st)
                    return None
                self.bags.add(p)
                self.add(st, 'pushed', p)
                self.add(st, 'dirty', p)
            return None
        if p is not None and ('dirty', p) in st.auto:
            if last in ('take', 'replace'):
                v = e.snap(st, e.read(st, loc))
                self.add(st, 'owed', v)
                st.auto = st.auto - {('dirty', p)}
                return None
            self.say('discard', '%s discards lines of the pending chunk that were not added to the index' % where(self.p, c.fnkey, c.block), st)
        return None
    def more(self, e, st, c, n, d, last):
        if ADD(n):
            v = e.snap(st, c.args[1])
            self.ctx.count('index_adds')
            for x in self.get(st, 'dirty'):
                cur = e.snap(st, e.read(st, self.at(x[1])))
                if cur is v:
                    st.auto = st.auto - {x}
            for x in self.get(st, 'owed'):
                if x[1] is v:
                    st.auto = st.auto - {x}
            return [(st, E.UNIT)]
        return None
    def on_write(self, e, st, loc, val, fnkey, block):
        p = self.path(loc)
        if p is not None and ('dirty', p) in st.auto:
            self.say('discard', '%s overwrites lines of the pending chunk that were not added to the index' % where(self.p, fnkey, block), st)
        Lines.on_write(self, e, st, loc, val, fnkey, block)

def run(ctx):
    ctx.rule('Rule: in ChunkTrainer::add every line delivered by the reader is counted once, tokenized, and pushed on the pending chunk unless the lookup of its tokens found it; a reading or decoding failure is '
             'returned; pending lines leave the chunk only through ChunkIndex::add. ChunkTrainer::complete adds whatever is pending. Whoever creates a trainer completes it after the last add. Index::train opens and adds '
             'every source it is given, fails if one cannot be opened, and Model::train stores the index of each group of sources under the name of that group (obligation automata over MIR paths).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    ka = [k for k in p.find('process::ChunkTrainer::add') if p.fns[k]['kind'] != 'closure']
    kc = [k for k in p.find('process::ChunkTrainer::complete') if p.fns[k]['kind'] != 'closure']
    kt = [k for k in p.find('logreduce_model::Index::train') if p.fns[k]['kind'] != 'closure']
    km = [k for k in p.find('logreduce_model::Model::train') if p.fns[k]['kind'] != 'closure']
    if not ctx.need(len(ka) == 1 and len(kc) == 1, 'ChunkTrainer::add and complete') or not ctx.need(len(kt) == 1 and len(km) == 1, 'Index::train and Model::train'):
        return
    bad = {}
    # -- add
    cl = Train(ctx, p, ka[0])
    e, outs = sim.run(ka[0], cl, interest=EVENTS, also=proc_fns(p))
    for st, v in outs:
        r = e.content(st, v)
        if E.is_err(r):
            continue
        cl.boundary(e, st, 'the end', ret=True)
        for x in cl.get(st, 'failed'):
            if not E.is_err(r):
                cl.say('swallow:' + x[1], 'returns %s although a line could not be %s' % (r, 'read' if x[1] == 'read' else 'decoded'), st)
        if ('end',) not in st.auto:
            cl.say('early', 'returns before the end of the source', st)
    ctx.floor('lines_judged', 2)
    bad.update(cl.bad)
    bags = cl.bags
    ctx.need(len(bags) == 1, 'the pending chunk of ChunkTrainer')
    # -- complete
    for b in bags:
        cl = Train(ctx, p, kc[0])
        cl.init = lambda b=b: frozenset({('dirty', b)})
        e, outs = sim.run(kc[0], cl, interest=EVENTS, also=proc_fns(p))
        for st, v in outs:
            cur = e.snap(st, e.read(st, cl.at(b)))
            empty = cur.k == 'empty' or e.known(st, E.simp_op('Eq', e.length(st, cur), E.I(0))) is TRUE
            if cl.get(st, 'owed'):
                cl.say('complete', 'returns without adding the pending lines to the index', st)
            if ('dirty', b) in st.auto and not empty:
                cl.say('complete', 'returns without adding the pending lines to the index', st)
            ctx.count('complete_paths')
        bad.update({'c:' + k: v for k, v in cl.bad.items()})
    # -- users of the trainer
    class Use(Client):
        def __init__(self, root):
            self.root, self.bad = root, {}
        def init(self):
            return frozenset()
        def on_call(self, e, st, c):
            n = c.name
            if TNEW(n):
                return [(st, mk('call', 'trainer', e.snap(st, c.args[0])))]
            if TADD(n):
                st.auto = st.auto | {'open'}
                self.added(e, st, c, e.snap(st, c.args[1]))
                s2 = st.copy()
                return [(st, ok(E.UNIT)), (s2, err(e.fresh(s2, c.site, 'add')))]
            if TDONE(n):
                st.auto = st.auto - {'open'} | {'done'}
                return [(st, E.UNIT)]
            return self.other(e, st, c)
        def added(self, e, st, c, r):
            pass
        def other(self, e, st, c):
            return None
    users = [k for k in direct_callers(p, TNEW) if k not in kt]
    for k in users:
        cl = Use(k)
        e, outs = sim.run(k, cl, interest=lambda n: TNEW(n) or TADD(n) or TDONE(n))
        for st, v in outs:
            if 'open' in st.auto and not E.is_err(e.content(st, v)):
                bad['open:' + p.display(k)] = '%s ends successfully without completing the trainer: the last lines are not in the index\n%s' % (p.display(k), st.trail())
    ctx.cov['trainer_users'] = len(users) + 1
    # -- Index::train
    src = param(kt[0], 0)
    class TI(Use):
        def boundary(self, e, st, at):
            for x in [x for x in st.auto if x[0] == 'src']:
                if ('added', x[1]) not in st.auto:
                    self.bad['skip'] = '%s: a source is not opened and added to the trainer\n%s' % (at, st.trail())
            if any(x[0] == 'openerr' for x in st.auto):
                self.bad['openerr'] = '%s goes on after a source that could not be opened\n%s' % (at, st.trail())
        def next_items(self, e, st, loc, v, site):
            if v.k == 'adt' and v.a[0] == 'it:seq' and e.snap(st, v.a[2]) in (src, mk('deref', src)):
                self.boundary(e, st, p.display(kt[0]))
                st.auto = frozenset(x for x in st.auto if x[0] not in ('src', 'added', 'openerr'))
                s1, s2 = st.copy(), st.copy()
                x = e.fresh(s1, site + ('src',), 'source')
                s1.auto = s1.auto | {('src', x)}
                s2.auto = s2.auto | {('end',)}
                ctx.count('source_visits')
                return [(s2, NONE), (s1, some(x))]
            return None
        def other(self, e, st, c):
            if OPEN(c.name):
                a = set()
                for y in c.args:
                    a |= subterms(e.snap(st, y))
                cur = [x[1] for x in st.auto if x[0] == 'src']
                if not cur or cur[0] not in a:
                    self.bad['other'] = '%s opens something that is not the source in hand\n%s' % (where(p, c.fnkey, c.block), st.trail())
                    return None
                s2 = st.copy()
                s2.auto = s2.auto | {('openerr', cur[0])}
                return [(st, ok(mk('call', 'reader', cur[0]))), (s2, err(e.fresh(s2, c.site, 'io')))]
            return None
        def added(self, e, st, c, r):
            if r.k == 'call' and r.a[0] == 'reader':
                st.auto = st.auto | {('added', r.a[1])}
            else:
                self.bad['reader'] = '%s trains with %s\n%s' % (where(p, c.fnkey, c.block), r, st.trail())
    cl = TI(kt[0])
    e, outs = sim.run(kt[0], cl, interest=lambda n: TNEW(n) or TADD(n) or TDONE(n) or OPEN(n))
    good = 0
    IX = next((k for k in p.adts if k.endswith('logreduce_model::Index')), None)
    fs = [x[0] for x in p.adts[IX]['variants'][0]['f']]
    for st, v in outs:
        r = e.snap(st, v)
        if E.is_err(r):
            continue
        good += 1
        cl.boundary(e, st, 'the end of ' + p.display(kt[0]))
        if ('end',) not in st.auto:
            cl.bad['early'] = '%s: an index is returned before all sources were visited\n%s' % (p.display(kt[0]), st.trail())
        if 'open' in st.auto or 'done' not in st.auto:
            cl.bad['open'] = '%s: an index is returned without completing the trainer: the last lines are not in it\n%s' % (p.display(kt[0]), st.trail())
        if r.k == 'adt' and r.a[2].k == 'adt' and r.a[2].a[0] == IX:
            ss = r.a[2].a[2 + fs.index('sources')]
            if e.content(st, ss) not in (src, mk('deref', src)):
                cl.bad['sources'] = '%s: the sources recorded in the index are %s\n%s' % (p.display(kt[0]), ss, st.trail())
        else:
            cl.bad['shape'] = '%s returns %s' % (p.display(kt[0]), r)
    ctx.need(good, 'a successful path of Index::train')
    ctx.floor('source_visits', 1)
    bad.update({'i:' + k: v for k, v in cl.bad.items()})
    # -- Model::train
    class TM(Client):
        bad = {}
        templates = True
        def on_collect(self, e, st, x, site):
            x = e.snap(st, x)
            if x.k == 'adt' and x.a[0] == 'tuple' and len(x.a) == 4:
                for y in [y for y in st.auto if y[0] == 'grp']:
                    if x.a[2] is mk('call', 'name', y[1]) and x.a[3] is mk('call', 'trained', mk('call', 'sources', y[1])):
                        st.auto = st.auto | {('stored', y[1])}
        def init(self):
            return frozenset()
        def boundary(self, e, st, at):
            for x in [x for x in st.auto if x[0] == 'grp']:
                if ('stored', x[1]) not in st.auto:
                    self.bad['m:group'] = '%s: no index is stored for a group of sources\n%s' % (at, st.trail())
        def next_items(self, e, st, loc, v, site):
            w = strip(e, st, v)
            if w.k == 'call' and w.a[0] == 'groups':
                self.boundary(e, st, p.display(km[0]))
                st.auto = frozenset(x for x in st.auto if x[0] not in ('grp', 'stored'))
                s1, s2 = st.copy(), st.copy()
                x = e.fresh(s1, site + ('grp',), 'group')
                s1.auto = s1.auto | {('grp', x)}
                s2.auto = s2.auto | {('end',)}
                ctx.count('group_visits')
                return [(s2, NONE), (s1, some(E.tup(mk('call', 'name', x), mk('call', 'sources', x))))]
            return None
        def on_call(self, e, st, c):
            n = c.name
            if GROUP(n):
                a = e.snap(st, c.args[0])
                if a not in (param(km[0], 1), mk('deref', param(km[0], 1))):
                    self.bad['m:baselines'] = '%s groups the sources of %s instead of the baselines' % (where(p, c.fnkey, c.block), a)
                s2 = st.copy()
                s2.auto = s2.auto | {('fail',)}
                return [(st, ok(mk('call', 'groups', a))), (s2, err(e.fresh(s2, c.site, 'list')))]
            if TRAIN(n):
                s2 = st.copy()
                s2.auto = s2.auto | {('fail',)}
                return [(st, ok(mk('call', 'trained', e.snap(st, c.args[0])))), (s2, err(e.fresh(s2, c.site, 'train')))]
            if n in ('std::collections::HashMap::insert', 'std::collections::BTreeMap::insert') or n.endswith(('VacantEntry::insert', 'Entry::insert_entry')):
                nm, ix = e.snap(st, c.args[1]), e.snap(st, c.args[2]) if len(c.args) > 2 else None
                for x in [x for x in st.auto if x[0] == 'grp']:
                    g = x[1]
                    if ix is mk('call', 'trained', mk('call', 'sources', g)):
                        if nm is mk('call', 'name', g):
                            st.auto = st.auto | {('stored', g)}
                        else:
                            self.bad['m:name'] = '%s stores the index of a group under %s\n%s' % (where(p, c.fnkey, c.block), nm, st.trail())
            return None
    def strip(e, st, v):
        for _ in range(10):
            v = e.content(st, v)
            if v.k == 'adt' and v.a[0] in ('it:seq', 'it:sorted', 'it:fuse', 'it:rev', 'it:peekable'):
                v = v.a[2]
            elif v.k == 'call' and v.a[0].rsplit('::', 1)[-1] in ('drain', 'into_iter', 'perm'):
                v = v.a[1]
            else:
                break
        return v
    cl = TM()
    cl.bad = {}
    # an iterator pipeline collected into the map
    cl.collected = []
    e, outs = sim.run(km[0], cl, interest=lambda n: GROUP(n) or TRAIN(n))
    MD = next((k for k in p.adts if k.endswith('logreduce_model::Model')), None)
    fm = [x[0] for x in p.adts[MD]['variants'][0]['f']]
    good = 0
    for st, v in outs:
        r = e.snap(st, v)
        if E.is_err(r):
            continue
        good += 1
        if ('fail',) in st.auto:
            cl.bad['m:fail'] = '%s succeeds although listing or training failed\n%s' % (p.display(km[0]), st.trail())
        ix = r.a[2].a[2 + fm.index('indexes')] if r.k == 'adt' and r.a[2].k == 'adt' else None
        if ix is not None and ix.k in ('coll',):
            t = ix.a[1]
            if not (t.k == 'adt' and t.a[0] == 'tuple' and t.a[2].k == 'call' and t.a[2].a[0] == 'name' and t.a[3] is mk('call', 'trained', mk('call', 'sources', t.a[2].a[1]))):
                cl.bad['m:group'] = '%s: the indexes are %s\n%s' % (p.display(km[0]), ix, st.trail())
        elif ix is not None and ix.k != 'empty':
            cl.boundary(e, st, 'the end of ' + p.display(km[0]))
        if ('end',) not in st.auto:
            cl.bad['m:early'] = '%s: a model is returned before all groups were visited\n%s' % (p.display(km[0]), st.trail())
        if r.k == 'adt' and r.a[2].k == 'adt' and r.a[2].a[2 + fm.index('baselines')] is not param(km[0], 1):
            cl.bad['m:rec'] = '%s: the baselines recorded in the model are %s' % (p.display(km[0]), r.a[2].a[2 + fm.index('baselines')])
    ctx.need(good, 'a successful path of Model::train')
    ctx.floor('group_visits', 1)
    bad.update(cl.bad)
    for k, m in bad.items():
        ctx.viol(k, m)
