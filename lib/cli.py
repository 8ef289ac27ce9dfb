"""Typestate of one run of the command line program (C23, C24), rooted at its main function.

auto = frozenset of
  ('cmd', variant) ('model', 0|1) ('report', 0|1)   what the user gave
  ('exists', bool)                                   does the model file exist?
  ('failed', what)                                   a step failed
  ('loaded',) ('trained', 'given'|'discovered') ('saved',) ('computed',) ('rendered',) ('written',) ('listed',)
  ('item', x) ('made', x)                            the baseline in hand; a content was made of it and kept"""
from common import *
from engine import some, NONE, UNIT
import engine as E

PARSE = rx(r'(^|::)Parser::(parse|parse_from|try_parse)$', r'(^|::)Cli::parse$')
LOAD = rx(r'(^|::)Model::load$')
TRAIN = rx(r'(^|::)Model::train$')
SAVE = rx(r'(^|::)Model::save$')
INPUT = rx(r'(^|::)Content::from_input$')
FSTR = rx(r'(^|::)Input::from_string$')
DISC = rx(r'(^|::)Content::discover_baselines$')
REPORT = rx(r'(^|::)Model::report$')
RSAVE = rx(r'(^|::)Report::save$')
RENDER = rx(r'^logreduce_report::render$')
WRITE = rx(r'^std::fs::write$')
CREATE = rx(r'^std::fs::File::create', r'^std::fs::OpenOptions::open$')
GETS = rx(r'(^|::)Content::get_sources$')
GROUPS = rx(r'(^|::)Content::group_sources$')
PROC = rx(r'(^|::)Index::(get_processor|inspect)$')
GETI = rx(r'(^|::)Model::get_index$')
TEST = rx(r'(^|::)dataset::test_datasets$', r'(^|::)test_datasets$')
OPEN = rx(r'(^|::)Source::(file_open|url_open)$')
LINES = rx(r'(^|::)BytesLines::new$')
TOKP = rx(r'^logreduce_tokenizer::process$', r'(^|::)IndexName::from_(path|source)$')
EXIST = rx(r'^std::path::Path::(exists|is_file|try_exists|metadata)$', r'^std::fs::(exists|metadata)$')
EXIT = rx(r'^std::process::(exit|abort)$')
DEL = rx(r'^std::fs::(remove_file|rename|remove_dir_all|copy)$')
EV = [PARSE, LOAD, TRAIN, SAVE, INPUT, FSTR, DISC, REPORT, RSAVE, RENDER, WRITE, CREATE, GETS, GROUPS, PROC, GETI, TEST, EXIST, EXIT, DEL, OPEN, LINES, TOKP]
EVENT = lambda n: any(x(n) for x in EV)
PASS = ('as_path', 'as_ref', 'deref', 'to_path_buf', 'clone', 'borrow', 'into', 'as_deref', 'as_os_str')
B = lambda x: TRUE if x else FALSE

def core(t):
    while t.k == 'deref' or t.k == 'call' and len(t.a) == 2 and t.a[0] in PASS:
        t = t.a[0] if t.k == 'deref' else t.a[1]
    return t

class Cli(Client):
    templates = True
    merge_rets = False
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog()
        self.bad = {}
        self.cli = mk('call', 'cli', E.I(0))
        adt = [k for k in self.p.adts if k.endswith('logreduce_cli::Cli')]
        cmd = [k for k in self.p.adts if k.endswith('logreduce_cli::Commands')]
        self.ok = ctx.need(len(adt) == 1 and len(cmd) == 1, 'the Cli and Commands types of the command line')
        if not self.ok:
            return
        fs = [f[0] for f in self.p.adts[adt[0]]['variants'][0]['f']]
        self.ok = ctx.need({'report', 'model', 'command'} <= set(fs), 'the fields report, model and command of Cli')
        if not self.ok:
            return
        fld = lambda n: getproj(self.cli, ('f', 0, fs.index(n)))
        self.opt = {'report': fld('report'), 'model': fld('model')}
        self.cmd = fld('command')
        self.vars = {}
        self.names = {}
        self.fields = {}
        for i, v in enumerate(self.p.adts[cmd[0]]['variants']):
            self.names[i] = v['n']
            for j, f in enumerate(v['f']):
                self.fields[v['n'], f[0]] = getproj(self.cmd, ('f', i, j))
        self.ok = ctx.need({('Path', 'path'), ('Url', 'url'), ('Diff', 'src'), ('Diff', 'dst'), ('Train', 'baselines')} <= set(self.fields), 'the commands path, url, diff and train')
        self.path = {k: getproj(v, ('f', 1, 0)) for k, v in self.opt.items()}
    def init(self):
        return frozenset()
    def say(self, k, m, st):
        self.bad.setdefault(k, m + '\n' + st.trail())
    def add(self, st, *x):
        st.auto = st.auto | {x}
    def one(self, st, k):
        x = [y[1] for y in st.auto if y[0] == k]
        return x[0] if len(x) == 1 else None
    def has(self, st, *x):
        return x in st.auto
    def fails(self, e, st, c, what):
        s = st.copy()
        self.add(s, 'failed', what)
        return s, err(e.fresh(s, c.site, 'err'))
    def command(self, st):
        i = self.one(st, 'cmd')
        return None if i is None else self.names.get(i)
    def on_branch(self, e, st, term, val):
        if term.k == 'discr':
            t = core(term.a[0])
            if t is self.cmd and val.k == 'i':
                self.add(st, 'cmd', val.a[0])
            for k, v in self.opt.items():
                if t is v and val.k == 'i':
                    self.add(st, k, val.a[0])
    # ---- baselines in hand
    def boundary(self, st):
        for x in [y[1] for y in st.auto if y[0] == 'item']:
            if not self.has(st, 'made', x):
                self.say('dropped', 'a baseline given on the command line is not used', st)
        st.auto = frozenset(y for y in st.auto if y[0] not in ('item', 'made'))
    def next_items(self, e, st, loc, v, site):
        if not (v.k == 'adt' and v.a[0] == 'it:seq'):
            return None
        w = core(e.snap(st, v.a[2]))
        if w in (self.fields['Diff', 'src'], self.fields['Train', 'baselines']):
            self.boundary(st)
            s1, s2 = st.copy(), st.copy()
            x = mk('call', 'given', e.fresh(s1, site + ('g',), 'given'))
            self.add(s1, 'item', x)
            self.add(s2, 'iend')
            self.ctx.count('baseline_visits')
            return [(s2, NONE), (s1, some(x))]
        if w.k == 'coll' and v.a[3].a[0] == 'val' and any(t.k == 'call' and t.a[0] == 'given' for t in subterms(w.a[1])):
            import models
            self.boundary(st)
            s1, s2 = st.copy(), st.copy()
            y = models.inst(e, s1, w.a[1], site + ('again',))
            self.add(s1, 'item', next(t for t in subterms(y) if t.k == 'call' and t.a[0] == 'given'))
            return [(s2, NONE), (s1, some(y))]
        return None
    def keep(self, e, st, v):
        for t in subterms(e.snap(st, v)):
            if t.k == 'call' and t.a[0] == 'given':
                self.add(st, 'made', t)
    def on_collect(self, e, st, x, site):
        self.keep(e, st, x)
    def on_extend(self, e, st, loc, x, site):
        self.keep(e, st, x)
    # ---- events
    def exists(self, st):
        b = self.one(st, 'exists')
        if b is not None:
            return [(st, b)]
        s2 = st.copy()
        self.add(st, 'exists', True)
        self.add(s2, 'exists', False)
        return [(st, True), (s2, False)]
    def effect(self, st, what, w):
        """A step that must not happen after a failure (the run is lost)."""
    def on_call(self, e, st, c):
        n = c.name
        a = c.args
        S = lambda i: core(e.snap(st, a[i]))
        w = where(self.p, c.fnkey, c.block)
        last = n.rsplit('::', 1)[-1]
        if PARSE(n):
            return [(st, self.cli if not n.endswith('try_parse') else ok(self.cli))]
        if EXIST(n):
            if core(e.snap(st, a[0])) is self.path['model']:
                self.ctx.count('existence_tests')
                out = []
                for s, b in self.exists(st):
                    if last in ('exists', 'is_file') and not n.startswith('std::fs'):
                        out.append((s, B(b)))
                    elif last in ('exists', 'try_exists'):
                        out.append((s, ok(B(b))))
                        out.append(self.fails(e, s, c, 'try_exists'))
                    else:
                        out.append((s, ok(mk('call', 'meta', self.path['model'])) if b else err(e.fresh(s, c.site, 'nofile'))))
                return out
            return None
        if LOAD(n):
            self.ctx.count('loads')
            if S(0) is not self.path['model']:
                self.say('load', '%s loads %s instead of the model given by --model' % (w, S(0)), st)
            s2 = self.fails(e, st, c, 'load')
            self.add(st, 'loaded')
            return [(st, ok(mk('call', 'loaded', E.I(0)))), s2]
        if FSTR(n):
            return [(st, mk('call', 'input', S(0)))]
        if INPUT(n):
            return [(st, ok(mk('call', 'content', S(0)))), self.fails(e, st, c, 'content')]
        if DISC(n):
            return [(st, ok(mk('call', 'discovered', S(0)))), self.fails(e, st, c, 'discovery')]
        if TRAIN(n):
            self.ctx.count('trainings')
            b = S(1)
            cmd = self.command(st)
            if b.k == 'call' and b.a[0] == 'discovered':
                kind = 'discovered'
                if cmd in ('Diff', 'Train'):
                    self.say('given', '%s: %s trains with discovered baselines although some were given' % (w, cmd), st)
                elif not self.target(st, b.a[1]):
                    self.say('discover', '%s trains with the baselines of %s instead of those of the target' % (w, b.a[1]), st)
            else:
                kind = 'given'
                self.boundary(st)
                el = b.a[1] if b.k == 'coll' else None
                good = b.k == 'empty' or el is not None and el.k == 'call' and el.a[0] == 'content' and any(t.k == 'call' and t.a[0] in ('input', 'given') for t in subterms(el)) and any(t.k == 'call' and t.a[0] == 'given' for t in subterms(el))
                if cmd not in ('Diff', 'Train') or not good:
                    self.say('baselines', '%s: %s trains with %s instead of the %s' % (w, cmd, b, 'given baselines' if cmd in ('Diff', 'Train') else 'baselines discovered for the target'), st)
                elif not self.has(st, 'iend'):
                    self.say('early', '%s trains before all the given baselines were looked at' % w, st)
            if cmd != 'Train' and self.one(st, 'model') != 0 and self.one(st, 'exists') is not False:
                self.say('train-exists', '%s trains a model although the file given by --model %s' % (w, 'exists' if self.has(st, 'exists', True) else 'may exist'), st)
            s2 = self.fails(e, st, c, 'train')
            self.add(st, 'trained', kind)
            return [(st, ok(mk('call', 'trained', E.I(0)))), s2]
        if SAVE(n):
            self.ctx.count('saves')
            m, f = S(0), S(1)
            if not (m.k == 'call' and m.a[0] == 'trained'):
                self.say('save-model', '%s saves %s, which was not trained by this run' % (w, m), st)
            if f is not self.path['model']:
                self.say('save-path', '%s saves the model as %s instead of the file given by --model' % (w, f), st)
            if self.command(st) != 'Train' and not self.has(st, 'exists', False):
                self.say('overwrite', '%s overwrites the model given by --model%s' % (w, '' if self.has(st, 'exists', True) else ', if it exists'), st)
            s2 = self.fails(e, st, c, 'save')
            self.add(st, 'saved')
            st.auto = st.auto - {('exists', False)} | {('exists', True)}
            return [(st, ok(UNIT)), s2]
        if (CREATE(n) or DEL(n) or WRITE(n)) and any(self.path['model'] in subterms(e.snap(st, x)) for x in a):
            self.say('touched', '%s: %s changes the file given by --model' % (w, n), st)
        if REPORT(n) or GETI(n):
            self.model(st, S(0), w)
            if GETI(n):
                return None if self.inside(c) else [(st, NONE), (st.copy(), some(mk('call', 'index', S(0))))]
            if not self.target(st, S(2)):
                self.say('target', '%s inspects %s instead of the target' % (w, S(2)), st)
            s2 = self.fails(e, st, c, 'report')
            self.add(st, 'computed')
            return [(st, ok(mk('call', 'report', E.I(0)))), s2]
        if RENDER(n):
            s2 = self.fails(e, st, c, 'render')
            if S(0) is mk('call', 'report', E.I(0)):
                self.add(st, 'rendered')
            return [(st, ok(mk('call', 'html', S(0)))), s2]
        if WRITE(n):
            h, f = S(1), S(0)
            s2 = self.fails(e, st, c, 'write')
            if h.k == 'call' and h.a[0] == 'html' and f is self.path['report']:
                self.add(st, 'written')
            elif f is self.path['report']:
                self.say('content', '%s writes %s as the report' % (w, h), st)
            return [(st, ok(UNIT)), s2]
        if RSAVE(n):
            return [(st, ok(UNIT)), self.fails(e, st, c, 'dump')]
        if GETS(n):
            t = S(0)
            s2 = self.fails(e, st, c, 'sources')
            if self.target(st, t):
                self.add(st, 'listed')
            return [(st, ok(mk('call', 'sources', t))), s2]
        if GROUPS(n):
            return [(st, ok(mk('call', 'groups', E.I(0)))), self.fails(e, st, c, 'groups')]
        if PROC(n):
            if last == 'inspect':
                return [(st, mk('call', 'anomalies', S(0)))]
            return [(st, ok(e.fresh(st, c.site, 'processor'))), (st.copy(), err(e.fresh(st, c.site, 'open')))]
        if OPEN(n):
            return [(st, ok(mk('call', 'reader', E.I(0)))), self.fails(e, st, c, 'open')]
        if LINES(n):
            return [(st, mk('call', 'lines', E.I(0)))]
        if TOKP(n):
            return [(st, e.fresh(st, c.site, 'text'))]
        if TEST(n) and not n.endswith('::{closure}'):
            return [(st, ok(UNIT)), self.fails(e, st, c, 'test')]
        if n in ('std::vec::Vec::push', 'std::collections::VecDeque::push_back'):
            self.keep(e, st, a[1])
            return None
        if EXIT(n):
            z = S(0) if a else None
            if z is None or not (z.k == 'i' and z.a[0] != 0):
                if any(y[0] == 'failed' for y in st.auto):
                    self.say('exit', '%s exits with status %s after a failure' % (w, z), st)
                else:
                    self.finished(e, st)
            return []
        return None
    def inside(self, c):
        return False
    def model(self, st, m, w):
        cmd = self.command(st)
        if m.k == 'call' and m.a[0] in ('loaded', 'trained'):
            return
        self.say('model', '%s uses %s instead of the model' % (w, m), st)
    def target(self, st, t):
        """Is t the content of the target the user gave?"""
        cmd = self.command(st)
        if not (t.k == 'call' and t.a[0] == 'content'):
            return False
        i = t.a[1]
        f = {'Path': ('Path', 'path'), 'Url': ('Url', 'url'), 'Diff': ('Diff', 'dst')}.get(cmd)
        if f is None:
            return False
        x = self.fields[f]
        if i.k == 'adt' and i.a[0].endswith('::Input') and len(i.a) == 3:
            return cmd != 'Diff' and i.a[1] == (0 if cmd == 'Path' else 1) and core(i.a[2]) is x
        return cmd == 'Diff' and i.k == 'call' and i.a[0] == 'input' and i.a[1] is x
    def finished(self, e, st):
        """The run ends successfully."""
        self.ctx.count('successful_ends')
        cmd = self.command(st)
        f = sorted(y[1] for y in st.auto if y[0] == 'failed')
        if f:
            self.say('failure:' + f[0], 'the command %s succeeds although a step failed: %s' % (cmd, ', '.join(f)), st)
            return
        self.ends.add(cmd)
        if cmd in ('Path', 'Url', 'Diff'):
            given, ex = self.one(st, 'model'), self.one(st, 'exists')
            if given is None:
                self.say('m:ignored', 'the command %s ends without considering --model' % cmd, st)
            elif given == 1 and self.has(st, 'loaded'):
                if cmd == 'Diff':
                    self.say('m:ambiguous', 'diff succeeds with an existing model: the baselines it was given are ignored', st)
                if any(y[0] == 'trained' for y in st.auto):
                    self.say('m:both', 'the model is loaded and trained', st)
            else:
                if not any(y[0] == 'trained' for y in st.auto):
                    self.say('m:untrained', 'the command %s succeeds without a model' % cmd, st)
                if given == 1 and not self.has(st, 'saved'):
                    self.say('m:unsaved', 'the model trained by %s is not saved as the file given by --model' % cmd, st)
                if given == 0 and self.has(st, 'saved'):
                    self.say('m:saved', 'the model is saved although no --model was given', st)
            rep = self.one(st, 'report')
            if rep is None:
                self.say('r:ignored', 'the command %s ends without considering --report' % cmd, st)
            elif rep == 1:
                for x in ('computed', 'rendered', 'written'):
                    if not self.has(st, x):
                        self.say('r:' + x, 'the command %s succeeds but its report was not %s' % (cmd, x), st)
            elif not self.has(st, 'listed') and not self.has(st, 'computed'):
                self.say('r:inspected', 'the command %s succeeds without inspecting the target' % cmd, st)
        if cmd == 'Train':
            if not any(y == ('trained', 'given') for y in st.auto) or not self.has(st, 'saved'):
                self.say('t:train', 'train succeeds without having trained and saved a model', st)
    ends = frozenset()

def analyse(ctx):
    p = ctx.prog()
    k = [k for k in p.ws_fns() if p.display(k) == 'logreduce_cli::main']
    if not ctx.need(len(k) == 1, 'main function of the command line'):
        return None
    cl = Cli(ctx)
    if not cl.ok:
        return None
    cl.ends = set()
    e, outs = Sim(ctx, p).run(k[0], cl, interest=EVENT)
    for st, v in outs:
        r = e.snap(st, v)
        if E.is_err(r):
            ctx.count('failing_ends')
            continue
        if E.is_ok(r) or p.fns[k[0]].get('ret') == '()':
            cl.finished(e, st)
            continue
        s = st.copy()
        known = e.known(s, mk('discr', r, RES))
        if known.k == 'i' and known.a[0] == 1:
            ctx.count('failing_ends')
            continue
        cl.finished(e, s)
    for x in ('Path', 'Url', 'Diff', 'Train'):
        ctx.need(x in cl.ends, 'a successful run of the command ' + x)
    for x in ('existence_tests', 'loads', 'trainings', 'saves', 'baseline_visits', 'failing_ends'):
        ctx.floor(x, 1)
    return cl
