"""Nothing of the logs, names or urls can act as markup in the html report, and it is displayed as it is."""
from common import *
from engine import S

NUM = re.compile(r'^(&|mut )*(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f32|f64|bool|std::time::Duration|chrono::.*|std::process::ExitCode)$')
SPECIAL = '&<>"\''

def repl_chain(t):
    """(set of characters replaced, base, order of replacement innermost first)"""
    seq = []
    while t.k == 'call' and t.a[0] in ('str::replace', 'replace') and len(t.a) == 4:
        pat, to = t.a[2], t.a[3]
        if pat.k == 'ch':
            p = chr(pat.a[0])
        elif pat.k == 's':
            p = pat.a[0]
        else:
            return None
        if to.k != 's':
            return None
        seq.append((p, to.a[0]))
        t = t.a[1]
    return list(reversed(seq)), t

ENT = {'&': ('&amp;', '&#38;', '&#x26;'), '<': ('&lt;', '&#60;', '&#x3C;', '&#x3c;'), '>': ('&gt;', '&#62;', '&#x3E;', '&#x3e;'),
       '"': ('&quot;', '&#34;', '&#x22;'), "'": ('&#39;', '&apos;', '&#x27;')}

class Sinks(Client):
    def __init__(self, ctx, prog):
        self.ctx, self.p = ctx, prog
        self.bad = {}
        self.san = {}
        self.nodes = 0
    def init(self):
        return frozenset()
    def say(self, c, key, msg):
        w = where(self.p, c.fnkey, c.block)
        fn = self.p.display(c.fnkey)
        self.bad.setdefault('%s:%s' % (fn.rsplit('::', 1)[-1], key), '%s: %s' % (w, msg))
    def on_call(self, e, st, c):
        n, d = c.name, c.decl
        if d == 'std::string::ToString::to_string' and c.fn['targs'] and NUM.match(c.fn['targs'][0]):
            return [(st, mk('call', 'fmt:display', S(c.fn['targs'][0] + '|()'), e.snap(st, e.content(st, c.args[0]))))]
        if d in ('str::replace', 'str::replacen', '[T]::replace'):
            return [(st, mk('call', 'str::replace', *[e.snap(st, a) for a in c.args]))] if d.endswith('replace') else None
        key = c.key if hasattr(c, 'key') else None
        body = c.fn.get('body') or c.fn.get('key') or c.fn.get('dk')
        if body in self.p.fns and not self.p.fns[body]['ext'] and len(c.args) == 1:
            es = self.charwise(body)
            if es:
                return [(st, mk('call', 'san', S(''.join(sorted(es))), e.snap(st, c.args[0])))]
        if n.startswith('html_builder::') or d in ('std::fmt::Write::write_str', 'std::fmt::Write::write_fmt', 'std::fmt::Write::write_char') and any('html_builder' in t for t in c.fn['targs']):
            self.sink(e, st, c)
            if d.startswith('html_builder::Html5::') or n.rsplit('::', 1)[-1] in ('child', 'void_child'):
                tag = n.rsplit('::', 1)[-1]
                if tag in ('child', 'void_child'):
                    t = e.snap(st, c.args[1])
                    t = next((x.a[0] for x in subterms(t) if x.k == 's'), '?')
                    tag = t
                return [(st, mk('call', 'node', S(tag)))]
            if n.endswith('::attr'):
                return [(st, e.content(st, c.args[0]))]
            if n.endswith('::finish'):
                return [(st, mk('call', 'page'))]
            if n.endswith(('Buffer::new', 'Buffer::default')):
                return [(st, mk('call', 'buffer'))]
            if n.endswith(('::deref', '::deref_mut')):
                return None
            if d.startswith('std::fmt::Write::'):
                s2 = st.copy()
                return [(st, ok(E.UNIT)), (s2, err(mk('zst', 'std::fmt::Error', None)))]
        return None
    def sink(self, e, st, c):
        m = c.name.rsplit('::', 1)[-1]
        if m in ('deref', 'deref_mut', 'new', 'finish', 'default') or len(c.args) < 2:
            return
        node = e.content(st, c.args[0])
        tag = node.a[1].a[0] if node.k == 'call' and node.a[0] == 'node' else '?'
        self.ctx.count('sinks_evaluated')
        v = e.snap(st, c.args[1])
        if m in ('child', 'void_child'):
            if not self.const(v):
                self.say(c, 'tag', 'the name of an element is not constant')
            return
        self.judge(c, v, 'attr' if m == 'attr' else tag)
    def const(self, v):
        return all(x.k in ('s', 'by', 'i', 'fl', 'ch', 'b', 'adt', 'cat', 'tuple', 'array') for x in subterms(v))
    def parts(self, v):
        if v.k == 'cat':
            for x in v.a:
                yield from self.parts(x)
        elif v.k == 'call' and v.a[0].startswith('fmt:'):
            ty, spec = v.a[1].a[0].split('|', 1) if v.a[1].k == 's' else ('', '')
            if NUM.match(ty):
                yield 'num', v
            elif re.match(r'^(&|mut )*(str|std::string::String|std::borrow::Cow<.*str>|std::fmt::Arguments<.*)$', ty) and v.a[0] == 'fmt:display':
                yield from self.parts(v.a[2])
            else:
                yield 'data', v
        elif v.k == 's':
            yield 'text', v.a[0]
        elif v.k in ('i', 'fl', 'ch', 'b'):
            yield 'num', v
        elif v.k == 'adt' and len(v.a) == 3 and 'Cow' in str(v.a[0]):
            yield from self.parts(v.a[2])
        else:
            yield 'data', v
    def judge(self, c, v, ctxt):
        q = None
        for kind, x in self.parts(v):
            if kind == 'num':
                self.ctx.count('numeric_parts')
                continue
            if kind == 'text':
                if ctxt == 'attr':
                    for ch in x:
                        if q is None and ch in '"\'':
                            q = ch
                        elif q == ch:
                            q = None
                continue
            self.ctx.count('data_parts')
            got = repl_chain(x)
            if x.k == 'call' and x.a[0] == 'san':
                done, base, order = set(x.a[1].a[0]), x.a[2], True
            elif got is None:
                self.say(c, 'opaque', 'text inserted in the page is transformed in a way that cannot be judged: %s' % str(x)[:120])
                continue
            else:
                seq, base = got
                done, order = set(), True
                for i, (p, to) in enumerate(seq):
                    if p in ENT and to in ENT[p]:
                        if p == '&' and done:
                            order = False
                        done.add(p)
                    elif any(ch in SPECIAL for ch in to):
                        done -= set(to)
            need = {'&', '<'} if ctxt != 'attr' else ({'&', q} if q else None)
            if ctxt in ('script', 'style'):
                self.say(c, ctxt, 'data of the report is written inside a %s element' % ctxt)
            elif need is None:
                self.say(c, 'unquoted', 'data of the report is used in an attribute outside of quotes')
            elif not need <= done:
                self.say(c, 'raw', 'data of the report reaches the page without escaping %s: %s' % (' '.join(sorted(need - done)), str(base)[:100]))
            elif not order:
                self.say(c, 'order', 'the ampersands of already escaped characters are escaped again, the text is not displayed as it is')
            elif base.k == 'call' and base.a[0] in ('san', 'str::replace') or any(t.k == 'call' and (t.a[0] == 'san' or t.a[0] == 'str::replace' and any(u.k == 's' and u.a[0] == '&amp;' for u in t.a[1:] if isinstance(u, T))) for t in subterms(base)):
                self.say(c, 'twice', 'text is escaped twice, it is not displayed as it is')
    def charwise(self, key):
        """Characters a text -> text function replaces by their entity, if it works character by character."""
        if key in self.san:
            return self.san[key]
        self.san[key] = None
        f = self.p.fns[key]
        g = self.p.cg()
        if f['argc'] != 1 or 'str' not in f['locals'][1][0] and 'String' not in f['locals'][1][0] or 'String' not in f['locals'][0][0] and 'Cow' not in f['locals'][0][0]:
            return None
        names = set()
        for k in g.closure([key]):
            if not self.p.fns[k]['ext']:
                names |= set(g.names.get(k, ()))
        if not any(x.endswith(('str::chars', 'str::char_indices')) for x in names):
            return None
        cl = Charwise(self.p, key)
        try:
            e = Engine(self.p, cl, timeout=30)
            e.run(key)
        except E.Budget:
            return None
        if cl.raw and not cl.bad:
            done = set.intersection(*cl.raw)
            good = {ch for ch in done if cl.const.get(ch) and cl.const[ch] <= set(ENT.get(ch, ()))}
            self.san[key] = good or None
        return self.san[key]

class Charwise(Client):
    """Collects what is emitted for each character of the text."""
    def __init__(self, prog, key):
        self.p, self.key = prog, key
        self.raw, self.const, self.bad = [], {}, False
    def init(self):
        return None
    def cur(self, st, e):
        return None
    def excluded(self, st, t):
        f = st.facts.get(t)
        if f is not None and f.k == 'notin':
            return {chr(x) if isinstance(x, int) else chr(x.a[0]) if x.k in ('ch', 'i') else '' for x in (f.a[0] if isinstance(f.a[0], (tuple, frozenset, list)) else f.a)}
        ex = set()
        for k, v in st.facts.items():
            if k.k == 'op' and k.a[0] == 'Eq' and v is FALSE and t in k.a and any(isinstance(y, T) and y.k == 'ch' for y in k.a):
                ex |= {chr(y.a[0]) for y in k.a if isinstance(y, T) and y.k == 'ch'}
        return ex
    def emit(self, e, st, v):
        v = e.content(st, v)
        w = e.known(st, v)
        if w.k == 'ch':
            self.raw.append({ch for ch in SPECIAL if ch != chr(w.a[0])} if chr(w.a[0]) in SPECIAL else set(SPECIAL))
            return
        if w.k == 's':
            s = w.a[0]
            for ch, xs in ENT.items():
                if s in xs:
                    self.const.setdefault(ch, set()).add(s)
                    return
            if any(ch in SPECIAL for ch in s):
                self.bad = True
            return
        if self.is_char(v):
            self.raw.append(self.excluded(st, v))
            return
        self.bad = True
    def is_char(self, v):
        return v.k == 'fresh' or v.k in ('fld', 'phi', 'call', 'deref') and any(x.k == 'fresh' for x in subterms(v))
    def on_call(self, e, st, c):
        n, d = c.name, c.decl
        if n == 'std::string::String::push':
            self.emit(e, st, c.args[1])
            return [(st, E.UNIT)]
        if n == 'std::string::String::push_str':
            v = e.content(st, c.args[1])
            if v.k != 's':
                self.bad = True
            else:
                self.emit(e, st, v)
            return [(st, E.UNIT)]
        if d == 'std::string::ToString::to_string' and c.fn['targs'] and c.fn['targs'][0] in ('char', '&char'):
            self.emit(e, st, c.args[0])
        if d == 'std::convert::From::from' and c.fn['targs'] and c.fn['targs'][-1] == 'char':
            self.emit(e, st, c.args[0])
        if d in ('std::string::ToString::to_string', 'std::convert::From::from', 'std::borrow::ToOwned::to_owned', 'std::convert::Into::into') and c.args:
            v = e.content(st, c.args[0])
            if v.k == 's' and v.a[0].startswith('&'):
                self.emit(e, st, v)
        return None

def run(ctx):
    ctx.rule('Rule: for every value that reaches the page on any path from logreduce_report::render (text, attributes, formatted writes), each part that is not a constant of the program nor a number has gone '
             'exactly once through a replacement of & and < (for text) or of & and the enclosing quote (for attributes), with & replaced first; no such part reaches a tag name, an unquoted attribute, a '
             'script or a style; render returns the finished page and nothing else (value-flow with sanitiser recognition over the MIR).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    k = p.one('logreduce_report::render')
    if not ctx.need(k, 'logreduce_report::render'):
        return
    cl = Sinks(ctx, p)
    rd = [q for q in p.ws_fns() if p.fns[q]['crate'] == 'logreduce_report']
    e, out = sim.run(k, cl, interest=lambda n: n.startswith('html_builder::') or 'fmt::Write::' in n, also=[q for q in rd if 'main' not in q])
    for s, v in out:
        v = e.snap(s, v)
        ctx.count('return_paths')
        if v.k == 'adt' and v.a[0] == RES and v.a[1] == 0:
            for kind, x in cl.parts(v.a[2]):
                if kind == 'data' and not (x.k == 'call' and x.a[0] == 'page'):
                    cl.bad.setdefault('result', '%s: the page returned is not the one that was built: %s' % (p.display(k), str(x)[:150]))
    for kk, m in cl.bad.items():
        ctx.viol(kk, m)
    ctx.floor('sinks_evaluated', 40)
    ctx.floor('data_parts', 6)
    ctx.floor('return_paths', 2)
