"""A source is named by its path below the directory or url that was listed."""
from c31 import *
import models

TEXT = ('to_str', 'as_str', 'to_string_lossy', 'to_string', 'to_owned', 'clone', 'as_ref', 'deref', 'into_string', 'as_path', 'to_path_buf', 'as_os_str', 'into_os_string', 'to_os_string', 'fmt:display')
TRIM = ('trim_end_matches', 'trim_end', 'trim_matches', 'strip_suffix')
ZERO = E.I(0)

def subject(t):
    """The path or url a text is the text of; None when it is something else."""
    while True:
        if t.k == 'call' and t.a[0].rsplit('::', 1)[-1] in TEXT and len(t.a) >= 2:
            t = t.a[-1]
        elif t.k == 'fld' and t.a[1:] in ((1, 0), (0, 0)) and t.a[0].k == 'call' and t.a[0].a[0].rsplit('::', 1)[-1] in ('to_str', 'into_string', 'strip_suffix'):
            t = t.a[0]
        elif t.k == 'deref':
            t = t.a[0]
        else:
            return t

def base_of(v):
    """(subject, offset) of a length: v is len(text of subject) + offset, the text possibly without trailing slashes."""
    n = 0
    if v.k == 'op' and v.a[0] == 'Add' and v.a[2].k == 'i':
        n, v = v.a[2].a[0], v.a[1]
    if not (v.k == 'call' and v.a[0].rsplit('::', 1)[-1] == 'len' and len(v.a) == 2):
        return None
    t = v.a[1]
    trimmed = False
    while True:
        if t.k == 'fld' and t.a[0].k == 'call' and t.a[0].a[0].rsplit('::', 1)[-1] == 'strip_suffix':
            t = t.a[0]
        if t.k == 'call' and t.a[0].rsplit('::', 1)[-1] in TRIM:
            if len(t.a) == 3 and not (t.a[2].k == 'ch' and t.a[2].a[0] == 47 or t.a[2].k == 's' and t.a[2].a[0] == '/'):
                return None
            t = t.a[1]
            trimmed = True
        else:
            break
    if n not in ((0, 1) if trimmed else (0,)):
        return None
    return subject(t), n

class Names(Src):
    def check_listed(self, e, st, c):
        u = e.snap(st, c.args[0])
        self.add(st, 'of', subject(u))
    def on_call(self, e, st, c):
        n = c.name
        if LIST(n) or CGET(n) and len(c.args) > 1 or n == 'walkdir::WalkDir::new':
            self.add(st, 'of', subject(e.snap(st, c.args[1 if CGET(n) else 0])))
        if n in ('std::path::Path::to_str', 'std::ffi::OsStr::to_str'):
            # kept apart: the path has a text, or none
            x = e.snap(st, c.args[0])
            s2 = st.copy()
            self.add(st, 'text', subject(x))
            self.add(s2, 'notext', subject(x))
            return [(st, some(mk('fld', mk('call', n, x), 1, 0))), (s2, NONE)]
        return Src.on_call(self, e, st, c)
    def keep(self, e, st, v):
        v = e.snap(st, v)
        if E.is_ok(v):
            v = v.a[2]
        if not (v.k == 'adt' and v.a[0].endswith('::Source')):
            return
        x = self.of(v)
        if x is None:
            return
        self.ctx.count('bases_decided')
        base = v.a[2]
        of = self.get(st, 'of')
        local = x.a[0] == 'entry'
        what = 'directory' if local else 'url'
        if base is ZERO:
            # the listed path has no text
            if local and {y[1] for y in of} & {y[1] for y in self.get(st, 'notext')}:
                return
            self.say('whole', 'a file of the %s is named by its whole path: its name depends on where the %s is' % (what, what), st)
            return
        b = base_of(base)
        if b is None or not [y for y in of if y[1] is b[0]]:
            self.say('base', 'a file of the %s is named from offset %s, which is not the length of the %s that is listed' % (what, base, what), st)
    def on_collect(self, e, st, x, site):
        self.keep(e, st, x)

def run(ctx):
    ctx.rule('Rule 1 (rooted at Content::get_sources, listings analysed in place): every file of a listing gets as base the length of the text of the very directory or url that is walked, with or without its trailing slashes (and one separator after it when they are removed); 0 only for a path that is not text. '
             'Rule 2 (rooted at Source::get_relative): the result is the text of the path or url of the source from its own base, or all of it when the base is out of range; nothing can panic. '
             'Rule 3 (rooted at the constructors for one file or directory): the base is 0. Rule 4: IndexName::from_source is IndexName::from_path of get_relative of the source, and nothing else.')
    p = ctx.prog()
    sim = Sim(ctx, p)
    one = lambda nm: [k for k in p.find(nm) if p.fns[k]['kind'] != 'closure']
    ks = one('Content::get_sources')
    if ctx.need(len(ks) == 1, 'Content::get_sources'):
        cl = Names(ctx, ks[0])
        W = lambda n: n.endswith('::to_str') or n.startswith('walkdir::') or VALID(n) or LIST(n) or CGET(n) or CADD(n) or n == 'std::vec::Vec::push'
        sim.run(ks[0], cl, interest=W)
        for k, m in cl.bad.items():
            if k in ('whole', 'base'):
                ctx.viol('list:' + k, m)
        ctx.floor('bases_decided', 2)
    ks = one('Source::get_relative')
    if ctx.need(len(ks) == 1, 'Source::get_relative'):
        self_ = mk('deref', param(ks[0], 0))
        seen = set()
        class R(Client):
            def init(self):
                return False
            def on_call(self, e, st, c):
                if c.name in ('std::path::Path::to_str', 'std::ffi::OsStr::to_str'):
                    s2 = st.copy()
                    s2.auto = True
                    x = mk('call', 'to_str', e.snap(st, c.args[0]))
                    return [(st, some(mk('fld', x, 1, 0))), (s2, NONE)]
                return None
        e, outs = sim.run(ks[0], R(), interest=lambda n: n.endswith('::to_str'))
        for st, v in outs:
            ctx.count('relative_outcomes')
            v = e.snap(st, v)
            rel_ok(ctx, e, st, v, self_, seen)
        ctx.need({(0, 'from'), (0, 'all'), (1, 'from'), (1, 'all')} <= seen, 'relative and whole names of local and remote sources')
    for nm in ('Content::from_path', 'Content::from_url', 'Source::from_pathbuf'):
        ks = one(nm)
        if not ctx.need(len(ks) == 1, nm):
            continue
        n = 0
        class Z(Client):
            def on_call(self, e, st, c):
                if c.name.endswith('::from_zuul_url'):
                    s2 = st.copy()
                    return [(st, NONE), (s2, some(e.fresh(s2, c.site, 'zuul')))]
                return None
        e, outs = sim.run(ks[0], Z(), interest=rx('::from_zuul_url$'))
        for st, v in outs:
            for t in subterms(e.snap(st, v)):
                if t.k == 'adt' and t.a[0].endswith('::Source') and len(t.a) == 4:
                    n += 1
                    if t.a[2] is not ZERO:
                        ctx.viol('ctor:' + nm, '%s makes a source named from offset %s of its path' % (nm, t.a[2]))
                    if subject(t.a[3]) is not param(ks[0], 0):
                        ctx.viol('path:' + nm, '%s makes a source of %s, not of the path or url it was given' % (nm, t.a[3]))
        ctx.count('sources_made', n)
        ctx.need(n, 'a source made by ' + nm)
    ks = one('IndexName::from_source')
    if ctx.need(len(ks) == 1, 'IndexName::from_source'):
        bad = []
        class F(Client):
            def on_call(self, e, st, c):
                if c.name.endswith('Source::get_relative'):
                    return [(st, mk('call', 'relative', e.snap(st, c.args[0])))]
                if c.name.endswith('IndexName::from_path'):
                    return [(st, mk('call', 'named', e.snap(st, c.args[0])))]
                return None
        e, outs = sim.run(ks[0], F(), interest=rx('Source::get_relative$', 'IndexName::from_path$'))
        for st, v in outs:
            ctx.count('names_decided')
            v = e.snap(st, v)
            if not (v.k == 'call' and v.a[0] == 'named' and subject(v.a[1]).k == 'call' and subject(v.a[1]).a[0] == 'relative' and subject(subject(v.a[1]).a[1]) is param(ks[0], 0)):
                ctx.viol('name', 'IndexName::from_source gives %s instead of the name of the relative path of the source' % v)
        ctx.floor('names_decided', 1)

def rel_ok(ctx, e, st, v, self_, seen):
    def inside(b, want):
        """The base is known (not) to be a position of the text on this path."""
        return any(x is want and t.k == 'call' and (t.a[0] == 'inrange' and t.a[2] is b or t.a[0].rsplit('::', 1)[-1] == 'is_char_boundary' and t.a[-1] is b) for t, x in st.facts.items())
    if st.auto and (v.k == 's' and v.a[0] == '' or v.k == 'slice' and subject(v.a[0]).k == 's'):
        return          # a path that is not text has an empty name
    for i in (0, 1):
        b, path = mk('fld', self_, i, 0), mk('fld', self_, i, 1)
        if v.k == 'slice' and subject(v.a[0]) is path and v.a[1] is b and v.a[2].k == 'call' and v.a[2].a[0] == 'len' and v.a[2].a[1] is v.a[0]:
            seen.add((i, 'from'))
            if not inside(b, TRUE):
                ctx.viol('rel:panic', 'get_relative cuts the path at its base without knowing that the base is a position of it')
            return
        if subject(v) is path:
            seen.add((i, 'all'))
            if not inside(b, FALSE):
                ctx.viol('rel:all', 'get_relative gives the whole path although the base may be in range')
            return
    ctx.viol('rel', 'get_relative gives %s instead of the text of the path or url after the base\n%s' % (v, st.trail()))
