"""A saved model or report is loaded back with every field at its place."""
from common import *
from engine import S

def reach(p, roots):
    """Workspace ADTs reachable through field types."""
    seen, work = [], list(roots)
    names = {}
    for k in p.adts:
        names.setdefault(k.rsplit('::', 1)[-1], []).append(k)
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.append(k)
        for v in p.adts[k]['variants']:
            for x in (v.get('f') or v.get('fields') or []):
                for m in re.findall(r'[A-Za-z_][\w:]*', x[1]):
                    if m in p.adts:
                        work.append(m)
                    else:
                        # local paths are printed relative to their crate
                        crate = k.split('::')[0]
                        for q in (crate + '::' + m, ):
                            if q in p.adts:
                                work.append(q)
    return seen

class Ser(Client):
    def __init__(self, ctx):
        self.ctx = ctx
    def init(self):
        return ()
    def on_call(self, e, st, c):
        d = c.decl
        if d.startswith('serde::Serializer::serialize_') or d.startswith('serde::ser::'):
            m = d.rsplit('::', 1)[-1]
            a = [e.snap(st, x) for x in c.args]
            if m in ('serialize_struct', 'serialize_tuple_struct', 'serialize_tuple'):
                st.auto = st.auto + (('struct', a[-1]),)
            elif m in ('serialize_tuple_variant', 'serialize_struct_variant'):
                st.auto = st.auto + (('variant', a[2]),)
            elif m == 'serialize_newtype_variant':
                st.auto = st.auto + (('variant', a[2]), ('field', a[4]))
            elif m == 'serialize_unit_variant':
                st.auto = st.auto + (('variant', a[2]),)
            elif m == 'serialize_newtype_struct':
                st.auto = st.auto + (('field', a[2]),)
            elif m in ('serialize_field', 'serialize_element'):
                st.auto = st.auto + (('field', a[-1]),)
            elif m == 'end':
                pass
            else:
                st.auto = st.auto + (('other', S(m)),)
            return [(st, ok(mk('call', 'ser')))]
        return None

class De(Client):
    def __init__(self, ctx):
        self.ctx = ctx
    def init(self):
        return 0
    def on_call(self, e, st, c):
        d = c.decl
        if d in ('serde::de::SeqAccess::next_element', 'serde::de::SeqAccess::next_element_seed'):
            i = st.auto
            s2 = st.copy()
            st.auto = i + 1
            s2.auto = i + 1
            return [(st, ok(some(mk('call', 'elem', E.I(i))))), (s2, ok(NONE))]
        if d == 'serde::de::EnumAccess::variant':
            return [(st, ok(mk('call', 'variant')))]
        if d in ('serde::de::VariantAccess::newtype_variant', 'serde::Deserialize::deserialize'):
            return [(st, ok(mk('call', 'elem', E.I(0))))]
        if d == 'serde::de::VariantAccess::unit_variant':
            return [(st, ok(E.UNIT))]
        if d in ('serde::de::VariantAccess::tuple_variant', 'serde::de::VariantAccess::struct_variant'):
            vis = e.snap(st, c.args[-1])
            t = next((x for x in c.fn['targs'] if 'Visitor' in x), '')
            return [(st, ok(mk('call', 'visited', vis)))]
        return None

def fields(v):
    return v.get('f') or v.get('fields') or []

def run(ctx):
    ctx.rule('Rule: for every type reachable from Model and Report, the serializer emits all of its fields, once each, in declaration order and unconditionally, and for enums the variant index of the '
             'variant in hand; the deserializer puts the n-th element read in the n-th field and maps each variant index to that variant. Serialization and deserialization are therefore inverse, '
             'given the (de)serializers of the field types (value-flow over the MIR of the serde implementations).')
    p = ctx.prog()
    sim = Sim(ctx, p)
    roots = [k for k in p.adts if k in ('logreduce_model::Model', 'logreduce_model::Report')]
    if not ctx.need(len(roots) == 2, 'Model and Report'):
        return
    todo = [k for k in reach(p, roots) if not p.adts[k].get('ext')]
    tr = {}
    for k in p.ws_fns():
        f = p.fns[k]
        n = f['npath'].rsplit('::', 1)[-1]
        if n in ('visit_seq', 'visit_enum', 'visit_newtype_struct') and f['argc'] == 2:
            m = re.match(r'std::result::Result<(.*?), ', f['locals'][0][0])
            if m:
                tr.setdefault((f['crate'] + '::' + m.group(1), n), []).append(k)
    for a in sorted(todo):
        short = a.rsplit('::', 1)[-1]
        ser = [k for k in p.ws_fns() if p.fns[k].get('implself_adt') == a and p.fns[k]['npath'].endswith('::serialize')]
        if not ser:
            if a.split('::')[0].startswith(('logreduce', 'zuul')):
                ctx.viol('noser:' + short, '%s has no serializer that can be inspected' % a)
            continue
        ctx.count('types')
        variants = p.adts[a]['variants']
        enum = p.adts[a].get('kind') == 'enum' or len(variants) > 1
        me = mk('deref', param(ser[0], 0))
        e, out = sim.run(ser[0], Ser(ctx))
        seenv = set()
        for s, v in out:
            v = e.snap(s, v)
            if not (v.k == 'adt' and v.a[0] == RES and v.a[1] == 1):
                ctx.count('serializer_outcomes')
                vi = 0
                if enum:
                    vs = [x[1] for x in s.auto if x[0] == 'variant']
                    dv = e.known(s, mk('discr', me))
                    if len(vs) != 1 or vs[0].k != 'i':
                        ctx.viol('ser:' + short, '%s: a value is saved without its variant' % p.display(ser[0]))
                        continue
                    vi = vs[0].a[0]
                    if dv.k == 'i' and dv.a[0] != vi:
                        ctx.viol('ser:' + short, '%s: the variant %d of %s is saved as variant %d' % (p.display(ser[0]), dv.a[0], short, vi))
                    seenv.add(vi)
                want = [getproj(me, ('f', vi, i)) for i in range(len(fields(variants[vi])))]
                got = [x[1] for x in s.auto if x[0] == 'field']
                if len(got) != len(want) or any(str(x) != str(y) for x, y in zip(got, want)) or any(x[0] == 'other' for x in s.auto):
                    names = [x[0] for x in fields(variants[vi])]
                    ctx.viol('ser:' + short, '%s: the fields saved are not all the fields of %s in order (%s): %s' % (p.display(ser[0]), short, ' '.join(map(str, names)), ' '.join(str(x)[-30:] for x in got)))
                for x in s.auto:
                    if x[0] == 'struct' and not (x[1].k == 'i' and x[1].a[0] == len(want)):
                        ctx.viol('ser:' + short, '%s: a wrong number of fields is announced' % p.display(ser[0]))
        if enum and seenv != set(range(len(variants))):
            ctx.viol('ser:' + short, '%s: not all the variants of %s can be saved' % (p.display(ser[0]), short))
        # deserializer
        if not enum:
            newtype = len(fields(variants[0])) == 1 and str(fields(variants[0])[0][0]) == '0'
            vis = tr.get((a, 'visit_newtype_struct' if newtype else 'visit_seq'), [])
            if not vis:
                ctx.viol('node:' + short, '%s has no deserializer that can be inspected' % a)
            for k in vis:
                good = 0
                e, out = sim.run(k, De(ctx))
                for s, v in out:
                    v = e.snap(s, v)
                    if v.k == 'adt' and v.a[0] == RES and v.a[1] == 0:
                        ctx.count('deserializer_outcomes')
                        r = v.a[2]
                        want = [mk('call', 'elem', E.I(i)) for i in range(len(fields(variants[0])))]
                        if not (r.k == 'adt' and r.a[0] == a and list(r.a[2:]) == want):
                            ctx.viol('de:' + short, '%s: a field of %s is not restored from the element saved for it: %s' % (p.display(k), short, str(r)[:200]))
                        else:
                            good += 1
                if not good:
                    ctx.viol('de:' + short, '%s never succeeds in restoring all the fields of %s' % (p.display(k), short))
        else:
            vis = tr.get((a, 'visit_enum'), [])
            if not vis:
                ctx.viol('node:' + short, '%s has no deserializer that can be inspected' % a)
            for k in vis:
                got = set()
                e, out = sim.run(k, De(ctx))
                for s, v in out:
                    v = e.snap(s, v)
                    if not (v.k == 'adt' and v.a[0] == RES):
                        # handed over to the visitor of a tuple variant
                        pass
                    tag = next((x.a[0] for kk, x in s.facts.items() if kk.k == 'discr' and x.k == 'i' and any(y.k == 'call' and y.a[0] == 'variant' for y in subterms(kk))), None)
                    r = v.a[2] if v.k == 'adt' and v.a[0] == RES and v.a[1] == 0 else v
                    ctx.count('deserializer_outcomes')
                    if r.k == 'adt' and r.a[0] == a:
                        got.add(r.a[1])
                        if tag is not None and tag != r.a[1]:
                            ctx.viol('de:' + short, '%s: variant %d of %s is restored as variant %d' % (p.display(k), tag, short, r.a[1]))
                    elif r.k == 'call' and r.a[0] == 'visited' and tag is not None:
                        got.add(tag)
                if got != set(range(len(variants))):
                    ctx.viol('de:' + short, '%s: not all the variants of %s can be restored: %s' % (p.display(k), short, sorted(got)))
            for k in tr.get((a, 'visit_seq'), []):
                e, out = sim.run(k, De(ctx))
                for s, v in out:
                    v = e.snap(s, v)
                    if v.k == 'adt' and v.a[0] == RES and v.a[1] == 0 and v.a[2].k == 'adt' and v.a[2].a[0] == a:
                        ctx.count('deserializer_outcomes')
                        r = v.a[2]
                        if list(r.a[2:]) != [mk('call', 'elem', E.I(i)) for i in range(len(fields(variants[r.a[1]])))]:
                            ctx.viol('de:' + short, '%s: a field of %s is not restored from the element saved for it' % (p.display(k), short))
    ctx.floor('types', 8)
    ctx.floor('serializer_outcomes', 8)
    ctx.floor('deserializer_outcomes', 8)
