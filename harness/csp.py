"""Construction of CSpydr programs: every expression and statement is built once
and exists in two forms, the node table the TLA+ machine runs (module Machine)
and CSpydr source text.  Nothing here computes what a program does."""
import json, struct

INTS = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8}
SIZE = dict(INTS, bool=1, char=1, f32=4, f64=8, ptr=8, enum=4, fn=8)
SIGNED = {'i8', 'i16', 'i32', 'i64', 'char', 'enum'}

def word(n):
    return list(struct.pack('<Q', n & (2**64 - 1)))

PREC = {'asg': 1, 'pipe': 2, 'cop': 3, '||': 4, '&&': 5, 'infix': 6, 'els': 6, 'cast': 7, '|': 8, '^': 9, '&': 10,
        '==': 11, '!=': 11, '<': 12, '>': 12, '<=': 12, '>=': 12, '<<': 13, '>>': 13, '+': 14, '-': 14,
        '*': 15, '/': 15, '%': 16, 'un': 17, 'pow': 18, 'inc': 19, 'post': 21, 'atom': 30, 'tern': 0, 'lam': 0}

class X:                     # expression
    __slots__ = ('p', 'id', 't', 'eff', 'src', 'prec', 'lv')
    def __init__(s, p, node, t, src, prec='atom', eff=False, lv=False):
        s.p, s.t, s.src, s.eff, s.lv = p, t, src, eff, lv
        s.prec = PREC[prec]
        node.update(t=t, eff=eff)
        s.id = p.node(node)

class S:                     # statement
    __slots__ = ('id', 'src', 'defers')
    def __init__(s, p, node, src, defers=()):
        node.setdefault('eff', True)
        s.id = p.node(node); s.src = src; s.defers = list(defers)

def ind(s):
    return '\n'.join('    ' + l if l else l for l in s.split('\n'))

class Prog:
    def __init__(s, pid, asm=True):
        s.pid = pid
        s.types, s.tsrc, s.tix = [], [], {}
        s.vars, s.funs, s.globs, s.nodes = [], [], [], []
        s.ginit, s.pre, s.main = [], [], 0
        s.decls, s.cur, s.tag, s.ntag, s.nname = [], 0, None, 0, 0
        s.tags = {}
        s.impls, s.ifaces = [], []          # functions of a type for an interface; (name, methods)
        s.asm = asm
        s.feat = set()
        for k in list(INTS) + ['bool', 'char', 'f32', 'f64', 'void']:
            setattr(s, k, s.ty({'k': k}, k))

    # --- types
    def ty(s, d, src):
        key = json.dumps([d, src if d['k'] in ('st', 'un', 'enum') else ''], sort_keys=True)
        if key not in s.tix:
            s.types.append(d); s.tsrc.append(src); s.tix[key] = len(s.types)
        return s.tix[key]
    def k(s, t): return s.types[t-1]['k']
    def tn(s, t): return s.tsrc[t-1]
    def of(s, t): return s.types[t-1]['of']
    def tsuf(s, t):      # type text usable before a suffix
        return '(' + s.tn(t) + ')' if s.k(t) in ('ptr', 'fn') else s.tn(t)
    def ptr(s, t): return s.ty({'k': 'ptr', 'of': t}, '&' + ('(' + s.tn(t) + ')' if s.k(t) in ('arr', 'carr', 'vla', 'fn') else s.tn(t)).replace('&', '&'))
    def arr(s, t, n): return s.ty({'k': 'arr', 'of': t, 'n': n}, f'{s.tsuf(t)}[{n}]')
    def carr(s, t, n): return s.ty({'k': 'carr', 'of': t, 'n': n}, f"{s.tsuf(t)} 'c[{n}]")
    def vla(s, t): return s.ty({'k': 'vla', 'of': t}, f'{s.tsuf(t)}[]')
    def fnty(s, args, ret, const=True):
        r = '' if s.k(ret) == 'void' else f'<{s.tn(ret)}>'
        return s.ty({'k': 'fn', 'args': args, 'ret': ret, 'c': const}, ('const ' if const else '') + f"fn{r}({', '.join(s.tn(a) for a in args)})")
    def struct(s, name, fields, union=False, decl=True, src=None):
        t = s.ty({'k': 'un' if union else 'st', 'f': [{'n': n, 't': t} for n, t in fields]}, name)
        if decl:
            s.decls.append(f"type {name}: {'union' if union else 'struct'} {{\n" +
                           ',\n'.join(f'    {n}: {s.tn(t)}' for n, t in fields) + '\n};')
        return t
    def recstruct(s, name, fields, link):
        """a struct whose last member points to the struct itself -> (struct, pointer)"""
        pn = s.ty({'k': 'ptr', 'of': 0, 'name': name}, '&' + name)
        t = s.struct(name, fields + [(link, pn)])
        s.types[pn-1] = {'k': 'ptr', 'of': t}
        s.tix[json.dumps([{'k': 'ptr', 'of': t}, ''], sort_keys=True)] = pn
        return t, pn
    def tuple(s, ts):
        return s.ty({'k': 'st', 'f': [{'n': f'_{i}', 't': t} for i, t in enumerate(ts)]},
                    '{' + ', '.join(s.tn(t) for t in ts) + '}')
    def fields(s, t): return s.types[t-1]['f']
    def size(s, t): return SIZE.get(s.k(t))
    def isint(s, t): return s.k(t) in INTS or s.k(t) in ('bool', 'char', 'enum')
    def isflt(s, t): return s.k(t) in ('f32', 'f64')

    # --- names, variables, functions
    def node(s, n):
        s.nodes.append(n); return len(s.nodes)
    def fresh(s, pre='v'):
        s.nname += 1; return f'{pre}{s.nname}'
    def newvar(s, t, name=None, glob=False):
        name = name or s.fresh('g' if glob else 'v')
        v = {'t': t, 'f': 0 if glob else s.cur, 'i': 0, 'name': name}
        s.vars.append(v); vid = len(s.vars)
        if glob:
            s.globs.append(vid); v['i'] = len(s.globs)
        else:
            F = s.funs[s.cur-1]; F['vars'].append(vid); v['i'] = len(F['vars'])
        return vid
    def glob(s, t, init=None, name=None, const=False, decl=True):
        v = s.newvar(t, name, True)
        if init is not None:
            st = s.node({'k': 'let', 'v': v, 'e': init.id, 'eff': True}); s.ginit.append(st)
        if decl:
            s.decls.append(f"{'const' if const else 'let'} {s.vars[v-1]['name']}: {s.tn(t)}" + (f' = {init.src}' if init is not None else '') + ';')
        return v
    def declare(s, name, params, ret, src_name=None):
        """params: [(name, type)]; returns function id"""
        F = {'n': name, 'np': len(params), 'vars': [], 'body': 0, 'rt': ret, 'defers': [], 'src': src_name or name}
        s.funs.append(F); f = len(s.funs)
        old, s.cur = s.cur, f
        for n, t in params: s.newvar(t, n)
        s.cur = old
        return f
    def param(s, f, i): return s.var(s.funs[f-1]['vars'][i])
    def define(s, f, body, emit_src=True, directive=''):
        F = s.funs[f-1]; F['body'] = body.id; F['defers'] = [d for d in body.defers]
        if emit_src: s.decls.append(directive + s.fnsrc(f) + ' ' + body.src)
    def fnsrc(s, f, kw='fn '):
        F = s.funs[f-1]
        ps = ', '.join(f"{s.vars[v-1]['name']}: {s.tn(s.vars[v-1]['t'])}" for v in F['vars'][:F['np']])
        r = '' if s.k(F['rt']) == 'void' else f": {s.tn(F['rt'])}"
        return f"{kw}{F['src']}({ps}){r}"
    def infn(s, f):
        p = s
        class C:
            def __enter__(c): c.o = p.cur; p.cur = f
            def __exit__(c, *a): p.cur = c.o
        return C()

    # --- expressions
    def par(s, e, prec):
        return e.src if e.prec >= prec else f'({e.src})'
    def pr(s, e, level): return s.par(e, PREC[level])
    def lit(s, t, v):
        k = s.k(t)
        if k == 'bool': return X(s, {'k': 'lit', 'b': word(v)}, t, 'true' if v else 'false')
        if k == 'char' and v in CHSRC: return X(s, {'k': 'lit', 'b': word(v)}, t, CHSRC[v])
        nat = s.i32 if v <= 2**31-1 and v >= -2**31+1 else s.i64
        if v >= 2**63:            # written as a negative number, cast
            return X(s, {'k': 'lit', 'b': word(v)}, t, f'(-{2**64-v}: {s.tn(t)})') if v > 2**63 else \
                   X(s, {'k': 'lit', 'b': word(v)}, t, f'((-{2**63-1} - 1): {s.tn(t)})')
        if v == -2**63: return X(s, {'k': 'lit', 'b': word(v)}, t, f'((-{2**63-1} - 1): {s.tn(t)})')
        src = str(v)
        if v < 0:
            return X(s, {'k': 'lit', 'b': word(v)}, t, src if t == nat else f'(-{-v}: {s.tn(t)})', 'un' if t == nat else 'atom')
        return X(s, {'k': 'lit', 'b': word(v)}, t, src if t == nat else f'({src}: {s.tn(t)})')
    def flit(s, m, d, t=None, suf=''):
        t = t or s.f32
        ds = str(m).rjust(d+1, '0')
        src = (ds[:-d] + '.' + ds[-d:]) if d else ds + '.0'
        x = X(s, {'k': 'flit', 'm': word(m), 'd': d}, s.f32, src)
        return x if t == s.f32 else s.cast(x, t)
    def var(s, v, src=None):
        return X(s, {'k': 'var', 'v': v}, s.vars[v-1]['t'], src or s.vars[v-1]['name'], lv=True)
    def str_(s, text, src=None):
        b = text.encode('latin1') + b'\0'
        v = s.newvar(s.carr(s.char, len(b)), None, True)
        cl = [s.node({'k': 'lit', 'b': word(c if c < 128 else c - 256), 't': s.char, 'eff': False}) for c in b]
        ini = s.node({'k': 'lits', 'as': cl, 't': s.vars[v-1]['t'], 'eff': False})
        s.ginit.append(s.node({'k': 'let', 'v': v, 'e': ini, 'eff': True}))
        q = s.node({'k': 'var', 'v': v, 't': s.vars[v-1]['t'], 'eff': False})
        return X(s, {'k': 'ref', 'l': q}, s.ptr(s.char), src or quote(text))
    def wider(s, a, b):
        ka, kb = s.k(a), s.k(b)
        return b if SIZE[kb] > SIZE[ka] else a
    def bin(s, op, l, r, t=None, lsrc=None):
        if t is None:
            if op in ('==', '!=', '<', '>', '<=', '>='): t = s.bool
            elif s.k(l.t) == 'ptr': t = l.t
            elif op in ('<<', '>>', '%'): t = l.t
            else: t = s.wider(l.t, r.t)
        ls = s.pr(l, op); rs = s.par(r, PREC[op]+1)
        return X(s, {'k': 'bin', 'op': op, 'l': l.id, 'r': r.id}, t, f'{ls} {op} {rs}', op, l.eff or r.eff)
    def and_(s, l, r): return X(s, {'k': 'and', 'l': l.id, 'r': r.id}, s.bool, f"{s.pr(l,'&&')} && {s.par(r, PREC['&&']+1)}", '&&', l.eff or r.eff)
    def or_(s, l, r): return X(s, {'k': 'or', 'l': l.id, 'r': r.id}, s.bool, f"{s.pr(l,'||')} || {s.par(r, PREC['||']+1)}", '||', l.eff or r.eff)
    def un(s, k, e):
        t = s.bool if k == 'not' else e.t
        op = {'neg': '-', 'bnot': '~', 'not': '!'}[k]
        es = s.par(e, PREC['un']+1)
        return X(s, {'k': k, 'l': e.id}, t, op + es, 'un', e.eff)
    def cast(s, e, t):
        return X(s, {'k': 'cast', 'l': e.id}, t, f"({s.pr(e,'cast')}: {s.tn(t)})", 'atom', e.eff)
    def conv(s, e, t): return e if e.t == t else s.cast(e, t)
    def asg(s, l, r):
        return X(s, {'k': 'asg', 'l': l.id, 'r': r.id}, l.t, f'{l.src} = {r.src}', 'asg', True)
    def opasg(s, op, l, r):
        t = l.t if op in ('<<', '>>', '%') or s.k(l.t) == 'ptr' else s.wider(l.t, r.t)
        x = X(s, {'k': 'opasg', 'op': op, 'l': l.id, 'r': r.id}, t, f'{l.src} {op}= {r.src}', 'asg', True)
        return x
    def inc(s, l, k='inc'):
        return X(s, {'k': k, 'l': l.id}, l.t, s.par(l, PREC['inc']) + {'inc': '++', 'dec': '--'}[k], 'inc', True)
    def tern(s, c, a, b):
        return X(s, {'k': 'tern', 'c': c.id, 'l': a.id, 'r': b.id}, a.t, f'(if {c.src} => {a.src} else {b.src})', 'atom', c.eff or a.eff or b.eff)
    def els(s, a, b):
        return X(s, {'k': 'els', 'l': a.id, 'r': b.id}, a.t, f"{s.pr(a,'els')} else {s.par(b, PREC['els']+1)}", 'els', a.eff or b.eff)
    def call(s, f, args, src=None, prec='post'):
        F = s.funs[f-1]
        return X(s, {'k': 'call', 'f': f, 'as': [a.id for a in args]}, F['rt'],
                 src or f"{F['src']}({', '.join(a.src for a in args)})", prec, True)
    def callp(s, e, args, src=None):
        return X(s, {'k': 'callp', 'l': e.id, 'as': [a.id for a in args]}, s.types[e.t-1]['ret'],
                 src or f"{s.pr(e,'post')}({', '.join(a.src for a in args)})", 'post', True)
    def fn(s, f, src=None, const=True):
        F = s.funs[f-1]
        t = s.fnty([s.vars[v-1]['t'] for v in F['vars'][:F['np']]], F['rt'], const)
        return X(s, {'k': 'fn', 'f': f}, t, src or F['src'])
    # --- interfaces
    def interface(s, name, methods, alias=None):
        """methods [(name, [types], result)] -> the type of values with this interface"""
        s.ifaces.append((name, methods, {})); i = len(s.ifaces)
        def sig(m, a, r): return f"    fn {m}(self: &{name}" + ''.join(f', x{j}: {s.tn(t)}' for j, t in enumerate(a)) + ')' + ('' if s.k(r) == 'void' else f': {s.tn(r)}')
        s.decls.append(f'type {name}: interface {{\n' + ',\n'.join(sig(*m) for m in methods) + '\n};')
        if alias: s.decls.append(f'type {alias}: dyn {name};')
        return s.ty({'k': 'dyn', 'i': i}, alias or f'dyn {name}')
    def iface(s, t): return s.ifaces[s.types[t-1]['i'] - 1]
    def implement(s, t, base, mk, order=None, alias=False, ialias=False):
        """the functions of type base for t: mk(method, f) builds the body"""
        name, ms, done = s.iface(t); ns = s.fresh('Impl'); fs = []
        for m, a, r in ms: fs.append(s.declare(m, [('self', s.ptr(base))] + [(f'x{j}', q) for j, q in enumerate(a)], r))
        s.impls.append(fs); done[base] = len(s.impls)
        src = []
        for i in order or range(len(ms)):
            with s.infn(fs[i]): body = mk(ms[i], fs[i])
            s.define(fs[i], body, False); h = s.fnsrc(fs[i])
            if alias: h = h.replace(f'(self: {s.tn(s.ptr(base))}', f'(self: &T{ns}', 1)
            src.append(f'    dyn({"D" + ns if ialias else name}) ' + h + ' ' + body.src)
        if alias: s.decls.append(f'type T{ns}: {s.tn(base)};')
        if ialias: s.decls.append(f'type D{ns}: {name};')
        s.decls.append(f'namespace {ns} {{\n' + '\n'.join(src) + '\n}')
        return fs
    def dyn(s, t, e, explicit=False):
        return X(s, {'k': 'dyn', 'l': e.id, 'vt': s.iface(t)[2][s.of(e.t)]}, t, f"({s.pr(e,'cast')}: {s.tn(t)})" if explicit else e.src, 'atom' if explicit else 'asg', e.eff)
    def method(s, l, name):
        ms = s.iface(l.t)[1]; i = [m[0] for m in ms].index(name)
        return X(s, {'k': 'meth', 'l': l.id, 'i': i + 1}, s.ty({'k': 'fn', 'args': [], 'ret': ms[i][2], 'c': True}, 'fn ' + name), f"{s.pr(l,'post')}.{name}", 'post', l.eff)
    def undyn(s, l): return X(s, {'k': 'undyn', 'l': l.id}, s.ptr(s.i32), l.src, 'asg', l.eff)
    def dcall(s, l, name, args):
        ms = s.iface(l.t)[1]; i = [m[0] for m in ms].index(name)
        return X(s, {'k': 'mcall', 'i': i + 1, 'as': [l.id] + [a.id for a in args]}, ms[i][2],
                 f"{s.pr(l,'post')}.{name}({', '.join(a.src for a in args)})", 'post', True)
    def ref(s, l): return X(s, {'k': 'ref', 'l': l.id}, s.ptr(l.t), '&' + s.par(l, PREC['un']+1), 'un', l.eff)
    def deref(s, e): return X(s, {'k': 'deref', 'l': e.id}, s.of(e.t), '*' + s.par(e, PREC['un']+1), 'un', e.eff, lv=True)
    def idx(s, l, i, back=False):
        return X(s, {'k': 'idx', 'l': l.id, 'r': i.id, 'bk': back}, s.of(l.t), f"{s.pr(l,'post')}[{'^' if back else ''}{i.src}]", 'post', l.eff or i.eff, lv=True)
    def mem(s, l, name):
        src = f"{s.pr(l,'post')}.{name}"
        if s.k(l.t) == 'ptr':          # `.` looks through pointers
            l = X(s, {'k': 'deref', 'l': l.id}, s.of(l.t), l.src, 'atom', l.eff, lv=True)
        fs = s.fields(l.t)
        m = [i for i, f in enumerate(fs) if f['n'] == name][0] + 1
        return X(s, {'k': 'mem', 'l': l.id, 'm': m, 'lv': l.lv}, fs[m-1]['t'], src, 'post', l.eff, lv=l.lv)
    def lits(s, t, es, src=None):
        k = s.k(t)
        body = ', '.join(e.src for e in es)
        src = src or (f'[{body}]' if k in ('arr', 'carr') else f'{{{body}}}' if s.tn(t).startswith('{') else f'{s.tn(t)}::{{{body}}}')
        return X(s, {'k': 'lits', 'as': [e.id for e in es]}, t, src, 'atom', any(e.eff for e in es))
    def clos(s, es):
        return X(s, {'k': 'clos', 'as': [e.id for e in es]}, es[-1].t, '(' + ', '.join(e.src for e in es) + ')', 'atom', any(e.eff for e in es))
    def len_(s, e): return X(s, {'k': 'len', 'l': e.id}, s.u64, f'(len {e.src})', 'atom', e.eff)
    def szof(s, t): return X(s, {'k': 'szof', 'ty': t}, s.u64, f'(sizeof {s.tn(t)})', 'atom')
    def lambda_(s, params, ret, mk, short=False, const=False):
        """mk() builds the body inside the new function; returns the lambda expression"""
        f = s.declare(s.fresh('lambda'), params, ret)
        with s.infn(f): body = mk(f)
        ps = ', '.join(f'{n}: {s.tn(t)}' for n, t in params)
        r = '' if s.k(ret) == 'void' else ' ' + s.tn(ret)
        if short:        # body is an expression
            bs = s.ret(body); s.define(f, bs, False); tail = f' = {body.src}'
        else:
            s.define(f, body, False); tail = f' => {body.src}'
        return s.fn(f, ('const ' if const else '') + (f'|{ps}|' if params else '||') + r + tail, const)
    def pipe(s, l, mkr, right_src=None):
        """mkr(hole) builds the right-hand side; hole.src is `$`"""
        v = s.newvar(l.t)
        h = s.var(v, '$')
        r = mkr(h)
        return X(s, {'k': 'pipe', 'l': l.id, 'r': r.id, 'v': v}, r.t, f"{s.pr(l,'pipe')} |> {right_src or s.par(r, PREC['pipe']+1)}", 'pipe', True)

    # --- statements
    def expr(s, e): return S(s, {'k': 'expr', 'e': e.id}, e.src + ';')
    def let(s, v, e, typed=True):
        V = s.vars[v-1]
        return S(s, {'k': 'let', 'v': v, 'e': e.id}, f"let {V['name']}{': ' + s.tn(V['t']) if typed else ''} = {e.src};")
    def decl(s, v):
        V = s.vars[v-1]
        return S(s, {'k': 'noop'}, f"let {V['name']}: {s.tn(V['t'])};")
    def block(s, ss, ls=()):
        d = [x for st in ss for x in st.defers]
        return S(s, {'k': 'block', 'ss': [x.id for x in ss], 'ls': list(ls)}, '{\n' + ind('\n'.join(x.src for x in ss)) + '\n}', d)
    def noop(s): return S(s, {'k': 'noop'}, 'noop;')
    def if_(s, c, a, b=None):
        return S(s, {'k': 'if', 'c': c.id, 'a': a.id, 'b': b.id if b else 0}, f'if {c.src} {a.src}' + (f' else {b.src}' if b else ''), a.defers + (b.defers if b else []))
    def while_(s, c, b): return S(s, {'k': 'while', 'c': c.id, 'b': b.id}, f'while {c.src} {b.src}', b.defers)
    def dowhile(s, b, c): return S(s, {'k': 'dowhile', 'c': c.id, 'b': b.id}, f"do {b.src.rstrip(';')} while {c.src};", b.defers)
    def dounless(s, b, c): return S(s, {'k': 'dounless', 'c': c.id, 'b': b.id}, f"do {b.src.rstrip(';')} unless {c.src};", b.defers)
    def loop(s, b): return S(s, {'k': 'loop', 'b': b.id}, f'loop {b.src}', b.defers)
    def for_(s, i, c, st, b):
        return S(s, {'k': 'for', 'i': i.id if i else 0, 'c': c.id if c else 0, 's': st.id if st else 0, 'b': b.id},
                 f"for {i.src if i else ';'} {c.src if c else ''}; {st.src if st else ''}; {b.src}", b.defers)
    def forr(s, lo, hi, b): return S(s, {'k': 'forr', 'l': lo.id, 'r': hi.id, 'b': b.id}, f'for {lo.src} .. {hi.src} {b.src}', b.defers)
    def match(s, e, cases, dflt=None):
        cs = [{'op': op, 'v': v.id, 'b': b.id} for op, v, b in cases]
        lines = [f"{'' if op == '==' else op + ' '}{v.src} => {b.src}" for op, v, b in cases]
        if dflt: lines.append(f'_ => {dflt.src}')
        return S(s, {'k': 'match', 'c': e.id, 'cs': cs, 'd': dflt.id if dflt else 0}, f'match {e.src} {{\n' + ind('\n'.join(lines)) + '\n}')
    def ret(s, e=None):
        return S(s, {'k': 'ret', 'e': e.id if e else 0}, f'<- {e.src};' if e else '<- ;')
    def brk(s): return S(s, {'k': 'break'}, 'break;')
    def cont(s): return S(s, {'k': 'continue'}, 'continue;')
    def defer(s, b): return S(s, {'k': 'defer', 'b': b.id}, f'defer {b.src}', [b.id])
    def with_(s, v, e, drop, body, els=None, typed=True):
        """with v = e body else els; drop is the function registered for the type of v"""
        V = s.vars[v-1]; x = s.var(v)
        d = s.expr(s.call(drop, [x]))
        return S(s, {'k': 'with', 'v': v, 'e': e.id, 'x': x.id, 'b': body.id, 'd': d.id, 'el': els.id if els else 0},
                 f"with {V['name']}{': ' + s.tn(V['t']) if typed else ''} = {e.src} {body.src}" + (f' else {els.src}' if els else ''), body.defers + (els.defers if els else []))
    def emit(s, e, what=''):
        """print the storage of lvalue e"""
        s.ntag += 1; s.tags[s.ntag] = what or e.src
        return S(s, {'k': 'emit', 'e': e.id, 'ty': e.t, 'tag': s.ntag}, f'emit({s.ref(e).src}, {SIZE[s.k(e.t)]});')
    def emitp(s, e, n, what=''):
        s.ntag += 1; s.tags[s.ntag] = what or e.src
        return S(s, {'k': 'emitp', 'e': e.id, 'n': n, 'ty': 1, 'tag': s.ntag}, f'emit({e.src}, {n});')
    def show(s, e, t=None, what=''):
        """let fresh: T = e; emit(fresh) as one block"""
        v = s.newvar(t or e.t)
        return s.block([s.let(v, e), s.emit(s.var(v), what or e.src)], [v])
    def show_flat(s, e, t=None, what=''):
        """the same two statements, to be put into an enclosing block; returns (stmts, locals)"""
        v = s.newvar(t or e.t)
        return [s.let(v, e), s.emit(s.var(v), what or e.src)], [v]

    def finish_main(s, body, ret=0):
        f = s.declare('main', [], s.i32)
        return f
    def set_main(s, f):
        s.main = s.node({'k': 'call', 'f': f, 'as': [], 't': s.funs[f-1]['rt'], 'eff': True})

    PRELUDE_ASM = '''fn emit(p: &void, n: u64) {
    asm "mov " p ", %rsi;"
        "mov " n ", %rdx;"
        "mov $1, %rdi;"
        "mov $1, %rax;"
        "syscall";
}
'''
    PRELUDE_C = '''extern "C" {
    fn fwrite(p: &void, n: u64, m: u64, f: &void): u64;
    let stdout: &void;
}
fn emit(p: &void, n: u64) { fwrite(p, n, 1: u64, stdout); }
'''
    def source(s, backend='asm'):
        pre = s.PRELUDE_C if backend == 'c' else s.PRELUDE_ASM if backend == 'asm' else ''
        return pre + '\n' + '\n'.join(s.decls) + '\n'
    def tojson(s, out, code):
        # pu: evaluating the node changes nothing that can be seen (calls of functions marked pure)
        for n in s.nodes:
            if 't' not in n: continue
            if n['k'] in ('asg', 'opasg', 'inc', 'dec', 'callp', 'mcall', 'pipe'): n['pu'] = False
            elif n['k'] == 'call' and not s.funs[n['f']-1].get('pure'): n['pu'] = False
            else: n['pu'] = all(s.nodes[c-1].get('pu', True) for c in [n[x] for x in ('l', 'r', 'c') if isinstance(n.get(x), int)] + n.get('as', []))
        return {'id': s.pid, 'types': s.types, 'vars': [{'t': v['t'], 'f': v['f'], 'i': v['i']} for v in s.vars],
                'funs': [{k: F[k] for k in ('n', 'np', 'vars', 'body', 'rt', 'defers')} for F in s.funs],
                'impls': s.impls, 'globs': s.globs, 'nodes': s.nodes, 'ginit': s.ginit, 'pre': s.pre, 'main': s.main,
                'out': list(out), 'exit': code}

CHSRC = {c: f"'{chr(c)}'" for c in range(32, 127) if chr(c) not in "'\\"}
CHSRC.update({10: r"'\n'", 9: r"'\t'", 0: r"'\0'", 13: r"'\r'", 92: r"'\\'", 39: r"'\''"})
def quote(text):
    r = ''
    for c in text:
        r += {'\n': r'\n', '\t': r'\t', '"': r'\"', '\\': r'\\', '\0': r'\0', '\r': r'\r'}.get(c, c)
    return '"' + r + '"'
