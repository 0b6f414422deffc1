"""More program families: control flow, functions, memory, side effects."""
import random
from csp import *
from gen import G, IT, irange, boundary

I4 = ['i32', 'u32', 'i64', 'u64']

class H(G):
    """G with statements, functions and a trace byte"""
    def __init__(s, rng, pid, mode='asm'):
        super().__init__(rng, pid, mode)
        s.tr = s.p.glob(s.p.u8, name='trace')
        s.nt = 0
        s.funcs = []              # callable functions
        s.effs = {}
        s.cbudget = 0
    def tick(s, n=None):
        s.nt = (s.nt + 1) % 256
        p = s.p
        s.ss += [p.expr(p.asg(p.var(s.tr), p.lit(p.u8, s.nt if n is None else n))), p.emit(p.var(s.tr), 'trace')]
    def L(s, n, k='i32'): return s.p.lit(s.T(k), n)
    # a function with a visible effect: writes its first argument's low byte, returns the argument
    def efn(s, t):
        if t not in s.effs:
            p = s.p
            f = p.declare(f'eff_{len(s.effs)}', [('n', p.u8), ('x', t)], t)
            with p.infn(f):
                b = p.block([p.expr(p.asg(p.var(s.tr), p.param(f, 0))), p.emit(p.var(s.tr), 'effect'), p.ret(p.param(f, 1))])
            p.define(f, b); s.effs[t] = f
        return s.effs[t]
    def eff(s, e, n=None):
        s.nt = (s.nt + 1) % 256
        return s.p.call(s.efn(e.t), [s.p.lit(s.p.u8, s.nt if n is None else n), e])
    def body(s, build):
        """a block from build()"""
        with s.scope(): build()
        return s.block
    # ---------------------------------------------------------- random statements
    def leaf(s, t):
        if s.cbudget > 0 and s.r.random() < .25:
            fs = [f for f in s.funcs if s.p.funs[f-1]['rt'] == t]
            if fs:
                s.cbudget -= 1
                return s.callrand(s.r.choice(fs))
        return super().leaf(t)
    def callrand(s, f):
        F = s.p.funs[f-1]
        return s.p.call(f, [s.arg(s.p.vars[v-1]['t']) for v in F['vars'][:F['np']]])
    def arg(s, t):
        k = s.p.k(t)
        if k in ('st',) or k == 'ptr':
            return s.r.choice(s.lv[t])
        if s.p.isflt(t): return super().leaf(t)
        if s.narrow(k) or k in ('bool', 'char'): return super().leaf(t)
        return s.int_(t, 1)
    def stmts(s, n, d, inloop=False, infn=None):
        for _ in range(n): s.stmt(d, inloop, infn)
    def target(s):
        """an assignable integer lvalue"""
        cs = [x for t, v in s.lv.items() for x in v if s.p.k(t) in IT and x.src not in s.protect]
        return s.r.choice(cs) if cs else None
    protect = frozenset()
    def stmt(s, d, inloop=False, infn=None):
        r, p = s.r, s.p
        x = r.random()
        s.cbudget = 1
        if d <= 0 or x < .45:
            y = r.random()
            tg = s.target()
            if y < .2: s.tick()
            elif y < .6 and tg is not None:
                s.ss.append(p.expr(p.asg(tg, s.int_(tg.t, 0 if s.narrow(p.k(tg.t)) else 2))))
                s.ss.append(p.emit(tg))
            elif y < .75 and tg is not None:
                s.cbudget = 0
                s.ss.append(p.expr(p.opasg(r.choice(['+', '-', '^', '|', '&']), tg, s.int_(tg.t, 0 if s.narrow(p.k(tg.t)) else 1))))
                s.ss.append(p.emit(tg))
            elif y < .85 and tg is not None:
                s.ss.append(p.expr(p.inc(tg, r.choice(['inc', 'dec'])))); s.ss.append(p.emit(tg))
            elif s.funcs and y < .95:
                s.ss.append(p.expr(s.callrand(r.choice(s.funcs))))
            else: s.addvar(s.T(r.choice(IT)), None if False else super().leaf(s.T('i32')) if False else s.lvinit())
        elif x < .6:
            c = s.cond(2)
            with s.scope(): s.stmts(r.randint(1, 3), d-1, inloop, infn)
            a = s.block; b = None
            if r.random() < .5:
                with s.scope(): s.stmts(r.randint(1, 2), d-1, inloop, infn)
                b = s.block
            s.ss.append(p.if_(c, a, b))
        elif x < .82: s.loop_(d, infn)
        elif x < .92: s.match_(d, inloop, infn)
        elif inloop and x < .97:
            s.cbudget = 0
            s.ss.append(p.if_(s.cond(1), p.block([p.brk(s_) if False else r.choice([p.brk, p.cont])()])))
        else:
            with s.scope(): s.stmts(r.randint(1, 2), d-1, inloop, infn)
            s.ss.append(s.block)
    def lvinit(s):
        k = s.r.choice(IT); s.lastk = k
        return super().leaf(s.T(k))
    def addvar(s, t, e=None, name=None):
        if e is not None and e.t != t: t = e.t
        return super().addvar(t, e, name)
    def loop_(s, d, infn):
        r, p = s.r, s.p
        kind = r.choice(['while', 'for', 'dowhile', 'loop', 'forr', 'dounless', 'for'])
        n = r.randint(0, 3)
        k = r.choice(I4) ; t = s.T(k)
        i = p.newvar(t); s.ls.append(i); iv = p.var(i)
        old = s.protect; s.protect = s.protect | {iv.src}
        def inner():
            s.lv.setdefault(t, []).append(iv)
            s.stmts(r.randint(1, 3), d-1, True, infn)
        if kind == 'while':
            s.ss.append(p.let(i, p.lit(t, 0)))
            with s.scope():
                s.ss.append(p.expr(p.inc(iv))); inner()
            s.ss.append(p.while_(p.bin('<', iv, p.lit(t, n)), s.block))
        elif kind == 'for':
            with s.scope(): inner()
            up = r.random() < .5 or k[0] == 'u'
            s.ss.append(p.for_(p.let(i, p.lit(t, 0 if up else n)), p.bin('<' if up else '>', iv, p.lit(t, n if up else 0)),
                               p.inc(iv, 'inc' if up else 'dec'), s.block))
        elif kind == 'dowhile':
            s.ss.append(p.let(i, p.lit(t, 0)))
            with s.scope():
                s.ss.append(p.expr(p.inc(iv))); inner()
            s.ss.append(p.dowhile(s.block, p.bin('<', iv, p.lit(t, n))))
        elif kind == 'loop':
            s.ss.append(p.let(i, p.lit(t, 0)))
            with s.scope():
                s.ss.append(p.expr(p.inc(iv)))
                s.ss.append(p.if_(p.bin('>', iv, p.lit(t, n)), p.block([p.brk()])))
                inner()
            s.ss.append(p.loop(s.block))
        elif kind == 'forr':
            s.ss.append(p.let(i, p.lit(t, 0)))
            with s.scope(): inner()
            lo = r.randint(-2, 2)
            s.ss.append(p.forr(s.L(lo), s.L(lo + r.randint(-1, 3)), s.block))
        else:
            c = s.cond(1)
            s.ss.append(p.let(i, p.lit(t, 0)))
            with s.scope(): inner_ = s.stmts(r.randint(1, 2), d-1, False, infn) if False else s.stmts(1, 0)
            s.ss.append(p.dounless(s.block, c))
        s.protect = old
    def match_(s, d, inloop, infn):
        r, p = s.r, s.p
        t = s.T(r.choice(I4))
        e = s.int_(t, 1)
        if r.random() < .7 and not e.eff: e = p.bin('%', e, p.lit(t, 4)) if not s.narrow(p.k(t)) else e
        cases = []
        for _ in range(r.randint(1, 4)):
            with s.scope(): s.tick(); s.stmts(r.randint(0, 1), d-1, False if True else inloop, infn)
            cases.append((r.choice(['==', '==', '==', '<', '>', '<=', '>=']), p.lit(t, r.randint(0, 4)), s.block))
        df = None
        if r.random() < .6:
            with s.scope(): s.tick()
            df = s.block
        s.ss.append(p.match(e, cases, df))
    def globals_(s):
        p = s.p
        for k in s.r.sample(IT, 4):
            gv = p.glob(s.T(k)); s.lv.setdefault(s.T(k), []).append(p.var(gv))
    def dump(s):
        p = s.p
        for v in p.globs:
            if p.k(p.vars[v-1]['t']) in SIZE and p.vars[v-1]['name'].startswith('g'): s.ss.append(p.emit(p.var(v)))

# ---------------------------------------------------------------- control flow
def control_programs(rng, n, mode='asm'):
    out = []
    # every loop form, with break / continue / return at every iteration, inside if / match / nested loop
    def loopform(g, form, body, n=3, kind='i32'):
        p = g.p; t = g.T(kind); i = p.newvar(t); g.ls.append(i); iv = p.var(i)
        if form == 'for': return iv, [lambda: p.for_(p.let(i, p.lit(t, 0)), p.bin('<', iv, p.lit(t, n)), p.inc(iv), g.body(lambda: body(iv)))]
        pre = [p.let(i, p.lit(t, -1 if kind[0] == 'i' else 0))]
        def inc_body():
            g.ss.append(p.expr(p.inc(iv))); body(iv)
        c = p.bin('<', iv, p.lit(t, n-1))
        if form == 'while': return iv, pre + [lambda: p.while_(c, g.body(inc_body))]
        if form == 'dowhile': return iv, pre + [lambda: p.dowhile(g.body(inc_body), c)]
        if form == 'forr': return iv, pre + [lambda: p.forr(p.lit(p.i32, -1), p.lit(p.i32, n-1), g.body(inc_body))]
        if form == 'loop':
            def b2():
                g.ss.append(p.if_(p.bin('>=', iv, p.lit(t, n-1)), p.block([p.brk()]))); inc_body()
            return iv, pre + [lambda: p.loop(g.body(b2))]
        if form == 'forever':          # for without any part
            def b2():
                g.ss.append(p.if_(p.bin('>=', iv, p.lit(t, n-1)), p.block([p.brk()]))); inc_body()
            return iv, pre + [lambda: p.for_(None, None, None, g.body(b2))]
    forms = ['for', 'while', 'dowhile', 'forr', 'loop', 'forever']
    if mode != 'asm': forms.remove('forever')
    for form in forms:
        for jump in ('none', 'break', 'continue', 'return'):
            g = H(rng, f'ctl_{form}_{jump}', mode); p = g.p
            fns = []
            for where in ('if', 'else', 'match', 'block', 'nested'):
                f = p.declare(f'f_{where}', [('at', p.i32)], p.i32)
                with p.infn(f):
                    def build():
                        at = p.param(f, 0)
                        def J():
                            return {'none': p.noop, 'break': p.brk, 'continue': p.cont, 'return': lambda: p.ret(g.L(77))}[jump]()
                        def body(iv):
                            g.tick(1); g.ss.append(p.emit(iv))
                            c = p.bin('==', iv, at)
                            if where == 'if': g.ss.append(p.if_(c, p.block([J()])))
                            elif where == 'else':
                                with g.scope(): g.tick(3)
                                g.ss.append(p.if_(p.un('not', c), g.block, p.block([J()])))
                            elif where == 'match':
                                if jump in ('break',):     # break inside match is its own question
                                    g.ss.append(p.if_(c, p.block([J()])))
                                else: g.ss.append(p.match(iv, [('<', at, p.block([p.noop()])), ('==', at, p.block([J()]))], p.block([p.noop()])))
                            elif where == 'block': g.ss.append(p.block([p.if_(c, p.block([p.block([J()])]))]))
                            else:
                                iv2, ss = loopform(g, rng.choice(forms), lambda iv2: (g.tick(9), g.ss.append(p.emit(iv2)), g.ss.append(p.if_(p.bin('==', iv2, at), p.block([J()])))), 2)
                                for x in ss: g.ss.append(x() if callable(x) else x)
                            g.tick(2)
                        iv, ss = loopform(g, form, body)
                        for x in ss: g.ss.append(x() if callable(x) else x)
                        g.tick(4)
                        g.ss.append(p.ret(g.L(5)))
                    build(); b = g.take()
                p.define(f, b); fns.append(f)
            def build():
                for f in fns:
                    for at in (-1, 0, 1, 2):
                        g.show(p.bin('+', p.call(f, [g.L(at)]), p.call(f, [g.L(at)]) if at == 1 and form == 'forr' else g.L(0)))
            out.append(g.main(build))
    # every loop inside every loop: jumps inside the inner statement, jumps right after it
    for outer in forms:
        for inner in forms + ['match', 'dounless', 'if', 'block']:
            g = H(rng, f'ctl_nest_{outer}_{inner}', mode); p = g.p
            fns = []
            jumps = ['none', 'break', 'return'] + (['continue'] if inner not in ('match',) or True else [])
            combos = [(a, b) for a in jumps for b in ('break', 'continue', 'return')]
            for a, b in combos:
                f = p.declare(f'f_{a}_{b}', [('at', p.i32), ('in', p.i32)], p.i32)
                J = lambda j, n: {'none': p.noop, 'break': p.brk, 'continue': p.cont, 'return': lambda: p.ret(g.L(n))}[j]()
                with p.infn(f):
                    at, in_ = p.param(f, 0), p.param(f, 1)
                    def body(iv):
                        g.ss.append(p.emit(iv))
                        def jin(x): g.ss.append(p.if_(p.bin('==', x, in_), p.block([J(a, 70)]))); g.tick(2)
                        if inner in forms:
                            iv2, ss = loopform(g, inner, jin, 2)
                            for x in ss: g.ss.append(x() if callable(x) else x)
                        elif inner == 'match': g.ss.append(p.match(iv, [('==', g.L(1), g.body(lambda: jin(g.L(0))))], g.body(lambda: jin(g.L(1)))))
                        elif inner == 'dounless': g.ss.append(p.dounless(g.body(lambda: jin(iv)), p.bin('==', iv, g.L(1))))
                        elif inner == 'if': g.ss.append(p.if_(p.bin('==', iv, g.L(1)), g.body(lambda: jin(g.L(0))), g.body(lambda: jin(g.L(1)))))
                        else: g.ss.append(g.body(lambda: jin(iv)))
                        g.ss.append(p.if_(p.bin('==', iv, at), p.block([J(b, 80)])))
                        g.tick(3)
                    iv, ss = loopform(g, outer, body)
                    for x in ss: g.ss.append(x() if callable(x) else x)
                    g.tick(4); g.ss.append(p.ret(g.L(5)))
                    bl = g.take()
                p.define(f, bl); fns.append(f)
            def build():
                for f in fns:
                    for at, in_ in ((0, 0), (1, 1), (1, 0), (2, 1)): g.show(p.call(f, [g.L(at), g.L(in_)]))
            out.append(g.main(build))
    if mode == 'asm':
        # defer: run when the function is left, whichever way, after the result is computed and without changing it
        for k in ('i32', 'u8', 'i64', 'f32', 'f64', 'st8', 'st16', 'stf', 'st24', 'void'):
            g = F(rng, f'ctl_defer_{k}', mode); p = g.p
            st = {'st8': [('a', p.u8), ('b', p.i32)], 'st16': [('a', p.i64), ('b', p.i32), ('c', p.u8)], 'stf': [('a', p.f64), ('b', p.f32), ('c', p.i32)],
                  'st24': [('a', p.i64), ('b', p.f64), ('c', p.u16)]}.get(k)
            t = p.struct('S', st) if st else g.T(k)
            gv = p.glob(p.i32)
            h = p.declare('other', [('x', p.f64), ('y', p.i64)], p.f64)
            with p.infn(h): g.tick(50); g.ss.append(p.ret(p.bin('*', p.param(h, 0), p.flit(25, 1, p.f64)))); b = g.take()
            p.define(h, b)
            fns = []
            for j in range(3):
                f = p.declare(f'f{j}', [('at', p.i32)], t)
                with p.infn(f):
                    at = p.param(f, 0)
                    if k != 'void': r1 = g.newfilled(t); r2 = g.newfilled(t)
                    R = lambda x=None: p.ret() if k == 'void' else p.ret(x)
                    for d in range(j + 1):
                        with g.scope():
                            g.tick(10 + d); g.ss.append(p.expr(p.inc(p.var(gv)))); g.ss.append(p.emit(p.var(gv)))
                            if d: g.show(p.call(h, [p.flit(3 + d, 1, p.f64), p.lit(p.i64, 99)]))
                            if k != 'void':
                                for x in g.parts(r1): g.ss.append(p.expr(p.asg(x, g.const(x.t))))      # too late to matter
                        g.ss.append(p.defer(g.block))
                        g.ss.append(p.if_(p.bin('==', at, g.L(d)), p.block([R(r2 if k != 'void' else None)])))
                    c = p.newvar(p.i32); g.ls.append(c); cv = p.var(c)
                    g.ss.append(p.for_(p.let(c, g.L(0)), p.bin('<', cv, g.L(3)), p.inc(cv), p.block([p.if_(p.bin('==', p.bin('+', cv, g.L(10)), at), p.block([R(r2 if k != 'void' else None)]))])))
                    g.tick(20)
                    if k != 'void' and not st: g.ss.append(p.ret(r1))
                    elif st: g.ss.append(p.ret(r2))
                    b = g.take()
                p.define(f, b); fns.append(f)
            def build():
                keep = g.newfilled(p.i32)
                for f in fns:
                    for at in (0, 1, 2, 10, 11, 12, 99):
                        if k == 'void': g.ss.append(p.expr(p.call(f, [g.L(at)]))); continue
                        with g.scope(): r = g.addvar(t, p.call(f, [g.L(at)])); g.emits(r)
                        g.ss.append(g.block)
                g.emits(keep); g.ss.append(p.emit(p.var(gv)))
            out.append(g.main(build))
        # with: the exit function runs exactly when the value was not zero
        for k in ('i32', 'u8', 'i64', 'ptr'):
            g = F(rng, f'ctl_with_{k}', mode); p = g.p
            base = p.struct('Res', [('id', p.i32), ('n', p.i64)]) if k == 'ptr' else g.T(k)
            t = p.ptr(base) if k == 'ptr' else base
            dr = p.declare('drop', [('r', t)], p.void)
            with p.infn(dr):
                g.tick(200)
                g.ss.append(p.emit(p.mem(p.deref(p.param(dr, 0)), 'id') if k == 'ptr' else p.param(dr, 0)))
                b = g.take()
            p.define(dr, b, directive='[drop]\n')
            def build():
                vals = [p.ref(g.newfilled(base)), p.cast(g.L(0), t), p.ref(g.newfilled(base))] if k == 'ptr' else [p.lit(t, x) for x in (5, 0, irange(k)[1], 1)]
                for a in vals:
                    for b_ in vals[:2]:
                        for form in range(3):
                            v = p.newvar(t); g.ls.append(v); w = p.newvar(t); g.ls.append(w)
                            def inner():
                                g.tick(1)
                                if form: g.ss.append(p.with_(w, b_, dr, g.body(lambda: (g.tick(2), None)), g.body(lambda: g.tick(3)) if form == 2 else None))
                                g.tick(4)
                            g.ss.append(p.with_(v, a, dr, g.body(inner), g.body(lambda: g.tick(5)) if form != 1 else None))
                            g.tick(6)
                it = p.newvar(p.i32); g.ls.append(it); iv = p.var(it)
                v = p.newvar(t); g.ls.append(v)
                with g.scope(): g.ss.append(p.with_(v, vals[0], dr, g.body(lambda: g.ss.append(p.emit(iv))), None))
                g.ss.append(p.for_(p.let(it, g.L(0)), p.bin('<', iv, g.L(3)), p.inc(iv), g.block))
            out.append(g.main(build))
    # bounds of a range loop
    for k in ('i32', 'i64', 'u32'):
        g = H(rng, f'ctl_range_{k}', mode); p = g.p; t = g.T(k)
        def build():
            vals = [0, 1, 3, 10] + ([-3, -1] if k[0] == 'i' else [])
            for a in vals:
                for b in vals:
                    if b - a > 6: continue
                    x = g.addvar(t, p.lit(t, a)); y = g.addvar(t, p.lit(t, b)); c = g.addvar(p.i32, g.L(0))
                    # the bounds are computed once
                    g.ss.append(p.forr(x, y, p.block([p.expr(p.inc(c)), p.expr(p.asg(y, p.lit(t, a))), p.expr(p.asg(x, p.lit(t, b)))])))
                    g.ss.append(p.emit(c, f'for {a} .. {b}'))
        out.append(g.main(build))
    # match: order of the cases, every operator, every type, no case, default only
    for k in IT + ['char', 'bool']:
        g = H(rng, f'ctl_match_{k}', mode); p = g.p; t = g.T(k)
        def build():
            vs = [0, 1] if k == 'bool' else [48, 65, 97, 122] if k == 'char' else rng.sample(boundary(k), 5) + [0, 1, 2]
            x = g.addvar(t)
            for v in vs:
                g.ss.append(p.expr(p.asg(x, p.lit(t, v))))
                for _ in range(4 if k not in ('bool',) else 2):
                    cases = []
                    for _ in range(rng.randint(1, 4)):
                        op = rng.choice(['==', '==', '<', '>', '<=', '>=']) if k != 'bool' else '=='
                        if g.safe and False: op = '=='
                        cv = v if rng.random() < .3 else rng.choice(vs)
                        cases.append((op, p.lit(t, cv), g.body(g.tick)))
                    df = g.body(g.tick) if rng.random() < .5 else None
                    g.ss.append(p.match(x, cases, df)); g.tick()
        out.append(g.main(build))
    # conditions of every type and form
    for k in IT + ['bool', 'char', 'ptr']:
        g = H(rng, f'ctl_cond_{k}', mode); p = g.p
        t = p.ptr(p.i32) if k == 'ptr' else g.T(k)
        def build():
            w = g.addvar(p.i32, g.L(1))
            x0 = g.addvar(t)
            vs = [p.cast(g.L(0), t), p.ref(w)] if k == 'ptr' else \
                 [p.lit(t, v) for v in ([0, 1] if k == 'bool' else [0, 97] if k == 'char' else [0, 1, 2, irange(k)[1], irange(k)[0], 256 if SIZE[k] > 1 else 128 if k == 'u8' else -128, 65536 if SIZE[k] > 2 else 3, 2**32 if SIZE[k] > 4 else 4])]
            for v in vs:
                x = x0; g.ss.append(p.expr(p.asg(x, v)))
                nx = p.un('not', x)
                g.show(nx); g.show(p.un('not', nx))
                if k not in ('bool', 'char', 'ptr'): g.show(p.els(x, p.lit(t, 7)), t)
                if k != 'bool': x = p.un('not', nx)
                g.ss.append(p.if_(x, g.body(g.tick), g.body(g.tick)))
                g.ss.append(p.if_(p.un('not', x), g.body(g.tick)))
                g.show(p.tern(x, g.L(11), g.L(22)))
                g.show(p.and_(x, p.lit(p.bool, 1))); g.show(p.or_(p.lit(p.bool, 0), x)); g.show(p.un('not', x))
                one = g.addvar(p.i32, g.L(0))
                g.ss.append(p.while_(p.and_(x, p.bin('<', one, g.L(2))), p.block([p.expr(p.inc(one))])))
                g.ss.append(p.emit(one, 'while x'))
                g.ss.append(p.dounless(g.body(g.tick), x))
        out.append(g.main(build))
    # random statements
    for i in range(n):
        g = H(rng, f'ctl_rand_{i}', mode); p = g.p
        g.globals_()
        def build():
            for k in rng.sample(IT, 3): g.addvar(g.T(k), p.lit(g.T(k), g.val(k)))
            g.stmts(rng.randint(5, 9), 3)
            g.dump()
        out.append(g.main(build))
    return out

# ---------------------------------------------------------------- functions
SC = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'bool', 'char', 'f32', 'f64']

class F(H):
    """H with structs and values of every type"""
    def __init__(s, rng, pid, mode='asm'):
        super().__init__(rng, pid, mode)
        s.structs = []
    def rstruct(s, depth=1, scalars=None, maxf=4):
        p, r = s.p, s.r
        fs = []
        for i in range(r.randint(1, maxf)):
            y = r.random()
            if depth > 0 and s.structs and y < .2: t = r.choice(s.structs)
            elif y < .3 and depth > 0: t = p.carr(s.T(r.choice(['i32', 'u8', 'i64', 'u16'])), r.randint(1, 3))
            elif y < .36: t = p.ptr(p.i32)
            else: t = s.T(r.choice(scalars or SC))
            fs.append((f'm{i}', t))
        t = p.struct(f'S{len(s.structs)}', fs); s.structs.append(t); return t
    def parts(s, lv):
        """the scalar lvalues inside lvalue lv (pointers left out)"""
        p = s.p; k = p.k(lv.t)
        if k == 'st': return [y for f in p.fields(lv.t) for y in s.parts(p.mem(lv, f['n']))]
        if k in ('carr', 'arr'): return [y for i in range(p.types[lv.t-1]['n']) for y in s.parts(p.idx(lv, p.lit(p.i32, i)))]
        if k in ('ptr', 'fn', 'un', 'vla', 'dyn'): return []
        return [lv]
    def emits(s, lv, what=''):
        for x in s.parts(lv): s.ss.append(s.p.emit(x, what))
    def fill(s, lv):
        for x in s.parts(lv): s.ss.append(s.p.expr(s.p.asg(x, s.const(x.t))))
    def const(s, t):
        p, r = s.p, s.r; k = p.k(t)
        if k in ('f32', 'f64'): return p.flit(r.randint(0, 99999), r.randint(0, 4), t)
        if k == 'bool': return p.lit(t, r.randint(0, 1))
        if k == 'char': return p.lit(t, r.randint(33, 126))
        return p.lit(t, r.choice(boundary(k)) if r.random() < .5 else r.randint(max(irange(k)[0], -10**6), min(irange(k)[1], 10**6)))
    def newfilled(s, t):
        x = s.addvar(t)
        s.fill(x); return x
    def value(s, t):
        """an expression of type t: an existing variable or a constant"""
        vs = s.lv.get(t, [])
        if vs and s.r.random() < .6: return s.r.choice(vs)
        k = s.p.k(t)
        if k == 'st':
            return s.newfilled(t)
        if k == 'ptr':
            e = s.newfilled(s.p.of(t)); return s.p.ref(e)
        return s.const(t)

def call_programs(rng, n, mode='asm'):
    out = []
    # random signatures: every argument arrives, the result comes back, the caller's variables stay
    for i in range(n):
        g = F(rng, f'sig_{i}', mode); p = g.p
        for _ in range(rng.randint(0, 3)): g.rstruct()
        fl = rng.random()
        pool = [g.T(k) for k in (SC if fl < .6 else ['f32', 'f64', 'i32'] if fl < .8 else ['i64', 'u64', 'i32', 'u8'])] + g.structs * 2 + [p.ptr(p.i32)]
        fs = []
        for j in range(rng.randint(1, 3)):
            ps = [(f'a{x}', rng.choice(pool)) for x in range(rng.choice([0, 1, 2, 3, 5, 7, 9, 12]))]
            rt = rng.choice(pool[:-1])
            f = p.declare(f'fn{j}', ps, rt)
            with p.infn(f):
                old = g.lv; g.lv = {}
                pv = [p.param(f, x) for x in range(len(ps))]
                loc = g.newfilled(g.T(rng.choice(IT)))
                for x in pv:
                    g.emits(x, 'parameter')
                    if p.k(x.t) == 'ptr': g.ss.append(p.emit(p.deref(x), '*parameter'))
                if fs and rng.random() < .7:      # call another one in between
                    f2 = rng.choice(fs)
                    for v in pv: g.lv.setdefault(v.t, []).append(v)
                    g.ss.append(p.expr(p.call(f2, [g.value(p.vars[v-1]['t']) for v in p.funs[f2-1]['vars'][:p.funs[f2-1]['np']]])))
                    for x in pv: g.emits(x, 'parameter after a call')
                for x in pv:
                    if p.k(x.t) == 'ptr': g.ss.append(p.expr(p.asg(p.deref(x), g.const(p.i32))))
                same = [x for x in pv if x.t == rt]
                res = rng.choice(same) if same and rng.random() < .7 else g.newfilled(rt)
                for x in pv:
                    if x is not res and p.k(x.t) != 'ptr': g.fill(x)
                g.emits(loc, 'local')
                g.ss.append(p.ret(res))
                b = g.take(); g.lv = old
            p.define(f, b); fs.append(f)
        def build():
            for t in rng.sample(pool, min(4, len(pool))): g.newfilled(t if p.k(t) != 'ptr' else p.i32)
            for _ in range(2):
                f = fs[-1] if rng.random() < .6 else rng.choice(fs)
                Fn = p.funs[f-1]
                args = [g.value(p.vars[v-1]['t']) for v in Fn['vars'][:Fn['np']]]
                before = [x for v in g.lv.values() for x in v]
                res = g.addvar(Fn['rt'], p.call(f, args))
                g.emits(res, 'result')
                for x in before: g.emits(x, 'caller variable after the call')
        out.append(g.main(build))
    # calls with many arguments in the middle of expressions and argument lists: whatever is pending stays
    for i in range(max(6, n // 8)):
        g = F(rng, f'nestcall_{i}', mode); p = g.p
        fl = rng.random()
        pool = [g.T(k) for k in (['i32', 'i64', 'u32', 'u64', 'f32', 'f64'] if fl < .5 else ['f32', 'f64', 'f64'] if fl < .7 else ['i64', 'i32', 'u8', 'i16', 'u64', 'i32'])]
        if rng.random() < .4: pool.append(g.rstruct(0, maxf=rng.choice([2, 5])))
        num = [t for t in pool if p.k(t) in I4 + ['f32', 'f64']]
        fs = []
        for j in range(rng.randint(2, 4)):
            nargs = rng.choice([1, 2, 5, 6, 7, 8, 9, 9, 10, 11, 13])
            ps = [(f'a{x}', rng.choice(pool)) for x in range(nargs)]
            rt = rng.choice(num)
            f = p.declare(f'fn{j}', ps, rt)
            with p.infn(f):
                acc = g.addvar(rt, g.const(rt)); w = 1
                for x in range(nargs):
                    for part in g.parts(p.param(f, x)):
                        w += 2
                        if not p.isflt(part.t) or p.isflt(rt): y = p.conv(part, rt)
                        else:       # converting a number that does not fit is not promised
                            m = p.flit(999999, 0, part.t)
                            y = p.conv(p.tern(p.and_(p.bin('<', part, m), p.bin('>', part, p.un('neg', m))), p.cast(part, p.i32), g.L(7)), rt)
                        g.ss.append(p.expr(p.asg(acc, p.bin('+', acc, p.bin('*', y, p.conv(p.lit(p.i32, w), rt))))))
                g.ss.append(p.ret(acc)); b = g.take()
            p.define(f, b); p.funs[f-1]['pure'] = True; fs.append(f)
        g.lv = {}
        def small(t):
            k = p.k(t)
            vs = g.lv.get(t, [])
            if vs and rng.random() < .5: return rng.choice(vs)
            if p.isflt(t): return p.flit(rng.randint(0, 99), rng.randint(0, 1), t)
            return p.lit(t, rng.randint(0, 99))
        def ex(t, d):
            k = p.k(t)
            if k == 'st': return rng.choice(g.lv[t])
            x = rng.random()
            if d <= 0 or g.narrow(k) or x < .15: return small(t)
            if x < .6:
                c = [f for f in fs if p.funs[f-1]['rt'] == t]
                if c and g.left > 0:
                    f = rng.choice(c); g.left -= 1
                    return p.call(f, [ex(p.vars[v-1]['t'], d - 1) for v in p.funs[f-1]['vars'][:p.funs[f-1]['np']]])
            if x < .75: return p.bin(rng.choice('+-*'), ex(t, d - 1), ex(t, d - 1))
            if x < .85:
                u = rng.choice(num)
                if p.isflt(u) == p.isflt(t): return p.conv(ex(u, d - 1), t)
            if x < .95 and t in g.arrs:
                c = [u for u in num if p.k(u) in I4]
                if c:
                    u = rng.choice(c); return p.idx(g.arrs[t], p.bin('&', ex(u, d - 1), p.lit(u, 3)))
            if x < .97: return p.tern(p.bin('<', small(t), small(t)), ex(t, d - 1), ex(t, d - 1))
            return p.bin('+', small(t), ex(t, d - 1))
        def build():
            g.arrs = {}
            for t in pool: g.newfilled(t) if p.k(t) == 'st' else g.addvar(t, small(t))
            for t in set(num):
                a = g.addvar(p.carr(t, 4)); g.arrs[t] = a
                for x in range(4): g.ss.append(p.expr(p.asg(p.idx(a, g.L(x)), small(t))))
            before = [x for v in g.lv.values() for x in v]
            for f in fs + [rng.choice(fs) for _ in range(3)]:
                rt = p.funs[f-1]['rt']
                g.left = rng.randint(0, 3)
                e = p.call(f, [ex(p.vars[v-1]['t'], 3) for v in p.funs[f-1]['vars'][:p.funs[f-1]['np']]])
                if rng.random() < .7: e = p.bin(rng.choice('+-'), small(rt), e)
                if rng.random() < .5: e = p.bin(rng.choice('+-'), e, ex(rt, 2))
                g.show(e)
            for x in before: g.emits(x, 'caller variable after the calls')
        out.append(g.main(build))
    # results used directly
    g = F(rng, 'result_member', mode); p = g.p
    for j in range(6): g.rstruct(0, maxf=5)
    fs = []
    for j, t in enumerate(g.structs):
        f = p.declare(f'mk{j}', [('k', p.i32)], t)
        with p.infn(f):
            x = g.newfilled(t); g.ss.append(p.ret(x)); b = g.take()
        p.define(f, b); fs.append(f)
    def build():
        for f, t in zip(fs, g.structs):
            for fd in p.fields(t):
                if p.k(fd['t']) in SIZE and p.k(fd['t']) not in ('ptr', 'fn'):
                    g.show(p.mem(p.call(f, [g.L(1)]), fd['n']))
    out.append(g.main(build))
    # recursion: every activation has its own locals
    for k in ('i32', 'i64', 'u64', 'u32'):
        g = F(rng, f'rec_{k}', mode); p = g.p; t = g.T(k)
        one, two = p.lit(t, 1), p.lit(t, 2)
        def fun(name, ps, rt, mk):
            f = p.declare(name, ps, rt)
            with p.infn(f): mk(f, *[p.param(f, i) for i in range(len(ps))]); b = g.take()
            p.define(f, b); return f
        fact = fun('fact', [('n', t)], t, lambda f, n_: g.ss.extend([p.if_(p.bin('<', n_, two), p.block([p.ret(one)])), p.ret(p.bin('*', n_, p.call(f, [p.bin('-', n_, one)])))]))
        fib = fun('fib', [('n', t)], t, lambda f, n_: g.ss.extend([p.if_(p.bin('<', n_, two), p.block([p.ret(n_)])),
                   p.ret(p.bin('+', p.call(f, [p.bin('-', n_, one)]), p.call(f, [p.bin('-', n_, two)])))]))
        def mkack(f, m, n_):
            g.ss.extend([p.if_(p.bin('==', m, p.lit(t, 0)), p.block([p.ret(p.bin('+', n_, one))])),
                         p.if_(p.bin('==', n_, p.lit(t, 0)), p.block([p.ret(p.call(f, [p.bin('-', m, one), one]))])),
                         p.ret(p.call(f, [p.bin('-', m, one), p.call(f, [m, p.bin('-', n_, one)])]))])
        ack = fun('ack', [('m', t), ('n', t)], t, mkack)
        arr = p.carr(t, 3)
        def mkloc(f, d):
            a = p.newvar(arr); g.ls.append(a); av = p.var(a)
            c = p.newvar(t); g.ls.append(c); cv = p.var(c)
            g.ss.append(p.decl(a))
            for j in range(3): g.ss.append(p.expr(p.asg(p.idx(av, g.L(j)), p.bin('+', d, p.lit(t, j * 10)))))
            g.ss.append(p.let(c, p.bin('*', d, p.lit(t, 7))))
            g.ss.append(p.if_(p.bin('>', d, p.lit(t, 0)), p.block([p.expr(p.call(f, [p.bin('-', d, one)]))])))
            for j in range(3): g.ss.append(p.emit(p.idx(av, g.L(j)), 'local array after recursion'))
            g.ss.append(p.emit(cv, 'local after recursion')); g.ss.append(p.emit(d, 'parameter after recursion'))
            g.ss.append(p.ret(cv))
        loc = fun('locals', [('d', t)], t, mkloc)
        # mutual recursion: the second is declared first, defined later
        ev = p.declare('is_even', [('n', t)], p.bool); od = p.declare('is_odd', [('n', t)], p.bool)
        for f, other, base in ((ev, od, 1), (od, ev, 0)):
            with p.infn(f):
                n_ = p.param(f, 0)
                g.ss.extend([p.if_(p.bin('==', n_, p.lit(t, 0)), p.block([p.ret(p.lit(p.bool, base))])), p.ret(p.call(other, [p.bin('-', n_, one)]))])
                b = g.take()
            p.define(f, b)
        def build():
            for x in (0, 1, 2, 5, 10, 13): g.show(p.call(fact, [p.lit(t, x)]))
            for x in (0, 1, 2, 6): g.show(p.call(fib, [p.lit(t, x)]))
            g.show(p.call(ack, [p.lit(t, 1), p.lit(t, 2)])); g.show(p.call(ack, [p.lit(t, 2), p.lit(t, 1)]))
            g.show(p.call(loc, [p.lit(t, 4)]))
            for x in (0, 1, 6, 7): g.show(p.call(ev, [p.lit(t, x)])); g.show(p.call(od, [p.lit(t, x)]))
        out.append(g.main(build))
    # function values
    for j in range(4):
        k = rng.choice(I4); g = F(rng, f'fnptr_{j}', mode); p = g.p; t = g.T(k)
        ft = p.fnty([t, t], t)
        def fun(name, ps, rt, mk):
            f = p.declare(name, ps, rt)
            with p.infn(f): mk(f, *[p.param(f, i) for i in range(len(ps))]); b = g.take()
            p.define(f, b); return f
        ops = [fun(f'op{o}', [('a', t), ('b', t)], t, lambda f, a, b, o=o: (g.tick(o), g.ss.append(p.ret(p.bin(['+', '-', '*', '^'][o], a, b))))) for o in range(4)]
        app = fun('apply', [('f', ft), ('a', t), ('b', t)], t, lambda f, h, a, b: g.ss.append(p.ret(p.callp(h, [a, b]))))
        pick = fun('pick', [('i', p.i32)], ft, lambda f, i_: g.ss.extend(
            [p.if_(p.bin('==', i_, g.L(x)), p.block([p.ret(p.fn(ops[x]))])) for x in range(3)] + [p.ret(p.fn(ops[3]))]))
        st = p.struct('Op', [('id', p.i32), ('f', ft), ('tail', p.u8)])
        def build():
            a = g.addvar(t, p.lit(t, 21)); b = g.addvar(t, p.lit(t, 4))
            for o in ops:
                v = g.addvar(ft, p.fn(o)); g.show(p.callp(v, [a, b]))
                g.show(p.call(app, [p.fn(o), a, b])); g.show(p.call(app, [v, b, a]))
            for x in range(4): g.show(p.call(app, [p.call(pick, [g.L(x)]), a, b]))
            at = p.arr(ft, 4); ar = g.addvar(at, p.lits(at, [p.fn(ops[3 - x]) for x in range(4)]))
            i_ = p.newvar(p.i32); g.ls.append(i_); iv = p.var(i_)
            with g.scope(): g.show(p.callp(p.idx(ar, iv), [a, b]))
            g.ss.append(p.for_(p.let(i_, g.L(0)), p.bin('<', iv, g.L(4)), p.inc(iv), g.block))
            s_ = g.addvar(st, p.lits(st, [g.L(9), p.fn(ops[2]), p.lit(p.u8, 200)]))
            g.show(p.callp(p.mem(s_, 'f'), [b, a])); g.ss.append(p.emit(p.mem(s_, 'id'))); g.ss.append(p.emit(p.mem(s_, 'tail')))
            # nested calls as arguments
            g.show(p.call(ops[0], [p.call(ops[1], [a, b]), p.call(ops[2], [b, p.call(ops[3], [a, b])])]))
        out.append(g.main(build))
    # lambdas without free variables
    for j in range(4):
        k = rng.choice(I4); g = F(rng, f'lambda_{j}', mode); p = g.p; t = g.T(k)
        const = j % 2 == 1
        ft = p.fnty([t, t], t, const)
        app = p.declare('apply', [('f', ft), ('a', t), ('b', t)], t)
        with p.infn(app): g.ss.append(p.ret(p.callp(p.param(app, 0), [p.param(app, 1), p.param(app, 2)]))); b = g.take()
        p.define(app, b)
        def build():
            if True:
                for o in ['+', '-', '^']:
                    l1 = p.lambda_([('x', t), ('y', t)], t, lambda f: p.bin(o, p.param(f, 0), p.param(f, 1)), short=True, const=const)
                    v = g.addvar(ft, l1); g.show(p.callp(v, [p.lit(t, 9), p.lit(t, 5)])); g.show(p.call(app, [v, p.lit(t, 3), p.lit(t, 2)]))
                    def long(f):
                        x, y = p.param(f, 0), p.param(f, 1)
                        z = p.newvar(t)
                        return p.block([p.let(z, p.bin(o, x, y)), p.if_(p.bin('>', p.var(z), p.lit(t, 5)), p.block([p.ret(p.var(z))])), p.ret(p.bin('+', p.var(z), p.lit(t, 100)))], [z])
                    l2 = p.lambda_([('x', t), ('y', t)], t, long, const=const)
                    v2 = g.addvar(ft, l2)
                    for x, y in ((9, 5), (1, 1)):
                        g.show(p.callp(v2, [p.lit(t, x), p.lit(t, y)])); g.show(p.call(app, [v2, p.lit(t, x), p.lit(t, y)]))
        out.append(g.main(build))
    # pipes
    for j in range(4):
        k = rng.choice(I4 + ['f32', 'f64']); g = F(rng, f'pipe_{j}', mode); p = g.p; t = g.T(k)
        fs = []
        for o in range(3):
            f = p.declare(f'st{o}', [('x', t), ('y', t)], t)
            with p.infn(f): g.tick(o); g.ss.append(p.ret(p.bin(['+', '-', '*'][o], p.param(f, 0), p.param(f, 1)))); b = g.take()
            p.define(f, b); fs.append(f)
        def build():
            a = g.addvar(t, g.const(t)); c = g.addvar(t, g.const(t))
            for _ in range(5):
                e = a
                for _ in range(rng.randint(1, 4)):
                    f = rng.choice(fs); y = rng.choice([a, c])
                    e = p.pipe(e, lambda h: p.call(f, [h, y] if rng.random() < .7 else [y, h]))
                g.show(e)
            g.show(p.pipe(a, lambda h: p.bin('+', h, h)))
            g.show(p.pipe(p.call(fs[0], [a, c]), lambda h: p.bin('*', h, h)))
        out.append(g.main(build))
    # operator functions
    for j in range(4):
        k = rng.choice(I4); g = F(rng, f'operator_{j}', mode); p = g.p; t = g.T(k)
        st = p.struct('V', [('x', t), ('y', t)])
        def cop(name, lt, rt_, res, mk):
            f = p.declare(name, [('a', lt)] + ([('b', rt_)] if rt_ else []), res)
            with p.infn(f): mk(*[p.param(f, x) for x in range(2 if rt_ else 1)]); b = g.take()
            F_ = p.funs[f-1]; F_['body'] = b.id; F_['defers'] = b.defers
            p.decls.append(f'operator {name} (a: {p.tn(lt)}' + (f', b: {p.tn(rt_)}' if rt_ else '') + f'): {p.tn(res)} {b.src}')
            if not rt_: return lambda a: p.call(f, [a], f"{name}{p.par(a, PREC['un'] + 1)}", 'un')
            return lambda a, b: p.call(f, [a, b], f"{p.pr(a, 'cop')} {name} {p.par(b, PREC['cop'] + 1)}", 'cop')
        def addv(a, b):
            r = g.addvar(st)
            for m in 'xy': g.ss.append(p.expr(p.asg(p.mem(r, m), p.bin('+', p.mem(a, m), p.mem(b, m)))))
            g.ss.append(p.ret(r))
        def scal(a, b):
            r = g.addvar(st)
            for m in 'xy': g.ss.append(p.expr(p.asg(p.mem(r, m), p.bin('*', p.mem(a, m), b))))
            g.ss.append(p.ret(r))
        def negv(a):
            r = g.addvar(st)
            for m in 'xy': g.ss.append(p.expr(p.asg(p.mem(r, m), p.un('neg', p.mem(a, m)))))
            g.ss.append(p.ret(r))
        plus = cop(rng.choice(['+++', '<+>', '~+']), st, st, st, addv); times = cop(rng.choice(['**', '|*|', '<=>']), st, t, st, scal); neg = cop(rng.choice(['!!', '--!', '?']) if False else '!!', st, None, st, negv)
        def build():
            a = g.newfilled(st); b = g.newfilled(st)
            r = g.addvar(st, plus(a, b)); g.emits(r)
            r = g.addvar(st, plus(plus(a, b), a)); g.emits(r)
            r = g.addvar(st, plus(times(a, p.lit(t, 3)), b)); g.emits(r)
            r = g.addvar(st, plus(a, times(b, p.bin('+', p.lit(t, 3), p.mem(a, 'x'))))); g.emits(r)
            r = g.addvar(st, neg(a)); g.emits(r)
            r = g.addvar(st, plus(neg(a), neg(neg(b)))); g.emits(r)
            g.emits(a); g.emits(b)
            g.show(p.bin('+', p.mem(a, 'x'), p.mem(b, 'y'))); g.show(p.bin('*', p.mem(a, 'x'), p.mem(b, 'y')))
        out.append(g.main(build))
    # random programs with several functions
    for i in range(n // 2):
        g = F(rng, f'fun_rand_{i}', mode); p = g.p
        g.globals_()
        gl = {k: list(v) for k, v in g.lv.items()}
        for j in range(rng.randint(1, 3)):
            ps = [(f'a{x}', g.T(rng.choice(IT))) for x in range(rng.randint(0, 4))]
            f = p.declare(f'fn{j}', ps, g.T(rng.choice(IT)))
            with p.infn(f):
                g.lv = {k: list(v) for k, v in gl.items()}
                for x in range(len(ps)): g.lv.setdefault(ps[x][1], []).append(p.param(f, x))
                old = g.funcs
                if rng.random() < .5: g.funcs = []
                g.stmts(rng.randint(1, 4), 2)
                g.funcs = old; g.cbudget = 0
                rt = p.funs[f-1]['rt']
                g.ss.append(p.ret(g.int_(rt, 0 if g.narrow(p.k(rt)) else 2))); b = g.take()
            p.define(f, b); g.funcs.append(f)
        g.lv = {k: list(v) for k, v in gl.items()}
        def build():
            for k in rng.sample(IT, 2): g.addvar(g.T(k), p.lit(g.T(k), g.val(k)))
            for f in g.funcs:
                g.cbudget = 0; g.show(g.callrand(f))
            g.stmts(rng.randint(2, 4), 2)
            g.dump()
        out.append(g.main(build))
    return out

# ---------------------------------------------------------------- memory
class M(F):
    """random lvalues through structs, arrays and pointers"""
    def lval(s, x, d=3):
        """descend into lvalue x to a scalar (or stop at a pointer)"""
        p, r = s.p, s.r
        while True:
            k = p.k(x.t)
            if k == 'st' or k == 'un':
                f = r.choice(p.fields(x.t)); x = p.mem(x, f['n'])
            elif k in ('carr', 'arr'):
                n = p.types[x.t-1]['n']
                back = (k == 'carr' or x.src.isidentifier()) and r.random() < .3
                x = p.idx(x, s.index(n, back), back)
            elif k == 'ptr':
                o = p.of(x.t)
                if d <= 0: return x
                d -= 1
                if p.k(o) == 'st' and r.random() < .7:
                    f = r.choice(p.fields(o)); x = p.mem(x, f['n'])      # `.` through the pointer
                else: x = p.deref(x) if r.random() < .8 else p.idx(x, p.lit(p.i32, 0))
            else: return x
    def index(s, n, back):
        """an index expression whose value lies in [0,n) ([1,n] counted from the back)"""
        p, r = s.p, s.r
        i = r.randrange(n) + (1 if back else 0)
        k = r.choice(['i32', 'i64', 'u32', 'u64', 'u8'])
        if r.random() < .5 or (s.mode != 'asm' and back): return p.lit(s.T(k), i)
        us = [x for t in (p.u32, p.u64) for x in s.lv.get(t, []) if x.src in s.simple]
        if us:
            u = r.choice(us); e = p.bin('%', u, p.lit(u.t, n))
            return p.bin('+', e, p.lit(u.t, 1)) if back else e
        return p.lit(s.T(k), i)
    simple = frozenset()

def memory_programs(rng, n, mode='asm'):
    out = []
    asmode = mode == 'asm'
    for i in range(n):
        g = M(rng, f'mem_{i}', mode); p = g.p
        for _ in range(rng.randint(1, 4)): g.rstruct(maxf=5)
        S = g.structs[-1]
        at = [p.carr(g.T(rng.choice(SC)), rng.randint(1, 9)), p.carr(S, rng.randint(1, 3)), p.carr(p.carr(g.T(rng.choice(IT)), 2), 3)]
        if True: at += [p.arr(g.T(rng.choice(SC)), rng.randint(1, 9)), p.arr(S, rng.randint(1, 3)), p.arr(p.arr(g.T(rng.choice(IT)), 3), 2)]
        globs = []
        for t in rng.sample(at + g.structs, 2): globs.append(p.var(p.glob(t)))
        gu = p.var(p.glob(p.u32))
        # a function that writes through its pointer
        pt = rng.choice([S, p.i32, p.i64])
        wr = p.declare('write', [('q', p.ptr(pt))], p.void)
        with p.infn(wr):
            q = p.param(wr, 0); tgt = p.deref(q)
            if pt == S: tgt = q
            x = g.lval(tgt)
            for _ in range(3):
                if p.k(x.t) != 'ptr': break
                x = g.lval(tgt)
            if p.k(x.t) not in ('ptr',) : g.ss.append(p.expr(p.asg(x, g.const(x.t))))
            b = g.take()
        p.define(wr, b)
        def build():
            objs = []          # (lvalue)
            u1 = g.addvar(p.u32, p.lit(p.u32, rng.randint(0, 100))); u2 = g.addvar(p.u64, p.lit(p.u64, rng.randint(0, 100)))
            g.ss.append(p.expr(p.asg(gu, p.lit(p.u32, rng.randint(0, 99)))))
            g.simple = frozenset([u1.src, u2.src, gu.src]); g.lv[p.u32].append(gu)
            pint = g.newfilled(p.i32)
            def fill(x):
                # scalars get constants, pointers point to pint
                k = p.k(x.t)
                if k == 'st':
                    for f in p.fields(x.t): fill(p.mem(x, f['n']))
                elif k in ('carr', 'arr'):
                    for j in range(p.types[x.t-1]['n']): fill(p.idx(x, p.lit(p.i32, j)))
                elif k == 'ptr': g.ss.append(p.expr(p.asg(x, p.ref(pint))))
                else: g.ss.append(p.expr(p.asg(x, g.const(x.t))))
            for t in rng.sample(at, 2) + [rng.choice(g.structs), S]:
                x = g.addvar(t); fill(x); objs.append(x)
            for x in globs: fill(x); objs.append(x)
            po = g.newfilled(pt) if pt != S else objs[3]
            ptrs = []
            for o in objs[:3]:
                ptrs.append(g.addvar(p.ptr(o.t), p.ref(o)) if p.k(o.t) == 'st' else None)
            ptrs = [x for x in ptrs if x]
            def scal(): 
                for _ in range(20):
                    x = g.lval(rng.choice(objs + ptrs))
                    if p.k(x.t) != 'ptr': return x
                return pint
            for _ in range(rng.randint(5, 10)):
                y = rng.random()
                if y < .45:
                    x = scal(); 
                    same = scal()
                    e = g.const(x.t) if rng.random() < .5 else (same if same.t == x.t else g.const(x.t))
                    g.ss.append(p.expr(p.asg(x, e))); g.ss.append(p.emit(x))
                elif y < .6:
                    x = scal()
                    if p.k(x.t) in IT: g.ss.append(p.expr(rng.choice([lambda: p.inc(x), lambda: p.opasg('+', x, p.lit(x.t, 3))])()))
                    g.ss.append(p.emit(x))
                elif y < .75:      # copy a whole object
                    ts = {}
                    for o in objs: ts.setdefault(o.t, []).append(o)
                    c = [v for t, v in ts.items() if len(v) > 1 and p.k(t) == 'st']
                    if c:
                        a, b = rng.sample(rng.choice(c), 2); g.ss.append(p.expr(p.asg(a, b)))
                        x = g.lval(a); y2 = g.lval(b)
                        if p.k(x.t) in IT: g.ss.append(p.expr(p.asg(x, g.const(x.t))))
                    else:
                        o = rng.choice([o for o in objs if p.k(o.t) == 'st'])
                        c = g.addvar(o.t, o); objs.append(c)
                        x = g.lval(c)
                        if p.k(x.t) in IT: g.ss.append(p.expr(p.asg(x, g.const(x.t))))
                elif y < .9: g.ss.append(p.expr(p.call(wr, [p.ref(po)])))
                else:
                    x = scal(); q = g.addvar(p.ptr(x.t), p.ref(x))
                    g.ss.append(p.expr(p.asg(p.deref(q), g.const(x.t)))); g.ss.append(p.emit(x)); g.ss.append(p.emit(p.deref(q)))
            for o in objs: g.emits(o, 'final ' + o.src)
            g.ss.append(p.emit(pint))
            for o in objs:
                if p.k(o.t) in ('arr', 'carr'): g.show(p.len_(o))
        out.append(g.main(build))
    # literals of aggregates, also nested and with computed elements
    for i in range(max(4, n // 8)):
        g = M(rng, f'aggr_lit_{i}', mode); p = g.p
        for _ in range(3): g.rstruct(1, maxf=4)
        def lit(t, d=0):
            k = p.k(t)
            if k == 'st': return p.lits(t, [lit(f['t'], d+1) for f in p.fields(t)])
            if k in ('carr', 'arr'): return p.lits(t, [lit(p.of(t), d+1) for _ in range(p.types[t-1]['n'])])
            if k == 'ptr': return p.ref(g.lv[p.of(t)][0])
            if k in IT and SIZE[k] >= 4 and g.lv.get(t) and rng.random() < .5: return g.int_(t, 1)
            if k in IT + ['f64', 'f32'] and d and rng.random() < .4: return g.const(g.T(rng.choice(IT)))
            return g.const(t)
        def build():
            g.newfilled(p.i32)
            for k in ('i64', 'u32', 'u64'): g.newfilled(g.T(k))
            def nocarr(t): return p.k(t) != 'carr' and (p.k(t) != 'st' or all(nocarr(f['t']) for f in p.fields(t)))
            ts = [t for t in g.structs if nocarr(t)]
            if asmode: ts = ts + [p.arr(g.T(rng.choice(SC)), rng.randint(1, 6)) for _ in range(3)]
            for t in ts * 2:
                x = g.addvar(t, lit(t)); g.emits(x)
                if p.k(t) == 'arr': g.show(p.len_(x))
            for t in ts:
                x = g.lv[t][0]
                g.ss.append(p.expr(p.asg(x, lit(t)))) if p.k(t) == 'st' else None
                g.emits(x)
        out.append(g.main(build))
    # pointer arithmetic
    for k in SC + ['st', 'ptr']:
        g = M(rng, f'ptr_{k}', mode); p = g.p
        t = p.struct('N', [('a', p.i32), ('b', p.u8), ('c', p.i64)]) if k == 'st' else p.ptr(p.i32) if k == 'ptr' else g.T(k)
        def build():
            N = 6
            w = g.newfilled(p.i32)
            a = g.addvar(p.carr(t, N))
            for j in range(N):
                x = p.idx(a, g.L(j))
                if k == 'ptr': g.ss.append(p.expr(p.asg(x, p.ref(w))))
                else: g.fill(x)
            def see(x):
                if k == 'ptr': g.ss.append(p.emit(p.deref(x)))
                else: g.emits(x)
            q = g.addvar(p.ptr(t), p.ref(p.idx(a, g.L(2))))
            for ik in ('i32', 'i64', 'u8', 'i8', 'u64', 'i16'):
                for d in (0, 1, 3) + ((-1, -2) if ik[0] == 'i' else ()):
                    c = p.lit(g.T(ik), d)
                    v = g.addvar(g.T(ik), c)
                    if d >= -2: see(p.deref(p.bin('+', q, v))); see(p.idx(q, v))
                    if -d >= -2 and -d <= 3: see(p.deref(p.bin('-', q, v)))
            see(p.deref(q))
            g.ss.append(p.expr(p.inc(q))); see(p.deref(q))
            g.ss.append(p.expr(p.inc(q, 'dec'))); see(p.deref(q))
            g.ss.append(p.expr(p.opasg('+', q, g.L(2)))); see(p.deref(q))
            g.ss.append(p.expr(p.opasg('-', q, g.L(3)))); see(p.deref(q))
            if asmode or True:
                e = g.addvar(p.ptr(t), p.ref(p.idx(a, g.L(4))))
                for op in ['==', '!=', '<', '>', '<=', '>=']: g.show(p.bin(op, q, e)); g.show(p.bin(op, e, e))
            # write through a moving pointer: only that element changes
            if k not in ('st', 'ptr'):
                g.ss.append(p.expr(p.asg(q, p.ref(p.idx(a, g.L(0))))))
                for j in range(3):
                    g.ss.append(p.expr(p.asg(p.deref(p.bin('+', q, g.L(j * 2))), g.const(t))))
                    for m in range(N): g.ss.append(p.emit(p.idx(a, g.L(m))))
        out.append(g.main(build))
    # linked structures built from an array of nodes
    for k in ('i32', 'u8', 'f64', 'i64'):
        g = M(rng, f'list_{k}', mode); p = g.p; t = g.T(k)
        node, pn = p.recstruct('Node', [('v', t)], 'next')
        def build():
            a = g.addvar(p.carr(node, 6))
            order = list(range(6)); rng.shuffle(order)
            for j in range(6): g.ss.append(p.expr(p.asg(p.mem(p.idx(a, g.L(j)), 'v'), g.const(t))))
            for x, y in zip(order, order[1:]): g.ss.append(p.expr(p.asg(p.mem(p.idx(a, g.L(x)), 'next'), p.ref(p.idx(a, g.L(y))))))
            g.ss.append(p.expr(p.asg(p.mem(p.idx(a, g.L(order[-1])), 'next'), p.cast(g.L(0), pn))))
            q = g.addvar(pn, p.ref(p.idx(a, g.L(order[0]))))
            def walk():
                with g.scope():
                    g.ss.append(p.emit(p.mem(q, 'v'))); g.ss.append(p.expr(p.asg(q, p.mem(q, 'next'))))
                g.ss.append(p.while_(p.un('not', p.un('not', q)), g.block))
            walk()
            # unlink the third, relink at the end
            g.ss.append(p.expr(p.asg(q, p.ref(p.idx(a, g.L(order[1]))))))
            g.ss.append(p.expr(p.asg(p.mem(q, 'next'), p.mem(p.mem(q, 'next'), 'next'))))
            g.ss.append(p.expr(p.asg(q, p.ref(p.idx(a, g.L(order[0])))))); walk()
        out.append(g.main(build))
    # unions: all members start at the same byte
    g = M(rng, 'union', mode); p = g.p
    u = p.struct('U', [('b', p.carr(p.u8, 8)), ('i', p.i32), ('l', p.i64), ('f', p.f32), ('d', p.f64), ('s', p.u16)], union=True)
    st = p.struct('H', [('pre', p.u8), ('u', u), ('post', p.u8)])
    def build():
        x = g.addvar(u); h = g.addvar(st); q = g.addvar(p.ptr(u), p.ref(x))
        for tgt in (x, p.mem(h, 'u'), p.deref(q)):
            g.ss.append(p.expr(p.asg(p.mem(h, 'pre'), p.lit(p.u8, 170)))); g.ss.append(p.expr(p.asg(p.mem(h, 'post'), p.lit(p.u8, 187))))
            for m in ('l', 'd', 'i', 'f', 's'):
                tt = p.mem(tgt, m).t
                g.ss.append(p.expr(p.asg(p.mem(tgt, 'l'), p.lit(p.i64, 0x1122334455667788))))
                g.ss.append(p.expr(p.asg(p.mem(tgt, m), g.const(tt))))
                for j in range(8): g.ss.append(p.emit(p.idx(p.mem(tgt, 'b'), g.L(j))))
                for m2 in ('i', 'l', 's'): g.ss.append(p.emit(p.mem(tgt, m2)))
            g.ss.append(p.emit(p.mem(h, 'pre'))); g.ss.append(p.emit(p.mem(h, 'post')))
        y = g.addvar(u, x); g.ss.append(p.expr(p.asg(p.mem(y, 'i'), g.L(5)))); g.ss.append(p.emit(p.mem(x, 'i'))); g.ss.append(p.emit(p.mem(y, 'l')))
    out.append(g.main(build))
    # strings
    g = M(rng, 'strings', mode); p = g.p
    def build():
        for text in ['', 'a', 'hello', 'tab\tnl\nquote"back\\', 'x' * 40, 'per%cent %d %s']:
            s_ = g.addvar(p.ptr(p.char), p.str_(text))
            for j in range(len(text) + 1): g.ss.append(p.emit(p.idx(s_, g.L(j)), 'string'))
            g.show(p.len_(s_))
            q = g.addvar(p.ptr(p.char), s_)
            c = g.addvar(p.i32, g.L(0))
            g.ss.append(p.while_(p.un('not', p.un('not', p.deref(q))), p.block([p.expr(p.inc(q)), p.expr(p.inc(c))]))); g.ss.append(p.emit(c))
    out.append(g.main(build))
    return out

# ---------------------------------------------------------------- floating point
def float_programs(rng, n, mode='asm'):
    out = []
    def consts(g, k):
        """operands of every kind, as variables"""
        p = g.p; t = g.T(k)
        r = []
        def v(e): x = g.addvar(t, e); r.append(x); return x
        z = v(p.flit(0, 1, t)); one = v(p.flit(10, 1, t))
        for m, d in ((5, 1), (1, 1), (3, 0), (123456, 3), (16777216, 0), (16777217, 0), (33554431, 1), (999999, 0), (1, 7), (340282346638528, 0)): v(p.flit(m, d, t))
        three = r[4]
        v(p.bin('/', one, three)); v(p.bin('/', p.flit(2, 0, t), three))
        v(p.un('neg', one)); nz = v(p.un('neg', z))
        inf = v(p.bin('/', one, z)); v(p.un('neg', inf)); v(p.bin('-', inf, inf))
        big = r[-6]
        x = v(p.bin('*', r[11], r[11]))
        x = v(p.bin('*', x, x))
        if k == 'f64':
            x = v(p.bin('*', x, x)); x = v(p.bin('*', x, x)); 
        y = v(p.bin('/', one, x)); y2 = v(p.bin('/', y, r[11])); v(p.bin('/', y2, r[11])); v(p.bin('/', y2, three))
        return r
    for k in ('f32', 'f64'):
        for part in range(4):
            g = F(rng, f'flt_{k}_{part}', mode); p = g.p; t = g.T(k)
            def build():
                cs = consts(g, k)
                for c in cs: g.ss.append(p.emit(c)) if part == 0 else None
                prs = [(a, b) for a in cs for b in cs]
                for a, b in rng.sample(prs, 40):
                    for op in ['+', '-', '*', '/']: g.show(p.bin(op, a, b)) if nonan(op) else None
                    for op in ['==', '!=', '<', '>', '<=', '>=']: g.show(p.bin(op, a, b))
                for a in cs:
                    g.show(p.un('neg', a)); g.show(p.un('not', a)); g.ss.append(p.if_(p.un('not', p.un('not', a)), g.body(g.tick), g.body(g.tick)))
            nonan = lambda op: True
            out.append(g.main(build))
    # conversions
    g = F(rng, 'flt_conv', mode); p = g.p
    def build():
        for k in IT + ['bool', 'char']:
            t = g.T(k)
            vs = [0, 1] if k == 'bool' else [65, 126] if k == 'char' else boundary(k)
            for x in vs:
                a = g.addvar(t, p.lit(t, x))
                for fk in ('f32', 'f64'):
                    g.show(p.conv(a, g.T(fk)), None, f'({k}){x} : {fk}')
                    if k not in ('bool', 'char'): g.show(a, g.T(fk), f'{fk} = ({k}){x}')
    out.append(g.main(build))
    g = F(rng, 'flt_conv_u64', mode); p = g.p
    def build():
        for x in (2**63, 2**63 + 1, 2**64 - 1, 2**63 + 2**40, 12345678901234567890):
            a = g.addvar(p.u64, p.lit(p.u64, x))
            for fk in ('f32', 'f64'): g.show(p.conv(a, g.T(fk)), None, f'(u64){x} : {fk}')
    out.append(g.main(build))
    g = F(rng, 'flt_to_int', mode); p = g.p
    def build():
        for fk in ('f32', 'f64'):
            for m, d, s in ((0, 1, 1), (5, 1, 1), (9, 1, -1), (15, 1, 1), (15, 1, -1), (999, 1, 1), (999, 1, -1), (127, 0, 1), (1279, 1, 1), (200, 0, 1), (1000005, 1, 1), (1000005, 1, -1), (65535, 0, 1), (2147483, 0, -1), (16777215, 0, 1)):
                f = p.flit(m, d, g.T(fk))
                a = g.addvar(g.T(fk), p.un('neg', f) if s < 0 else f)
                v = int(m / 10**d) * s
                for k in IT:
                    if irange(k)[0] <= v <= irange(k)[1]: g.show(p.conv(a, g.T(k)), None, f'({fk}){s*m/10**d} : {k}'); g.show(a, g.T(k))
                g.show(p.conv(a, p.f32)); g.show(p.conv(a, p.f64))
            big = g.addvar(g.T(fk), p.flit(4294967296, 0, g.T(fk)))
            for k in ('i64', 'u64'): g.show(p.conv(p.bin('*', big, p.flit(1234567, 0, g.T(fk))), g.T(k)))
            for m in (2147483648, 2147483904, 4294967040, 3000000000): g.show(p.conv(p.bin('*', big, p.flit(m, 0, g.T(fk))), p.u64))
            g.show(p.conv(big, p.bool)); g.show(p.conv(g.addvar(g.T(fk), p.flit(0, 1, g.T(fk))), p.bool)); g.show(p.conv(g.addvar(g.T(fk), p.flit(5, 1, g.T(fk))), p.bool))
    out.append(g.main(build))
    # literals
    g = F(rng, 'flt_lit', mode); p = g.p
    def build():
        for m, d in [(rng.randint(0, 10**rng.randint(1, 15)), rng.randint(1, 9)) for _ in range(60)] + [(0, 1), (1, 1), (33554432, 0), (33554434, 1), (167772155, 1), (1, 9)]:
            g.show(p.flit(m, d)); 
            if rng.random() < .5: g.show(p.flit(m, d, p.f64))
    out.append(g.main(build))
    # compound assignment and increments
    for k in ('f32', 'f64'):
        g = F(rng, f'flt_compound_{k}', mode); p = g.p; t = g.T(k)
        st = p.struct('S', [('a', t), ('b', t)]); gv = p.glob(t)
        def build():
            v = g.addvar(t); s_ = g.addvar(st); ar = g.addvar(p.carr(t, 3)); q = g.addvar(p.ptr(t), p.ref(v))
            for tg in [v, p.mem(s_, 'b'), p.idx(ar, p.lit(p.i32, 1)), p.deref(q), p.var(gv)]:
                g.ss.append(p.expr(p.asg(tg, g.const(t))))
                for op in ['+', '-', '*', '/']: g.ss.append(p.expr(p.opasg(op, tg, g.const(t) if op != '/' else p.flit(7, 1, t)))); g.ss.append(p.emit(tg))
                for z in ('inc', 'dec'): g.show(p.inc(tg, z)); g.ss.append(p.emit(tg))
        out.append(g.main(build))
    # random expressions
    def fexpr(g, t, d):
        p, r = g.p, g.r
        if d <= 0 or r.random() < .15:
            vs = g.lv.get(t, [])
            return r.choice(vs) if vs and r.random() < .7 else g.const(t)
        x = r.random()
        if x < .75: return p.bin(r.choice(['+', '-', '*', '/']), fexpr(g, t, d-1), fexpr(g, t, d-1))
        if x < .8: return p.un('neg', fexpr(g, t, d-1))
        if x < .85: return p.tern(fcond(g, d-1), fexpr(g, t, d-1), fexpr(g, t, d-1))
        if x < .93: return p.conv(fexpr(g, p.f32 if t == p.f64 else p.f64, d-1), t)
        return p.conv(r.choice(g.lv[p.i32]), t)
    def fcond(g, d):
        t = g.r.choice([g.p.f32, g.p.f64]); return g.p.bin(g.r.choice(['<', '>', '<=', '>=', '==', '!=']), fexpr(g, t, d), fexpr(g, t, d))
    for i in range(n):
        g = F(rng, f'flt_rand_{i}', mode); p = g.p
        f = p.declare('mix', [(f'x{j}', g.T(rng.choice(['f32', 'f64', 'i32', 'f64']))) for j in range(rng.randint(1, 11))], p.f64)
        with p.infn(f):
            e = None
            for j in range(p.funs[f-1]['np']):
                x = p.conv(p.param(f, j), p.f64); e = x if e is None else p.bin(rng.choice('+-*'), e, x)
            g.ss.append(p.ret(e)); b = g.take()
        p.define(f, b)
        def build():
            for k in ('f32', 'f64', 'i32', 'f32', 'f64'): g.newfilled(g.T(k))
            for _ in range(8): g.show(fexpr(g, rng.choice([p.f32, p.f64]), rng.randint(2, 4)))
            for _ in range(3): g.show(fcond(g, 2))
            Fn = p.funs[f-1]
            g.show(p.call(f, [fexpr(g, p.vars[v-1]['t'], 1) if p.isflt(p.vars[v-1]['t']) else g.lv[p.i32][0] for v in Fn['vars'][:Fn['np']]]))
        out.append(g.main(build))
    return out

# ---------------------------------------------------------------- constants and global initialisers
class K(F):
    def __init__(s, rng, pid, mode='asm'):
        super().__init__(rng, pid, mode); s.consts = {}
    def small(s, k):
        lo, hi = irange(k)
        return s.r.randint(max(lo, -50), min(hi, 100))
    def cleaf(s, t):
        p, r = s.p, s.r; k = p.k(t)
        if s.consts.get(t) and r.random() < .4: return r.choice(s.consts[t])
        if k == 'bool': return p.lit(t, r.randint(0, 1))
        if k == 'char': return p.lit(t, r.randint(33, 126))
        if k in ('f32', 'f64'):
            x = p.flit(r.randint(0, 99999), r.randint(0, 4), t); return p.un('neg', x) if r.random() < .2 else x
        return p.lit(t, r.choice(boundary(k)) if r.random() < .3 else s.small(k))
    def cex(s, t, d):
        """a constant expression of small numbers"""
        p, r = s.p, s.r; k = p.k(t)
        if p.isflt(t) or k in ('char',): return s.cleaf(t)
        if k == 'bool':
            if d <= 0: return s.cleaf(t)
            x = r.random()
            if x < .6:
                u = s.T(r.choice(I4)); return p.bin(r.choice(['==', '!=', '<', '>', '<=', '>=']), s.cnum(u, d-1), s.cnum(u, d-1))
            if x < .75: return p.and_(s.cex(t, d-1), s.cex(t, d-1))
            if x < .9: return p.or_(s.cex(t, d-1), s.cex(t, d-1))
            return p.un('not', s.cex(t, d-1))
        return s.cnum(t, d)
    def cnum(s, t, d):
        p, r = s.p, s.r; k = p.k(t)
        if d <= 0 or s.narrow(k):
            if r.random() < .3 and s.consts.get(t): return r.choice(s.consts[t])
            return p.lit(t, s.small(k))
        x = r.random()
        if x < .35: return p.bin(r.choice('+*' if k[0] == 'u' else '+-*'), s.cnum(t, d-1), s.cnum(t, d-1))
        if x < .5: return p.bin(r.choice('/%'), s.cnum(t, d-1), p.lit(t, r.choice([1, 2, 3, 7, 10])))
        if x < .65: return p.bin(r.choice('&|^'), s.cnum(t, d-1), s.cnum(t, d-1))
        if x < .75: return p.bin(r.choice(['<<', '>>']), s.cnum(t, d-1), p.lit(t, r.randint(0, 5)))
        if x < .82 and k[0] == 'i': return p.un(r.choice(['neg', 'bnot']), s.cnum(t, d-1))
        if x < .92:
            u = s.T(r.choice(IT)); return p.conv(s.cnum(u, d-1), t)
        if x < .96: return p.conv(p.szof(s.T(r.choice(IT + ['bool', 'char', 'f32', 'f64']))), t)
        return p.lit(t, s.small(k))

def const_programs(rng, n, mode='asm'):
    out = []
    for i in range(n):
        g = K(rng, f'const_{i}', mode); p = g.p
        shown = []
        for _ in range(rng.randint(3, 8)):
            k = rng.choice(IT + ['i32', 'i64', 'bool', 'char', 'f32', 'f64']); t = g.T(k)
            e = g.cex(t, rng.randint(0, 3)); const = rng.random() < .5
            v = p.glob(t, e, const=const); shown.append(v)
            if const and k not in ('f32', 'f64', 'char'): g.consts.setdefault(t, []).append(p.var(v))
        for _ in range(rng.randint(1, 3)):          # the initialiser has another type than the global
            k, k2 = rng.choice(IT), rng.choice(IT + ['f32', 'f64'])
            if k2 in ('f32', 'f64') or rng.random() < .7: e = g.cleaf(g.T(k))
            else: e = g.cnum(g.T(k), 2)
            shown.append(p.glob(g.T(k2), e))
        def build():
            for v in shown:
                g.ss.append(p.emit(p.var(v), 'global ' + p.vars[v-1]['name']))
                if not p.isflt(p.vars[v-1]['t']): g.show(p.var(v))
            for t, l in g.consts.items():          # the same expressions at run time
                if p.k(t) in I4:
                    for _ in range(2): g.show(g.cnum(t, 3))
        out.append(g.main(build))
    for i in range(n // 2):
        g = K(rng, f'aggr_{i}', mode); p = g.p
        for _ in range(rng.randint(1, 3)): g.rstruct(1, maxf=5)
        shown = []
        def agg(t):
            k = p.k(t)
            if k == 'st':
                if any(p.k(f['t']) in ('ptr', 'carr', 'arr') for f in p.fields(t)): return None
                es = [agg(f['t']) for f in p.fields(t)]
                return None if None in es else p.lits(t, es)
            if k in ('arr', 'carr'): 
                es = [agg(p.of(t)) for _ in range(p.types[t-1]['n'])]
                return None if None in es else p.lits(t, es)
            return g.cex(t, rng.randint(0, 2))
        for _ in range(rng.randint(2, 5)):
            x = rng.random()
            base = rng.choice(g.structs) if rng.random() < .6 else g.T(rng.choice(SC))
            t = base if x < .4 else (p.arr if x < .7 else p.carr)(base, rng.randint(1, 4))
            if p.k(t) not in ('st', 'arr', 'carr'): continue
            e = agg(t)
            shown.append(p.glob(t, e if e is not None and rng.random() < .85 else None))
        st = None
        if rng.random() < .6:
            st = ''.join(rng.choice('abc xyz\n\t"%$') for _ in range(rng.randint(0, 12)))
            sv = p.glob(p.ptr(p.char), p.str_(st))
        def build():
            for v in shown:
                g.emits(p.var(v), 'global')
                if p.k(p.vars[v-1]['t']) in ('arr', 'carr'): g.show(p.len_(p.var(v)))
            if st is not None:
                g.ss.append(p.emitp(p.var(sv), len(st) + 1, 'global string')); g.show(p.len_(p.var(sv)))
            for v in shown:
                x = g.parts(p.var(v))
                if x:
                    y = rng.choice(x); g.ss.append(p.expr(p.asg(y, g.const(y.t)))); g.emits(p.var(v), 'global after a store')
        out.append(g.main(build))
    # enumeration members and constants that depend on each other
    for i in range(max(2, n // 20)):
        g = K(rng, f'enum_{i}', mode); p = g.p
        en = p.ty({'k': 'enum'}, f'E{i}')
        vals, names, cur, ms = [], [], 0, []
        for j in range(rng.randint(2, 8)):
            if rng.random() < .4:
                e = g.cnum(p.i32, 2); ms.append((f'M{j}', e)); vals.append(e)
            else: ms.append((f'M{j}', None)); vals.append(None)
        src = []
        prev = None
        members = []
        for (nm, e) in ms:
            if e is None: e2 = p.bin('+', prev, p.lit(p.i32, 1)) if prev is not None else p.lit(p.i32, 0)
            else: e2 = e
            prev = e2; members.append((nm, e2)); src.append(nm + (f' = {e.src}' if e is not None else ''))
        p.decls.append(f'type E{i}: enum {{\n    ' + ',\n    '.join(src) + '\n};')
        def member(j): 
            x = p.cast(members[j][1], en); x.src = f'E{i}::{members[j][0]}'; return x
        gl = [p.glob(p.i32, p.conv(member(j), p.i32)) for j in range(len(members))]
        gv = p.glob(en, member(rng.randrange(len(members))))
        def build():
            for j in range(len(members)):
                g.show(member(j)); g.show(p.conv(member(j), p.i32))
            for v in gl + [gv]: g.ss.append(p.emit(p.var(v)))
            x = g.addvar(en, member(0))
            for j in range(len(members)):
                g.ss.append(p.expr(p.asg(x, member(j)))); g.show(p.bin('==', x, member(rng.randrange(len(members))))); g.ss.append(p.emit(x))
        out.append(g.main(build))
    return out

# ---------------------------------------------------------------- functions of numbers: constant expressions, interpreter
class I(K):
    """functions over numbers with their own variables, loops and calls, and nothing else"""
    tagname = 'f'
    def __init__(s, rng, pid, mode='asm', constexpr=False):
        super().__init__(rng, pid, mode); s.ce = constexpr; s.gw = []; s.fuel = 0
        if mode == 'interp': s.p.globs.remove(s.tr); s.p.decls = [d for d in s.p.decls if 'trace' not in d]
    def fun(s, name, ps, rt, build, pure=True):
        p = s.p; f = p.declare(name, ps, rt)
        old = s.lv; s.lv = {}
        with p.infn(f):
            for i, (n_, t) in enumerate(ps): s.lv.setdefault(t, []).append(p.param(f, i))
            b = s.body(lambda: build(f))
        s.lv = old
        p.define(f, b, directive='[constexpr]\n' if s.ce else ''); p.funs[f-1]['pure'] = pure
        return f
    def rexpr(s, t, d=2):
        k = s.p.k(t)
        if k == 'bool': return s.cond(d)
        if s.p.isflt(t): return s.fex(t, d)
        if s.narrow(k): return s.leaf(t)
        x = s.r.random()
        if x < .06: return s.p.pipe(s.leaf(t), lambda h: s.p.bin('+', h, s.leaf(t)))
        if x < .1: return s.p.clos([s.leaf(t), s.int_(t, d-1)])
        if x < .14: return s.p.els(s.leaf(t), s.leaf(t))
        return s.int_(t, d)
    def fex(s, t, d):
        p, r = s.p, s.r
        if d <= 0 or r.random() < .2: return s.leaf(t)
        return p.bin(r.choice('+-*'), s.fex(t, d-1), s.fex(t, d-1))
    def locals_(s, n):
        r, p = s.r, s.p
        for _ in range(n):
            k = r.choice(IT + ['i32', 'i64', 'bool', 'f32', 'f64']); t = s.T(k)
            s.cbudget = 1
            s.addvar(t, s.rexpr(t, 2) if r.random() < .85 else None)
    def ist(s, d, loop=False, rt=None):
        r, p = s.r, s.p; x = r.random(); s.cbudget = 1
        tg = s.target()
        if d <= 0 or x < .4 or tg is None:
            y = r.random()
            if tg is None or y < .1: s.locals_(1)
            elif y < .55: s.ss.append(p.expr(p.asg(tg, s.rexpr(tg.t, 2))))
            elif y < .75:
                s.cbudget = 0; s.ss.append(p.expr(p.opasg(r.choice('+-^|&'), tg, s.leaf(tg.t))))
            elif y < .85:
                fl = [v for k in ('f32', 'f64', 'bool') for v in s.lv.get(s.T(k), [])]
                if fl: v = r.choice(fl); s.ss.append(p.expr(p.asg(v, s.rexpr(v.t, 2))))
            elif y < .93:
                q = s.p.newvar(p.ptr(tg.t)); s.ls.append(q)
                s.ss += [p.let(q, p.ref(tg)), p.expr(p.asg(p.deref(p.var(q)), s.leaf(tg.t)))]
                if r.random() < .5:
                    o = s.target()
                    if o is not None: s.ss.append(p.expr(p.asg(o, p.conv(p.deref(p.var(q)), o.t))))
            elif s.gw:
                v = r.choice(s.gw); s.cbudget = 0; s.ss.append(p.expr(p.asg(v, s.rexpr(v.t, 1))))
            return
        inner = lambda n: s.body(lambda: [s.ist(d-1, loop, rt) for _ in range(r.randint(1, n))])
        if x < .58:
            c = s.cond(2); a = inner(3); s.ss.append(p.if_(c, a, inner(2) if r.random() < .5 else None))
        elif x < .66 and loop:
            s.cbudget = 0; s.ss.append(p.if_(s.cond(1), p.block([r.choice([p.brk, p.cont])()])))
        elif x < .7 and rt:
            s.cbudget = 0; c = s.cond(1); s.ss.append(p.if_(c, p.block([p.ret(s.leaf(rt))])))
        elif x < .85:
            t = s.T(r.choice(I4)); i = p.newvar(t); s.ls.append(i); iv = p.var(i); n = r.randint(0, 4)
            old = s.protect; s.protect = s.protect | {iv.src}; keep = dict((k, list(v)) for k, v in s.lv.items())
            form = r.choice(['while', 'for', 'dowhile', 'loop', 'dounless'])
            inc = p.expr(p.opasg('+', iv, p.lit(t, 1)))
            def bd():
                if form != 'for' and form != 'dounless': s.ss.append(inc)
                if form == 'loop': s.ss.append(p.if_(p.bin('>', iv, p.lit(t, n)), p.block([p.brk()])))
                s.lv.setdefault(t, []).append(iv)
                for _ in range(r.randint(1, 3)): s.ist(d-1, form != 'dounless' or loop, rt)
            if form == 'dounless': c = s.cond(1)
            b = s.body(bd)
            if form != 'for': s.ss.append(p.let(i, p.lit(t, 0)))
            if form == 'while': s.ss.append(p.while_(p.bin('<', iv, p.lit(t, n)), b))
            elif form == 'for': s.ss.append(p.for_(p.let(i, p.lit(t, 0)), p.bin('<', iv, p.lit(t, n)), p.opasg('+', iv, p.lit(t, 1)), b))
            elif form == 'dowhile': s.ss.append(p.dowhile(b, p.bin('<', iv, p.lit(t, n))))
            elif form == 'loop': s.ss.append(p.loop(b))
            else: s.ss.append(p.dounless(b, c))
            s.protect = old; s.lv = keep
        elif x < .95:
            t = s.T(r.choice(I4)); e = s.int_(t, 1)
            if r.random() < .7: e = p.bin('%', e, p.lit(t, 5))
            cs = [(r.choice(['==', '==', '<', '>', '<=', '>=']), p.lit(t, r.randint(0, 5)), s.body(lambda: [s.ist(0) for _ in range(r.randint(1, 2))])) for _ in range(r.randint(1, 4))]
            s.ss.append(p.match(e, cs, s.body(lambda: s.ist(0)) if r.random() < .6 else None))
        else: s.ss.append(inner(2))
    def target(s):
        cs = [x for t, v in s.lv.items() for x in v if s.p.k(t) in IT and x.src not in s.protect and x.lv]
        return s.r.choice(cs) if cs else None
    def early(s, i):
        """a function with a for loop whose step others see, and which is left in every way there is"""
        r, p = s.r, s.p; i32 = p.i32; L = lambda n: p.lit(i32, n)
        pt = p.ptr(i32); how = r.choice(['ptr', 'ptr', 'glob'])
        if how == 'glob':
            gv = p.glob(i32, L(0), name=f'step{i}'); x = p.var(gv)
        def build(f):
            n = p.param(f, 0); a = p.param(f, 1)
            y = x if how == 'glob' else p.deref(a)
            s.ss.append(p.expr(p.asg(y, L(0))))
            k = s.addvar(i32, L(0)) if r.random() < .5 else None
            def bd():
                for _ in range(r.randint(1, 3)):
                    c = p.bin(r.choice(['==', '>', '>=']), p.bin('%', y, L(r.randint(2, 4))), L(r.randint(0, 2)))
                    d = p.bin(r.choice(['==', '>', '>=']), y, r.choice([n, L(r.randint(1, 6))]))
                    w = r.choice(['ret', 'ret', 'brk', 'cont', 'cont', 'add'])
                    if w == 'ret': s.ss.append(p.if_(d, p.block([p.ret(p.bin('+', y, L(r.randint(0, 9))))])))
                    elif w == 'brk': s.ss.append(p.if_(d, p.block([p.brk()])))
                    elif w == 'cont': s.ss.append(p.if_(c, p.block([p.cont()])))
                    else: s.ss.append(p.expr(p.opasg('+', y, L(1))))
                    if k is not None: s.ss.append(p.expr(p.opasg('+', k, y)))
            def outer():
                b = s.body(bd); st = p.opasg('+', y, L(r.randint(1, 3)))
                s.ss.append(p.for_(None, p.bin('<', y, L(r.randint(1, 12))), st, b))
            if r.random() < .3:
                j = p.newvar(i32); s.ls.append(j); jv = p.var(j); b = s.body(outer)
                s.ss.append(p.for_(p.let(j, L(0)), p.bin('<', jv, L(r.randint(1, 3))), p.opasg('+', jv, L(1)), b))
            else: outer()
            s.ss.append(p.ret(p.bin('+', p.bin('*', y, L(100)), k) if k is not None else y))
        f = s.fun(f'early{i}', [('n', i32), ('at', pt)], i32, build)
        def use(mix):
            v = s.addvar(i32, L(0))
            for _ in range(2):
                mix(p.call(f, [L(r.randint(0, 7)), p.ref(v)])); mix(v)
                if how == 'glob': mix(x)
        return use
    def callrand(s, f):
        F = s.p.funs[f-1]; a = []
        for v in F['vars'][:F['np']]:
            t = s.p.vars[v-1]['t']
            a.append(s.p.lit(t, s.r.randint(0, 5)) if s.p.vars[v-1]['name'] == 'fuel' else G.leaf(s, t))
        return s.p.call(f, a)
    def randfun(s, i):
        """a random function; recursive ones carry a parameter `fuel` that counts down"""
        r, p = s.r, s.p
        rt = s.T(r.choice(IT + ['i32', 'i64', 'bool', 'f64', 'f32'])); rec = r.random() < .35
        ps = ([('fuel', p.i32)] if rec else []) + [(f'a{j}', s.T(r.choice(IT + ['bool', 'f64', 'f32']))) for j in range(r.randint(1, 4))]
        def build(f):
            if rec:
                fu = p.param(f, 0); s.protect = s.protect | {fu.src}
                s.cbudget = 0; s.ss.append(p.if_(p.bin('<=', fu, p.lit(p.i32, 0)), p.block([p.ret(s.leaf(rt))])))
                s.locals_(r.randint(0, 2))
                v = p.newvar(rt); s.ls.append(v); s.cbudget = 0
                s.ss.append(p.let(v, p.call(f, [p.bin('-', fu, p.lit(p.i32, 1))] + [s.rexpr(t, 1) for _, t in ps[1:]])))
                s.lv.setdefault(rt, []).append(p.var(v))
            else: s.locals_(r.randint(0, 3))
            for _ in range(r.randint(1, 4)): s.ist(2, False, rt)
            s.cbudget = 1
            s.ss.append(p.ret(s.rexpr(rt, 3) if not rec or not p.k(rt) in I4 else p.bin('+', p.var(v), s.rexpr(rt, 1))))
        f = s.fun(f'{s.tagname}{i}', ps, rt, build); s.funcs.append(f); return f
    def classics(s):
        """recursion that must keep every activation's variables apart"""
        r, p = s.r, s.p; out = []
        i32 = p.i32; L = lambda n: p.lit(i32, n)
        def fib(f):
            n = p.param(f, 0)
            s.ss.append(p.if_(p.bin('<', n, L(2)), p.block([p.ret(n)])))
            a = s.addvar(i32, p.call(f, [p.bin('-', n, L(1))]))
            s.ss.append(p.ret(p.bin('+', a, p.call(f, [p.bin('-', n, L(2))]))))
        out.append((s.fun('fib', [('n', i32)], i32, fib), lambda: [L(r.randint(0, 9))]))
        def ack(f):
            m, n = p.param(f, 0), p.param(f, 1)
            s.ss.append(p.if_(p.bin('==', m, L(0)), p.block([p.ret(p.bin('+', n, L(1)))])))
            s.ss.append(p.if_(p.bin('==', n, L(0)), p.block([p.ret(p.call(f, [p.bin('-', m, L(1)), L(1)]))])))
            s.ss.append(p.ret(p.call(f, [p.bin('-', m, L(1)), p.call(f, [m, p.bin('-', n, L(1))])])))
        out.append((s.fun('ack', [('m', i32), ('n', i32)], i32, ack), lambda: [L(r.randint(0, 2)), L(r.randint(0, 2))]))
        def gcd(f):
            a, b = p.param(f, 0), p.param(f, 1)
            def bd():
                t = s.addvar(p.u64, p.bin('%', a, b)); s.ss += [p.expr(p.asg(a, b)), p.expr(p.asg(b, t))]
            s.ss.append(p.while_(p.bin('!=', b, p.lit(p.u64, 0)), s.body(bd))); s.ss.append(p.ret(a))
        out.append((s.fun('gcd', [('a', p.u64), ('b', p.u64)], p.u64, gcd), lambda: [p.lit(p.u64, r.randint(0, 10**r.randint(1, 12))), p.lit(p.u64, r.randint(0, 10**r.randint(1, 8)))]))
        def dig(f):
            n, b = p.param(f, 0), p.param(f, 1)
            loc = s.addvar(i32, p.bin('%', n, b)); q = s.addvar(i32, p.bin('/', n, b)); z = s.addvar(i32, L(0))
            s.ss.append(p.if_(p.bin('>', q, L(0)), p.block([p.expr(p.asg(z, p.call(f, [q, b])))])))
            s.ss.append(p.ret(p.bin('+', p.bin('*', z, L(7)), loc)))
        out.append((s.fun('digits', [('n', i32), ('b', i32)], i32, dig), lambda: [L(r.randint(0, 5000)), L(r.choice([2, 7, 10, 16]))]))
        def coll(f):
            n = p.param(f, 0); c = s.addvar(p.u32, p.lit(p.u32, 0))
            def bd():
                s.ss.append(p.if_(p.bin('==', n, p.lit(p.u64, 1)), p.block([p.brk()])))
                s.ss.append(p.expr(p.opasg('+', c, p.lit(p.u32, 1))))
                s.ss.append(p.if_(p.bin('==', p.bin('&', n, p.lit(p.u64, 1)), p.lit(p.u64, 0)), p.block([p.expr(p.asg(n, p.bin('>>', n, p.lit(p.i32, 1)))), p.cont()])))
                s.ss.append(p.expr(p.asg(n, p.bin('+', p.bin('*', n, p.lit(p.u64, 3)), p.lit(p.u64, 1)))))
            s.ss.append(p.loop(s.body(bd))); s.ss.append(p.ret(c))
        out.append((s.fun('collatz', [('n', p.u64)], p.u32, coll), lambda: [p.lit(p.u64, r.randint(1, 30))]))
        return out

def constfn_programs(rng, n, mode='asm'):
    """constants computed by [constexpr] functions, next to the same calls at run time"""
    out = []
    for i in range(n):
        g = I(rng, f'constfn_{i}', mode, constexpr=True); p = g.p
        for j in range(rng.randint(0, 2)):
            t = g.T(rng.choice(IT + ['bool'])); v = p.glob(t, g.cleaf(t), const=True, name=f'k{j}')
            x = p.var(v); x.lv = False; g.consts.setdefault(t, []).append(x)
        cl = g.classics() if i % 4 == 0 else []
        for j in range(rng.randint(1, 4)): g.randfun(j)
        shown = []
        def args(f):
            F = p.funs[f-1]; a = []
            for v in F['vars'][:F['np']]:
                t = p.vars[v-1]['t']
                a.append(p.lit(t, rng.randint(0, 4)) if p.vars[v-1]['name'] == 'fuel' else g.cleaf(t))
            return a
        calls = [(f, (lambda f: lambda: args(f))(f)) for f in g.funcs for _ in range(2)] + cl
        run = []
        for f, mk in calls:
            a = mk(); v = p.glob(p.funs[f-1]['rt'], p.call(f, a), const=rng.random() < .7); shown.append(v); run.append((f, a))
        def build():
            for v in shown: g.ss.append(p.emit(p.var(v), 'global ' + p.vars[v-1]['name']))
            for f, a in run: g.show(p.call(f, a))
        out.append(g.main(build))
    return out

def interp_programs(rng, n):
    """programs for the interpreter; what they compute ends up in the exit status"""
    out = []
    for i in range(n):
        g = I(rng, f'interp_{i}', 'interp'); p = g.p
        for j in range(rng.randint(0, 3)):
            t = g.T(rng.choice(IT + ['bool'])); const = rng.random() < .4
            v = p.glob(t, g.cleaf(t) if const or rng.random() < .7 else None, const=const, name=f'k{j}')
            if const: x = p.var(v); x.lv = False; g.consts.setdefault(t, []).append(x)
            elif p.isint(t): g.gw.append(p.var(v))
        cl = g.classics() if i % 5 == 0 else []
        early = [g.early(j) for j in range(rng.randint(1, 2))] if i % 3 == 0 else []
        gw, g.gw = g.gw, []
        for j in range(rng.randint(0, 3)): g.randfun(j)
        g.gw = gw
        def build():
            h = g.addvar(p.u32, p.lit(p.u32, 17)); g.protect = g.protect | {h.src}
            def mix(e):
                if p.isflt(e.t):
                    e = p.tern(p.bin('<', e, p.flit(35, 1, e.t)), p.lit(p.u32, 3), p.lit(p.u32, 5))
                elif p.k(e.t) == 'bool': e = p.tern(e, p.lit(p.u32, 1), p.lit(p.u32, 2))
                else: e = p.conv(e, p.u32)
                g.ss.append(p.expr(p.asg(h, p.bin('+', p.bin('*', h, p.lit(p.u32, 31)), e))))
            for f, mk in cl: mix(p.call(f, mk()))
            for use in early: use(mix)
            g.locals_(rng.randint(2, 5))
            for _ in range(rng.randint(2, 6)): g.ist(3)
            for f in g.funcs: g.cbudget = 0; mix(g.callrand(f))
            g.cbudget = 0
            for t, l in sorted(g.lv.items()):
                for x in l:
                    if x.src != h.src and p.k(t) in IT + ['bool', 'f32', 'f64']: mix(x)
            for x in g.gw: mix(x)
            mix(g.rexpr(p.u64, 3))
            e = p.bin('^', p.bin('^', h, p.bin('>>', h, p.lit(p.i32, 8))), p.bin('>>', h, p.lit(p.i32, 16)))
            g.code = p.conv(p.bin('&', e, p.lit(p.u32, 255)), p.i32)
        g.finish = lambda code=None: g.ss.append(p.ret(g.code))
        out.append(g.main(build))
    return out
