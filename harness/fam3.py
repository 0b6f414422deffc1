"""Program families about evaluation: which operands are evaluated, how often and when; how expressions group; which code is kept."""
import random
from csp import *
from gen import G, IT, irange, boundary
from fam import F, I4, SC

class E(F):
    """effects everywhere: every leaf may announce itself"""
    def setup(s, ks=('i32', 'i64', 'u32')):
        p = s.p
        s.eg, s.ptrf, s.arr, s.ixf = {}, {}, {}, None
        f = p.declare('ix', [('n', p.u8), ('x', p.i32)], p.i32)
        with p.infn(f):
            b = p.block([p.expr(p.asg(p.var(s.tr), p.param(f, 0))), p.emit(p.var(s.tr), 'index'), p.ret(p.bin('&', p.param(f, 1), s.L(3)))])
        p.define(f, b); s.ixf = f
        for k in ks:
            t = s.T(k)
            gv = p.glob(t); s.eg[t] = gv
            f = p.declare(f'at_{k}', [('n', p.u8)], p.ptr(t))
            with p.infn(f):
                b = p.block([p.expr(p.asg(p.var(s.tr), p.param(f, 0))), p.emit(p.var(s.tr), 'address'), p.ret(p.ref(p.var(gv)))])
            p.define(f, b); s.ptrf[t] = f
            s.arr[t] = p.glob(p.carr(t, 4))
        st = p.struct('Pt', [('a', p.i64), ('b', p.i32), ('c', p.u32)])
        s.st = st; s.sg = p.glob(st)
        f = p.declare('at_pt', [('n', p.u8)], p.ptr(st))
        with p.infn(f):
            b = p.block([p.expr(p.asg(p.var(s.tr), p.param(f, 0))), p.emit(p.var(s.tr), 'address'), p.ret(p.ref(p.var(s.sg)))])
        p.define(f, b); s.ptf = f
        s.two = {}
        for k in ks:
            t = s.T(k)
            f = p.declare(f'mix_{k}', [('a', t), ('b', t)], t)
            with p.infn(f):
                b = p.block([p.expr(p.asg(p.var(s.tr), p.lit(p.u8, 250))), p.emit(p.var(s.tr), 'mix'), p.ret(p.bin('-', p.param(f, 0), p.param(f, 1)))])
            p.define(f, b); s.two[t] = f
        s.ks = [s.T(k) for k in ks]
    def atom(s, e):
        """e in parentheses where an else could belong to either"""
        if e.prec <= PREC['els']: return X(s.p, dict(s.p.nodes[e.id-1]), e.t, f'({e.src})', 'atom', e.eff)
        return e
    def num(s):
        s.nt = (s.nt + 1) % 250; return s.p.lit(s.p.u8, s.nt)
    def lval(s, t):
        """an lvalue of type t, usually one whose address has an effect"""
        p, r = s.p, s.r; x = r.random()
        if s.left <= 0 or x < .2: return p.var(s.eg[t])
        s.left -= 1
        if x < .5: return p.deref(p.call(s.ptrf[t], [s.num()]))
        if x < .8: return p.idx(p.var(s.arr[t]), p.call(s.ixf, [s.num(), s.L(r.randint(0, 9))]))
        m = {'i64': 'a', 'i32': 'b', 'u32': 'c'}[p.k(t)]
        return p.mem(p.deref(p.call(s.ptf, [s.num()])), m) if r.random() < .5 else p.mem(p.call(s.ptf, [s.num()]), m)
    def ieff(s, t, d):
        """an integer expression with effects"""
        p, r = s.p, s.r; x = r.random()
        if s.left <= 0: return s.leaf(t)
        if d <= 0 or x < .15:
            s.left -= 1; return p.call(s.efn(t), [s.num(), s.leaf(t)])
        if x < .3: return p.bin(r.choice(['+', '-', '*', '&', '|', '^']), s.ieff(t, d-1), s.ieff(t, d-1))
        if x < .4: return p.tern(s.beff(d-1), s.atom(s.ieff(t, d-1)), s.atom(s.ieff(t, d-1)))
        if x < .47: return p.els(s.ieff(t, d-1), s.ieff(t, d-1))
        if x < .57: return p.inc(s.lval(t), r.choice(['inc', 'dec']))
        if x < .65: l = s.lval(t); e = p.asg(l, s.ieff(t, d-1)); return X(p, dict(p.nodes[e.id-1]), t, f'({e.src})', 'atom', True)
        if x < .75: l = s.lval(t); e = p.opasg(r.choice(['+', '-', '*', '^', '|', '&']), l, s.ieff(t, d-1)); return X(p, dict(p.nodes[e.id-1]), t, f'({e.src})', 'atom', True)
        if x < .83: s.left -= 1; return p.call(s.two[t], [s.ieff(t, d-1), s.ieff(t, d-1)])
        if x < .88: return p.clos([s.ieff(t, d-1), s.ieff(t, d-1)])
        if x < .93:
            s.left -= 1; f = s.two[t]; l = s.ieff(t, d-1); z = s.leaf(t)
            return p.pipe(l, lambda h: p.call(f, [h, z] if r.random() < .5 else [z, h]))
        return s.lval(t)
    def beff(s, d):
        p, r = s.p, s.r; x = r.random()
        if s.left <= 0: return s.leaf(p.bool)
        if d <= 0 or x < .2: s.left -= 1; return p.call(s.efn(p.bool), [s.num(), s.leaf(p.bool)])
        if x < .45: return p.and_(s.beff(d-1), s.beff(d-1))
        if x < .7: return p.or_(s.beff(d-1), s.beff(d-1))
        if x < .8: return p.un('not', s.beff(d-1))
        t = r.choice(s.ks)
        return p.bin(r.choice(['==', '!=', '<', '>', '<=', '>=']), s.ieff(t, d-1), s.ieff(t, d-1))
    def state(s):
        p = s.p
        for t in s.ks:
            s.ss.append(p.emit(p.var(s.eg[t]), 'global'))
            for i in range(4): s.ss.append(p.emit(p.idx(p.var(s.arr[t]), s.L(i)), f'element {i}'))
        for f in p.fields(s.st): s.ss.append(p.emit(p.mem(p.var(s.sg), f['n']), 'member ' + f['n']))

def effect_programs(rng, n, mode='asm'):
    out = []
    # the whole truth table of the conditional operators, nested two deep
    g = E(rng, 'eff_logic', mode); p = g.p
    def build():
        b = lambda x: g.eff(p.lit(p.bool, x))
        for o1 in (p.and_, p.or_):
            for x in (0, 1):
                for y in (0, 1):
                    g.show(o1(b(x), b(y)))
                    for z in (0, 1):
                        for o2 in (p.and_, p.or_):
                            g.show(o1(o2(b(x), b(y)), b(z))); g.show(o1(b(x), o2(b(y), b(z))))
        for x in (0, 1):
            g.show(p.un('not', b(x)))
            g.show(p.tern(b(x), g.eff(g.L(5)), g.eff(g.L(6))))
            g.show(p.els(g.eff(g.L(x)), g.eff(g.L(9))))
            for y in (0, 1):
                g.show(p.tern(p.and_(b(x), b(y)), g.eff(g.L(5)), g.eff(g.L(6))))
                g.show(p.tern(b(x), p.tern(b(y), g.eff(g.L(1)), g.eff(g.L(2))), g.eff(g.L(3))))
    out.append(g.main(build))
    # every kind of target for every assigning operator
    for k in ('i32', 'i64', 'u32'):
        g = E(rng, f'eff_target_{k}', mode); p = g.p; g.setup(); t = g.T(k)
        def build():
            for op in ['=', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', 'inc', 'dec']:
                for kind in range(4):
                    m = {'i64': 'a', 'i32': 'b', 'u32': 'c'}[k]
                    l = [lambda: p.deref(p.call(g.ptrf[t], [g.num()])),
                         lambda: p.idx(p.var(g.arr[t]), p.call(g.ixf, [g.num(), g.L(rng.randint(0, 9))])),
                         lambda: p.mem(p.call(g.ptf, [g.num()]), m),
                         lambda: p.mem(p.deref(p.call(g.ptf, [g.num()])), m)][kind]()
                    v = p.lit(t, rng.randint(1, 5))
                    if op in ('inc', 'dec'): e = p.inc(l, op)
                    else:
                        if op not in ('<<', '>>', '/', '%') and rng.random() < .5: v = g.eff(v)
                        e = p.asg(l, v) if op == '=' else p.opasg(op, l, v)
                    if rng.random() < .5: g.ss.append(p.expr(e))
                    else: g.show(X(p, dict(p.nodes[e.id-1]), t, f'({e.src})', 'atom', True))
                g.state()
        out.append(g.main(build))
    for i in range(n):
        g = E(rng, f'eff_{i}', mode); p = g.p; g.setup()
        def build():
            for t in g.ks:
                g.addvar(t, p.lit(t, g.val(p.k(t))))
                g.ss.append(p.expr(p.asg(p.var(g.eg[t]), p.lit(t, g.val(p.k(t))))))
            g.addvar(p.bool, p.lit(p.bool, rng.randint(0, 1)))
            for _ in range(8):
                g.left = rng.randint(2, 4)
                y = rng.random()
                if y < .3: g.show(g.beff(3))
                elif y < .75: g.show(g.ieff(rng.choice(g.ks), 3))
                elif y < .85:
                    c = g.beff(2)
                    with g.scope(): g.tick()
                    a = g.block
                    with g.scope(): g.tick()
                    g.ss.append(p.if_(c, a, g.block))
                else:
                    t = rng.choice(g.ks); l = g.lval(t)
                    g.ss.append(p.expr(p.asg(l, g.ieff(t, 2)) if rng.random() < .5 else p.opasg(rng.choice('+-*^&|'), l, g.ieff(t, 2))))
            g.state()
        out.append(g.main(build))
    return out

# ---------------------------------------------------------------- grouping
ARI = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
REL = ['==', '!=', '<', '>', '<=', '>=']
def prec_programs(rng, n, mode='asm'):
    out = []
    # every pair of binary operators, both groupings, printed with as few parentheses as the precedence table asks for
    for j, op1 in enumerate(ARI + REL):
        g = E(rng, f'prec_{j}', mode); p = g.p
        def build():
            t = p.i64
            vs = [g.addvar(t, p.lit(t, x)) for x in (13, 6, 3, 21, 2)]
            b = [g.addvar(p.bool, p.lit(p.bool, x)) for x in (0, 1)]
            def ap(op, l, r): return p.bin(op, l, r)
            for op2 in ARI + REL:
                for _ in range(2):
                    x, y, z = rng.sample(vs, 3)
                    if op1 in ARI and op2 in ARI:
                        c = [(x, y, z, 1), (x, y, z, 0)]
                        # divisors and shift counts stay plain
                        g.show(ap(op2, ap(op1, x, y), z))
                        if op1 not in ('/', '%', '<<', '>>'): g.show(ap(op1, x, ap(op2, y, z)))
                    elif op1 in ARI:            # x op1 y REL z, z REL x op1 y
                        g.show(ap(op2, ap(op1, x, y), z)); g.show(ap(op2, z, ap(op1, x, y)))
                    elif op2 in ARI:
                        g.show(ap(op1, ap(op2, x, y), z)); g.show(ap(op1, z, ap(op2, x, y)))
                    elif op2 in ('==', '!='):
                        g.show(ap(op2, ap(op1, x, y), rng.choice(b))); g.show(ap(op2, rng.choice(b), ap(op1, x, y)))
                    u, w = rng.choice(b), rng.choice(b)
                    if op1 in '&|^' and op2 in REL:     # the bitwise operators on truth values
                        g.show(ap(op1, u, ap(op2, x, y))); g.show(ap(op1, ap(op2, x, y), u)); g.show(ap(op1, ap(op2, x, y), ap('==', y, z)))
                        if op2 in ('==', '!='):
                            v = b[0] if u is b[1] else b[1]
                            for s, q, r in ((u, w, v), (v, u, w), (u, v, v), (v, v, u)):
                                g.show(ap(op2, ap(op1, s, q), r)); g.show(ap(op1, s, ap(op2, q, r)))
                                g.show(ap(op1, ap(op2, s, q), r)); g.show(ap(op2, s, ap(op1, q, r)))
                        for o in '&|^': g.show(ap(op1, u, ap(o, w, ap(op2, x, y)))); g.show(ap(op1, ap(o, u, w), ap(op2, x, y)))
                    if op1 in '&|^' and op2 in '&|^': g.show(ap(op2, ap(op1, u, w), b[0])); g.show(ap(op1, b[1], ap(op2, u, w)))
                if op2 in REL:
                    e = ap(op2, x, y) if op1 in ARI else ap(op1, x, y)
                    f = ap(op2, ap(op1, y, z), x) if op1 in ARI else ap(op2, y, z)
                    g.show(p.and_(e, f)); g.show(p.or_(e, f)); g.show(p.or_(p.and_(u, e), f)); g.show(p.or_(e, p.and_(f, w)))
                    g.show(p.and_(p.or_(u, e), f)); g.show(p.and_(e, p.or_(f, w)))
            for pre in ('neg', 'bnot'):
                if op1 in ARI: g.show(ap(op1, p.un(pre, x), y)); g.show(p.un(pre, ap(op1, x, y))); g.show(p.un(pre, p.un('bnot', x)))
                else: g.show(ap(op1, p.un(pre, x), y)); g.show(p.un('not', ap(op1, x, y)))
        out.append(g.main(build))
    for i in range(n):
        g = E(rng, f'group_{i}', mode); p = g.p; g.setup(('i32', 'i64', 'u32'))
        def build():
            t = p.i64
            vs = [g.addvar(t, p.lit(t, rng.randint(-40, 40))) for _ in range(4)]
            bs = [g.addvar(p.bool, p.lit(p.bool, x)) for x in (0, 1)]
            ar = g.addvar(p.carr(t, 4))
            for x in range(4): g.ss.append(p.expr(p.asg(p.idx(ar, g.L(x)), p.lit(t, rng.randint(-40, 40)))))
            st = g.addvar(g.st); g.fill(st)
            q = g.addvar(p.ptr(g.st), p.ref(st))
            def iexp(d):
                x = rng.random()
                if d <= 0: return rng.choice(vs)
                if x < .55:
                    op = rng.choice(ARI)
                    if op in ('/', '%'): return p.bin(op, iexp(d-1), p.lit(t, rng.choice([2, 3, 7])))
                    if op in ('<<', '>>'): return p.bin(op, iexp(d-1), p.lit(t, rng.randint(0, 5)))
                    return p.bin(op, iexp(d-1), iexp(d-1))
                if x < .68: return p.un(rng.choice(['neg', 'bnot']), iexp(d-1))
                if x < .74: return p.tern(bexp(d-1), g.atom(iexp(d-1)), g.atom(iexp(d-1)))
                if x < .8: return p.els(iexp(d-1), iexp(d-1))
                if x < .86: return p.idx(ar, p.bin('&', iexp(d-1), p.lit(t, 3)))
                if x < .9: return p.mem(rng.choice([st, q]), 'a')
                if x < .95: return p.conv(p.cast(iexp(d-1), p.i32), t)
                return p.call(g.two[t], [iexp(d-1), iexp(d-1)])
            def bexp(d):
                x = rng.random()
                if d <= 0: return rng.choice(bs)
                if x < .4: return p.bin(rng.choice(REL), iexp(d-1), iexp(d-1))
                if x < .6: return p.and_(bexp(d-1), bexp(d-1))
                if x < .8: return p.or_(bexp(d-1), bexp(d-1))
                return p.un('not', bexp(d-1)) if x < .92 else p.bin(rng.choice(['==', '!=']), bexp(d-1), bexp(d-1))
            for f in g.two.values(): p.funs[f-1]['pure'] = True
            for _ in range(14): g.show(iexp(rng.randint(2, 5)))
            for _ in range(6): g.show(bexp(rng.randint(2, 4)))
            # chains of assignments group to the right
            a, b, c = vs[:3]
            g.ss.append(p.expr(p.asg(a, p.asg(b, p.asg(c, iexp(2))))))
            g.ss.append(p.expr(p.opasg('+', a, p.opasg('-', b, p.asg(c, iexp(1))))))
            for v in vs: g.ss.append(p.emit(v))
        out.append(g.main(build))
    return out

# ---------------------------------------------------------------- code that is needed stays
def reach_programs(rng, mode='asm'):
    """functions and globals mentioned in exactly one place of every kind"""
    out = []
    def prog(pid, mk):
        g = E(rng, 'reach_' + pid, mode); p = g.p
        cnt = [0]
        def h(t=None, args=1, name=None):
            """a fresh function, used once"""
            t = t or p.i32; cnt[0] += 1
            f = p.declare(name or f'only{cnt[0]}', [(f'a{i}', t) for i in range(args)], t)
            with p.infn(f):
                b = p.block([p.expr(p.asg(p.var(g.tr), p.lit(p.u8, cnt[0]))), p.emit(p.var(g.tr), f'only{cnt[0]}'), p.ret(p.param(f, 0) if args else p.lit(t, 3))])
            p.define(f, b); return f
        def c(v=2, t=None): t = t or p.i32; return p.call(h(t), [p.lit(t, v)])
        def cb(v=1): return c(v, p.bool)
        g.h, g.c, g.cb = h, c, cb
        pre = mk(g, p) if False else None
        out.append(g.main(lambda: mk(g, p)))
    B = lambda p, *ss: p.block(list(ss))
    def exprs(g, p):
        a = g.addvar(p.i32, g.c()); b = g.addvar(p.bool, g.cb())
        for op in ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '>', '<=', '>=']:
            g.show(p.bin(op, g.c(7), g.L(3))); g.show(p.bin(op, g.L(7), g.c(3)))
        g.show(p.and_(g.cb(), g.cb())); g.show(p.or_(g.cb(0), g.cb()))
        for u in ('neg', 'bnot'): g.show(p.un(u, g.c()))
        g.show(p.un('not', g.cb())); g.show(p.cast(g.c(), p.i64))
        g.show(p.tern(g.cb(), g.c(), g.c())); g.show(p.tern(g.cb(0), g.c(), g.c())); g.show(p.els(g.c(0), g.c()))
        g.show(p.clos([g.c(), g.c(5)]))
        g.ss.append(p.expr(p.asg(a, g.c(9)))); g.ss.append(p.emit(a))
        g.ss.append(p.expr(p.opasg('+', a, g.c(9)))); g.ss.append(p.emit(a))
        g.show(p.call(g.h(args=2), [g.c(), g.c()]))
        f = g.h(); g.show(p.pipe(g.c(), lambda x: p.call(f, [x])))
    def places(g, p):
        ar = g.addvar(p.carr(p.i32, 4)); dr = g.addvar(p.arr(p.i32, 3)); st = g.addvar(p.struct('S', [('x', p.i32), ('y', p.i64)]))
        for i in range(4): g.ss.append(p.expr(p.asg(p.idx(ar, g.L(i)), g.c(i))))
        for i in range(3): g.ss.append(p.expr(p.asg(p.idx(dr, g.L(i)), g.c(i))))
        g.show(p.idx(ar, g.c(1))); g.show(p.idx(dr, g.c(1))); g.show(p.idx(dr, g.c(1), True))
        g.show(p.inc(p.idx(ar, g.c(1)))); g.ss.append(p.expr(p.opasg('-', p.idx(ar, g.c(2)), g.c(2))))
        for i in range(4): g.ss.append(p.emit(p.idx(ar, g.L(i))))
        g.ss.append(p.expr(p.asg(st, p.lits(st.t, [g.c(4), g.c(5, p.i64)])))); g.ss += [p.emit(p.mem(st, 'x')), p.emit(p.mem(st, 'y'))]
        fp = p.declare('adr', [], p.ptr(p.i32)); gv = p.glob(p.i32)
        with p.infn(fp): bl = B(p, p.ret(p.ref(p.var(gv))))
        p.define(fp, bl)
        g.ss.append(p.expr(p.asg(p.deref(p.call(fp, [])), g.c(8)))); g.ss.append(p.emit(p.var(gv)))
        fs = p.declare('mkst', [], st.t)
        with p.infn(fs):
            v = p.newvar(st.t); bl = p.block([p.let(v, p.lits(st.t, [g.c(6), g.c(7, p.i64)])), p.ret(p.var(v))], [v])
        p.define(fs, bl)
        g.show(p.mem(p.call(fs, []), 'y'))
        # a table of functions
        ft = p.fnty([p.i32], p.i32)
        tab = g.addvar(p.arr(ft, 3), p.lits(p.arr(ft, 3), [p.fn(g.h()) for i in range(3)]))
        for i in range(3): g.show(p.callp(p.idx(tab, g.L(i)), [g.L(i)]))
        tt = p.struct('Tab', [('f', ft), ('n', p.i32)])
        s2 = g.addvar(tt, p.lits(tt, [p.fn(g.h()), g.L(1)])); g.show(p.callp(p.mem(s2, 'f'), [g.L(5)]))
        app = p.declare('app', [('f', ft)], p.i32)
        with p.infn(app): bl = B(p, p.ret(p.callp(p.param(app, 0), [g.L(4)])))
        p.define(app, bl); g.show(p.call(app, [p.fn(g.h())]))
        g.show(p.callp(p.tern(g.cb(), p.fn(g.h()), p.fn(g.h())), [g.L(4)])) if False else None
        getf = p.declare('getf', [], ft)
        with p.infn(getf): bl = B(p, p.ret(p.fn(g.h())))
        p.define(getf, bl); g.show(p.callp(p.call(getf, []), [g.L(3)]))
    def stmts(g, p):
        one = lambda: B(p, p.expr(g.c()))
        g.ss += [p.if_(g.cb(), one(), one()), p.if_(g.cb(0), one(), one()), p.expr(g.c())]
        i = g.addvar(p.i32, p.lit(p.i32, 0))
        lt = lambda n: p.bin('<', i, p.bin('+', g.c(n), g.L(0)))
        stop = lambda: p.expr(p.asg(i, p.bin('+', i, g.c(1))))
        g.ss.append(p.while_(lt(2), B(p, stop())))
        g.ss.append(p.expr(p.asg(i, g.L(0)))); g.ss.append(p.dowhile(B(p, stop()), lt(2)))
        g.ss.append(p.dounless(one(), g.cb(0))); g.ss.append(p.dounless(one(), g.cb(1)))
        g.ss.append(p.expr(p.asg(i, g.L(0))))
        g.ss.append(p.loop(B(p, stop(), p.if_(p.bin('>', i, g.c(2)), B(p, p.brk())))))
        j = p.newvar(p.i32); g.ls.append(j); jv = p.var(j)
        g.ss.append(p.for_(p.let(j, g.c(0)), p.bin('<', jv, g.c(2)), p.opasg('+', jv, g.c(1)), one()))
        g.ss.append(p.forr(g.c(0), g.c(2), one()))
        g.ss.append(p.match(g.c(2), [('==', g.L(1), one()), ('==', g.L(2), one())], one()))
        g.ss.append(p.match(g.c(4), [('==', g.L(1), one()), ('<', g.L(2), one())], one()))
        f = p.declare('early', [], p.i32)
        with p.infn(f): bl = B(p, p.if_(g.cb(), B(p, p.ret(g.c(6)))), p.ret(g.c(7)))
        p.define(f, bl); g.show(p.call(f, []))
        f = p.declare('later', [], p.i32)
        with p.infn(f): bl = B(p, p.defer(one()), p.ret(g.c(7)))
        p.define(f, bl); g.show(p.call(f, []))
        if mode == 'asm':
            l = p.lambda_([('x', p.i32)], p.i32, lambda f: B(p, p.ret(p.bin('+', p.param(f, 0), g.c(1)))))
            v = g.addvar(l.t, l); g.show(p.callp(v, [g.L(3)]))
            l = p.lambda_([('x', p.i32)], p.i32, lambda f: p.bin('+', p.param(f, 0), g.c(1)), True)
            v = g.addvar(l.t, l); g.show(p.callp(v, [g.L(3)]))
    def chains(g, p):
        # a calls b calls c ..., each used only by the one before; globals only mentioned at the end
        f = g.h()
        for i in range(12):
            gv = p.glob(p.i32, p.lit(p.i32, i))
            n = p.declare(f'chain{i}', [('x', p.i32)], p.i32)
            with p.infn(n): bl = B(p, p.ret(p.bin('+', p.call(f, [p.param(n, 0)]), p.var(gv))))
            p.define(n, bl); f = n
        g.show(p.call(f, [g.L(1)]))
        # functions nobody calls may go, with everything in them
        for i in range(3):
            n = p.declare(f'unused{i}', [('x', p.i32)], p.i32)
            with p.infn(n): bl = B(p, p.ret(p.bin('+', p.call(g.h(), [p.param(n, 0)]), g.c())))
            p.define(n, bl)
        # mutual recursion that nobody reaches
        a = p.declare('ghost_a', [('x', p.i32)], p.i32); b = p.declare('ghost_b', [('x', p.i32)], p.i32)
        for f, o in ((a, b), (b, a)):
            with p.infn(f): bl = B(p, p.ret(p.call(o, [p.param(f, 0)])))
            p.define(f, bl)
    for n, mk in (('exprs', exprs), ('places', places), ('stmts', stmts), ('chains', chains)): prog(n, mk)
    # with: the exit function is only named by its directive
    out += with_reach(rng, mode)
    return out

def with_reach(rng, mode):
    g = E(rng, 'reach_with', mode); p = g.p
    st = p.struct('Res', [('id', p.i32)])
    pt = p.ptr(st)
    inner = p.declare('in_drop', [('x', p.i32)], p.void)
    with p.infn(inner): b = p.block([p.expr(p.asg(p.var(g.tr), p.cast(p.param(inner, 0), p.u8))), p.emit(p.var(g.tr), 'inner')])
    p.define(inner, b)
    drop = p.declare('drop_res', [('r', pt)], p.void)
    with p.infn(drop): b = p.block([p.expr(p.call(inner, [p.mem(p.param(drop, 0), 'id')]))])
    p.define(drop, b, directive='[drop]\n')
    gv = p.glob(st)
    mk = p.declare('mk', [('id', p.i32)], pt)
    with p.infn(mk): b = p.block([p.expr(p.asg(p.mem(p.var(gv), 'id'), p.param(mk, 0))), p.ret(p.ref(p.var(gv)))])
    p.define(mk, b)
    def build():
        v = p.newvar(pt); g.ls.append(v)
        with g.scope(): g.tick(77)
        g.ss.append(p.with_(v, p.call(mk, [g.L(33)]), drop, g.block))
    return [g.main(build)]

# ---------------------------------------------------------------- `...`
def unpack_arrays(rng, n, mode='asm'):
    """array literals that unpack other arrays, forwards and backwards"""
    out = []
    for i in range(n):
        g = F(rng, f'unpack_{i}', mode); p = g.p
        ks = rng.sample(IT + ['f32', 'f64', 'char', 'bool'], 3)
        st = g.rstruct(0, maxf=3) if rng.random() < .4 else None
        def build():
            for t in [g.T(k) for k in ks] + ([st] if st else []):
                arrs = []
                num = p.k(t) in IT + ['f32', 'f64']
                for _ in range(rng.randint(1, 3)):
                    m = rng.randint(1, 4)
                    et = g.T(rng.choice(IT + ['f32', 'f64'])) if num and rng.random() < .3 else t
                    ty = p.arr(et, m) if rng.random() < .7 else p.carr(et, m)
                    a = g.addvar(ty)
                    for x in range(m): g.ss.append(p.expr(p.asg(p.idx(a, g.L(x)), g.value(et)))) if p.k(t) != 'st' else g.fill(p.idx(a, g.L(x)))
                    arrs.append(a)
                for _ in range(3):
                    es, src = [], []
                    for _ in range(rng.randint(1, 4)):
                        if rng.random() < .6:
                            a = rng.choice(arrs); back = rng.random() < .5
                            m = p.types[a.t-1]['n']
                            for x in (range(m - 1, -1, -1) if back else range(m)): es.append(p.idx(a, g.L(x)))
                            src.append(a.src + '...' if back else '...' + a.src)
                        else:
                            e = g.value(g.T(rng.choice(IT + ['f32', 'f64'])) if num and rng.random() < .35 else t); es.append(e); src.append(e.src)
                    ty = p.arr(t, len(es))
                    e = p.lits(ty, es, '[' + ', '.join(src) + ']')
                    before = g.addvar(p.i64, p.lit(p.i64, 0x1122334455667788)) if rng.random() < .5 else None
                    v = g.addvar(ty, e)
                    if rng.random() < .4: g.ss.append(p.expr(p.asg(v, e)))
                    if before is not None: g.ss.append(p.emit(before, 'neighbour'))
                    g.show(p.len_(v)); g.emits(v, 'unpacked')
        out.append(g.main(build))
    return out

VA = ['i32', 'u32', 'i64', 'u64', 'f64', 'f32', 'bool', 'char', 'i8', 'u16', 'ptr']
def variadic_programs(rng, n, mode='asm'):
    """variable-length argument lists: every argument arrives at its place"""
    out = []
    for i in range(n):
        g = F(rng, f'variadic_{i}', mode); p = g.p
        p.decls.append('import "utils.csp";')
        fs = []
        for j in range(rng.randint(1, 3)):
            fl = rng.random()
            pool = VA if fl < .5 else ['f64', 'f32', 'i64'] if fl < .7 else ['i64', 'i32', 'ptr'] if fl < .9 else ['f64']
            T = lambda k: p.ptr(p.i32) if k == 'ptr' else g.T(k)
            fixed = [T(rng.choice(pool)) for _ in range(rng.choice([0, 1, 1, 2, 5, 7]))]
            va = [T(rng.choice(pool)) for _ in range(rng.choice([0, 1, 2, 4, 7, 10, 14]))]
            ps = [(f'a{x}', t) for x, t in enumerate(fixed + va)]
            rt = rng.choice([p.i64, p.f64, p.i32])
            f = p.declare(f'va{j}', ps, rt)
            with p.infn(f):
                old = g.lv; g.lv = {}
                pv = [p.param(f, x) for x in range(len(ps))]
                for x in pv:
                    if p.k(x.t) == 'ptr': g.ss.append(p.emit(p.deref(x), '*argument'))
                    else: g.ss.append(p.emit(x, 'argument'))
                g.ss.append(p.ret(g.const(rt)))
                b = g.take(); g.lv = old
            nf = len(fixed)
            head = f"fn {p.funs[f-1]['src']}({', '.join([f'{n_}: {p.tn(t)}' for n_, t in ps[:nf]] + ['rest: ...'])}): {p.tn(rt)} "
            get = ''.join(f"    let {n_}: {p.tn(t)} = va_arg!{{&rest, {p.tn(t)}}};\n" for n_, t in ps[nf:])
            p.define(f, b, emit_src=False)
            p.decls.append(head + '{\n' + get + b.src[2:])
            fs.append((f, nf, fixed + va))
        st = p.struct('Pack', [('a', p.i64), ('b', p.f64), ('c', p.i64)])
        def build():
            arr = g.addvar(p.arr(p.i64, 3)); ca = g.addvar(p.carr(p.f64, 2)); sv = g.addvar(st)
            for a in (arr, ca, sv): g.fill(a)
            for k in VA[:-1]: g.newfilled(g.T(k))
            g.newfilled(p.i32)
            before = [x for v in g.lv.values() for x in v if p.k(x.t) in SIZE]
            packs = [('...' + arr.src, [p.idx(arr, g.L(x)) for x in range(3)]), (arr.src + '...', [p.idx(arr, g.L(x)) for x in (2, 1, 0)]),
                     ('...' + ca.src, [p.idx(ca, g.L(x)) for x in range(2)]), (ca.src + '...', [p.idx(ca, g.L(x)) for x in (1, 0)]),
                     ('...' + sv.src, [p.mem(sv, m) for m in 'abc']), (sv.src + '...', [p.mem(sv, m) for m in 'cba'])]
            for f, nf, ts in fs:
                for _ in range(2):
                    es, src, j = [], [], 0
                    while j < len(ts):
                        fit = [(s_, e) for s_, e in packs if j >= nf and [x.t for x in e] == ts[j:j+len(e)]]
                        if fit and rng.random() < .7:
                            s_, e = rng.choice(fit); es += e; src.append(s_); j += len(e)
                        else:
                            e = g.value(ts[j]); es.append(e); src.append(e.src); j += 1
                    g.show(p.call(f, es, f"{p.funs[f-1]['src']}({', '.join(src)})"))
            for x in before: g.ss.append(p.emit(x, 'caller variable after the call'))
        out.append(g.main(build))
    return out

# ---------------------------------------------------------------- A03: function values in every kind of place
def fnplace_programs(rng, n, mode='asm'):
    from fam import F
    out = []
    for j in range(n):
        g = F(rng, f'fnplace_{j}', mode); p = g.p; t = g.T(rng.choice(['i32', 'i64', 'u32', 'u64', 'i16', 'u8']))
        ft = p.fnty([t, t], t, False)
        def fun(name, ps, rt, mk):
            f = p.declare(name, ps, rt)
            with p.infn(f): mk(f, *[p.param(f, i) for i in range(len(ps))]); b = g.take()
            p.define(f, b); return f
        ops = [fun(f'op{o}', [('a', t), ('b', t)], t, lambda f, a, b, o=o: (g.tick(o), g.ss.append(p.ret(p.bin(['+', '-', '&', '^'][o], a, b))))) for o in range(4)]
        val = lambda o: p.fn(o, f"({p.funs[o-1]['src']}: {p.tn(ft)})", False)
        app = fun('apply', [('f', ft), ('a', t), ('b', t)], t, lambda f, h, a, b: g.ss.append(p.ret(p.callp(h, [a, b]))))
        same = fun('same', [('pad', p.u8), ('f', ft)], ft, lambda f, pad, h: g.ss.append(p.ret(h)))
        pft = p.ptr(ft)
        sett = fun('set_', [('p', pft), ('f', ft)], p.void, lambda f, q, h: g.ss.append(p.expr(p.asg(p.deref(q), h))))
        st = p.struct('Op', [('id', p.u8), ('f', ft), ('g', ft)])
        big = p.struct('Big', [('k', p.i16), ('o', st), ('t', p.carr(ft, 2))])
        globs = [p.var(p.glob(ft)), p.var(p.glob(st)), p.var(p.glob(p.carr(ft, 3)))]
        def build():
            a = g.addvar(t, p.lit(t, rng.randint(0, 100))); b = g.addvar(t, p.lit(t, rng.randint(0, 27)))
            l0 = g.addvar(ft); l1 = g.addvar(st); l2 = g.addvar(p.carr(ft, 3)); l3 = g.addvar(big); l4 = g.addvar(p.arr(ft, 2), p.lits(p.arr(ft, 2), [val(o) for o in rng.sample(ops, 2)]))
            iv = g.addvar(p.i32, g.L(1))
            ps = g.addvar(p.ptr(st), p.ref(l1))
            places = [l0, p.mem(l1, 'f'), p.mem(l1, 'g')] + [p.idx(l2, g.L(i)) for i in range(3)] + [p.idx(l2, iv), p.mem(p.mem(l3, 'o'), 'g'), p.idx(p.mem(l3, 't'), g.L(1)), p.idx(l4, g.L(0)), p.idx(l4, iv)]
            places += [globs[0], p.mem(globs[1], 'f'), p.mem(globs[1], 'g'), p.idx(globs[2], g.L(2)), p.idx(globs[2], iv), p.mem(ps, 'f'), p.mem(ps, 'g')]
            for q in places: g.ss.append(p.expr(p.asg(q, val(rng.choice(ops)))))
            for i in (0,): g.ss.append(p.expr(p.asg(p.idx(globs[2], g.L(i)), val(ops[0]))))
            g.ss.append(p.expr(p.asg(p.mem(p.mem(l3, 'o'), 'f'), val(ops[1])))); g.ss.append(p.expr(p.asg(p.idx(p.mem(l3, 't'), g.L(0)), val(ops[2]))))
            pp = g.addvar(pft, p.ref(l0))
            places.append(p.deref(pp))
            pick = lambda: rng.choice(places)
            for _ in range(rng.randint(8, 16)):
                x = rng.random(); q = pick()
                if x < .3: g.ss.append(p.expr(p.asg(q, pick())))
                elif x < .4: g.ss.append(p.expr(p.asg(q, p.call(same, [p.lit(p.u8, 3), pick()]))))
                elif x < .5: g.ss.append(p.expr(p.asg(pp, p.ref(rng.choice(places[:-1])))))
                elif x < .6: g.ss.append(p.expr(p.call(sett, [p.ref(rng.choice(places[:-1])), pick()])))
                elif x < .65: v = g.addvar(st, l1); places[:0] = [p.mem(v, 'f'), p.mem(v, 'g')]
                elif x < .7: v = g.addvar(ft, pick()); places[:0] = [v]
                elif x < .85: g.show(p.call(app, [q, a, b]))
                else: g.show(p.callp(q, [b, a]))
                if x < .7: g.show(p.callp(q, [a, b]))
            for q in places: g.show(p.callp(q, [a, b]), None, 'called')
        out.append(g.main(build))
    return out


# ---------------------------------------------------------------- interfaces
class I(F):
    """F with values that have an interface"""
    def __init__(s, rng, pid, mode='asm'):
        super().__init__(rng, pid, mode)
        s.ifs, s.bases, s.does, s.alias = [], [], {}, []
    def setup(s):
        p, r = s.p, s.r
        for _ in range(r.choice([0, 1, 1, 2])): s.rstruct(1)
        ks = r.sample(['i32', 'i64', 'u8', 'f64', 'i16', 'bool', 'f32', 'u64'], r.randint(1, 3))
        def shape(t): return tuple(shape(f['t']) for f in p.fields(t)) if p.k(t) == 'st' else (p.k(t), p.types[t-1].get('n'), shape(p.of(t))) if p.k(t) in ('ptr', 'arr', 'carr') else p.k(t)
        s.bases = [s.T(k) for k in ks]          # types of the same shape share their functions
        for t in s.structs:
            if shape(t) not in [shape(q) for q in s.bases]: s.bases.append(t)
        if r.random() < .2: s.bases.append(p.ptr(p.i32))
        for _ in range(r.choice([1, 1, 2, 3])): s.iface()
    def anyT(s, dyns=True):
        r = s.r; x = r.random()
        if x < .25 and s.structs: return r.choice(s.structs)
        if x < .4 and s.ifs and dyns: return r.choice(s.ifs)
        if x < .5: return s.p.ptr(s.p.i32)
        return s.T(r.choice(SC))
    def iface(s):
        p, r = s.p, s.r
        ms = []
        names = r.sample(['show', 'get', 'set', 'sum', 'to_string', 'm', 'f', 'area', 'get_all', 'mm', 'sets', 'a', 'fn_of'], r.choice([1, 2, 2, 3, 4, 5]))
        for m in names:
            ret = p.void if r.random() < .2 else s.anyT()
            while p.k(ret) == 'ptr': ret = s.anyT()
            ms.append((m, [s.anyT() for _ in range(r.choice([0, 0, 1, 2, 3, 6, 9]))], ret))
        bs = r.sample(s.bases, r.randint(1, len(s.bases)))
        rets_dyn = [m for m in ms if p.k(m[2]) == 'dyn']
        s.alias.append(r.random() < .5)
        t = p.interface(f'I{len(s.ifs)}', ms, f'D{len(s.ifs)}' if s.alias[-1] else None)
        for b in bs:
            def mk(m, f, b=b):
                old, s.lv = s.lv, {}
                ps = [p.param(f, j) for j in range(1 + len(m[1]))]
                it = p.deref(ps[0])
                s.emits(it, 'self') if p.k(b) != 'ptr' else s.ss.append(p.emit(p.deref(it), '*self'))
                loc = s.newfilled(s.T(r.choice(IT)))
                for x in ps[1:]:
                    s.look(x)
                    s.lv.setdefault(x.t, []).append(x)
                if p.k(b) == 'ptr': s.ss.append(p.expr(p.asg(p.deref(it), s.const(p.i32))))
                elif r.random() < .7: s.fill(it)
                if m[2] != p.void:
                    if m[2] == b and r.random() < .5: res = it
                    elif p.k(m[2]) == 'dyn': res = s.lv[m[2]][0] if s.lv.get(m[2]) else p.var(s.gdyn[m[2]])
                    else:
                        same = s.lv.get(m[2], []); res = r.choice(same) if same else s.newfilled(m[2])
                    s.emits(loc, 'local')
                    s.ss.append(p.ret(res))
                blk = s.take(); s.lv = old
                return blk
            order = list(range(len(ms))); r.shuffle(order)
            p.implement(t, b, mk, order, r.random() < .2, r.random() < .2)
        s.ifs.append(t); s.does[t] = bs
        s.gdyn[t] = p.glob(t)
    gdyn = None
    def look(s, x, d=1):
        """what can be seen of x"""
        p, r = s.p, s.r; k = p.k(x.t)
        if k == 'ptr':
            if p.k(p.deref(x).t) not in ('ptr', 'dyn'): s.emits(p.deref(x), '*')
        elif k == 'dyn':
            m = r.choice(p.iface(x.t)[1]); s.dyncall(x, m)
        else: s.emits(x)
    def dyncall(s, x, m=None):
        p, r = s.p, s.r
        m = m or r.choice(p.iface(x.t)[1])
        args = [s.value(t) for t in m[1]]
        if p.k(m[2]) == 'void' or r.random() < .15: s.ss.append(p.expr(p.dcall(x, m[0], args)))
        elif p.k(m[2]) == 'dyn': s.addvar(m[2], p.dcall(x, m[0], args))
        else:
            res = s.addvar(m[2], p.dcall(x, m[0], args)); s.emits(res, f'{x.src}.{m[0]}')
    def value(s, t):
        p, r = s.p, s.r
        if p.k(t) != 'dyn': return super().value(t)
        vs = s.lv.get(t, [])
        if vs and (r.random() < .6 or not s.inmain): return r.choice(vs)
        if not s.inmain: return p.var(s.gdyn[t])
        return s.dynof(t)
    inmain = False
    def dynof(s, t):
        """the address of an object as a value with interface t"""
        p, r = s.p, s.r
        b = r.choice(s.does[t])
        o = s.obj(b)
        return p.dyn(t, p.ref(o), r.random() < .3)
    def obj(s, b):
        p, r = s.p, s.r
        vs = s.lv.get(b, [])
        if vs and r.random() < .6: return r.choice(vs)
        if p.k(b) == 'ptr':
            x = s.newfilled(p.i32); return s.addvar(b, p.ref(x))
        return s.newfilled(b)

def iface_programs(rng, n, mode='asm'):
    out = []
    for i in range(n):
        g = I(rng, f'iface_{i}', mode); p = g.p; g.gdyn = {}
        g.setup()
        cells = []                                  # places for such values
        t0 = rng.choice(g.ifs)
        st = p.struct('Holder', [('a', p.i32), ('d', t0), ('b', p.u8), ('e', rng.choice(g.ifs))])
        fs = []
        for j in range(rng.randint(0, 2)):          # functions that take and give such values
            ts = [rng.choice(g.ifs) if rng.random() < .6 else g.anyT() for _ in range(rng.choice([1, 2, 3, 8]))]
            ts[0] = rng.choice(g.ifs); rt = ts[0] if rng.random() < .5 else p.void
            f = p.declare(f'fn{j}', [(f'a{x}', t) for x, t in enumerate(ts)], rt)
            with p.infn(f):
                old, g.lv = g.lv, {}
                for x in range(len(ts)): g.lv.setdefault(ts[x], []).append(p.param(f, x))
                for x in range(len(ts)): g.look(p.param(f, x))
                if rt != p.void: g.ss.append(p.ret(p.param(f, 0)))
                b = g.take(); g.lv = old
            p.define(f, b); fs.append((f, ts, rt))
        def build():
            for t in g.ifs:                         # every global has a value first
                b = rng.choice(g.does[t]); o = g.obj(b)
                g.ss.append(p.expr(p.asg(p.var(g.gdyn[t]), p.dyn(t, p.ref(o)))))
            g.inmain = True
            for t in g.ifs:
                v = g.addvar(t, g.dynof(t)); cells.append(v); cells.append(p.var(g.gdyn[t]))
            h = g.addvar(st); g.ss.append(p.expr(p.asg(p.mem(h, 'd'), g.dynof(t0)))); g.ss.append(p.expr(p.asg(p.mem(h, 'e'), g.dynof(p.mem(h, 'e').t))))
            cells.extend([p.mem(h, 'd'), p.mem(h, 'e')])
            if any(g.alias):                        # dyn I[3] is not an array
              t1 = rng.choice([t for t, a in zip(g.ifs, g.alias) if a]); ar = g.addvar(p.carr(t1, 3))
              for q in range(3): g.ss.append(p.expr(p.asg(p.idx(ar, p.lit(p.i32, q)), g.value(t1)))); cells.append(p.idx(ar, p.lit(p.i32, q)))
            hp = g.addvar(p.ptr(st), p.ref(h)); cells.append(p.mem(hp, 'd'))
            for _ in range(rng.randint(5, 10)):
                k = rng.random()
                if k < .45: g.dyncall(rng.choice(cells))
                elif k < .6:
                    c = rng.choice(cells); g.ss.append(p.expr(p.asg(c, g.value(c.t))))
                elif k < .7:
                    c = rng.choice(cells); v = g.addvar(c.t, c); cells.append(v)
                elif k < .8 and fs:
                    f, ts, rt = rng.choice(fs); c = p.call(f, [g.value(t) for t in ts])
                    if rt == p.void: g.ss.append(p.expr(c))
                    else: cells.append(g.addvar(rt, c))
                elif k < .9:                        # the function itself
                    c = rng.choice(cells); m = rng.choice([m for m in p.iface(c.t)[1]])
                    e = p.method(c, m[0]); v = p.newvar(e.t); g.ls.append(v); g.ss.append(p.let(v, e, False))
                    x = p.callp(p.var(v), [p.undyn(c)] + [g.value(t) for t in m[1]])
                    g.ss.append(p.expr(x))
                else:
                    g.emits(h)
            for t, vs in list(g.lv.items()):
                for x in vs:
                    if p.k(t) not in ('dyn', 'fn', 'carr'): g.look(x)
        out.append(g.main(build))
    return out

def receiver_case(rng, mode='asm'):
    """a method of the result of a call: the call happens once"""
    g = I(rng, 'receiver_call', mode); p = g.p
    t = p.interface('I0', [('get', [], p.i32)])
    p.implement(t, p.i32, lambda m, f: (g.ss.append(p.ret(p.deref(p.param(f, 0)))), g.take())[1])
    x = p.glob(p.i32); gd = p.glob(t)
    f = p.declare('next', [], t)
    with p.infn(f):
        g.ss.append(p.expr(p.asg(p.var(x), p.bin('+', p.var(x), p.lit(p.i32, 1)))))
        g.ss.append(p.expr(p.asg(p.var(gd), p.dyn(t, p.ref(p.var(x)))))); g.ss.append(p.ret(p.var(gd)))
        b = g.take()
    p.define(f, b)
    def build():
        v = g.addvar(p.i32, p.dcall(p.call(f, []), 'get', [])); g.emits(v)
    return g.main(build)
