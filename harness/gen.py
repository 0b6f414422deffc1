"""Program families.  Each family is a list of Progs; everything random comes from
one seeded generator.  Nothing here knows what the programs should print."""
import random
from csp import *

IT = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64']
def irange(k):
    n = 8 * SIZE[k]
    if k in SIGNED: return -2**(n-1), 2**(n-1) - 1
    return 0, 2**n - 1
def boundary(k):
    lo, hi = irange(k)
    vs = {0, 1, 2, 3, 7, hi, hi - 1, hi // 2, hi // 2 + 1, lo, lo + 1, 10, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536,
          2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33 + 5, 1000000007}
    if lo < 0: vs |= {-1, -2, -7, -100, -128, -129, -32768, -2**31, -2**31 - 1}
    return sorted(v for v in vs if lo <= v <= hi)

class G:
    def __init__(s, rng, pid, mode='asm'):
        s.r, s.p, s.mode = rng, Prog(pid), mode
        s.ss, s.ls, s.lv = [], [], {}          # statements, locals, available lvalues by type
        s.safe = mode != 'asm'                 # keep signed arithmetic away from overflow
    def T(s, k): return getattr(s.p, k)
    # -- emission into the current statement list
    def show(s, e, t=None, what=''):
        a, b = s.p.show_flat(e, t, what); s.ss += a; s.ls += b
    def addvar(s, t, e=None, name=None):
        v = s.p.newvar(t, name); s.ls.append(v)
        s.ss.append(s.p.let(v, e) if e is not None else s.p.decl(v))
        s.lv.setdefault(t, []).append(s.p.var(v)); return s.p.var(v)
    def take(s):
        b = s.p.block(s.ss, s.ls); s.ss, s.ls = [], []; return b
    def scope(s):
        g = s
        class C:
            def __enter__(c):
                c.ss, c.ls, c.lv = g.ss, g.ls, {k: list(v) for k, v in g.lv.items()}
                g.ss, g.ls = [], []
            def __exit__(c, *a):
                g.block = g.p.block(g.ss, g.ls)
                g.ss, g.ls, g.lv = c.ss, c.ls, c.lv
        return C()
    # -- values
    def val(s, k):
        r = s.r
        if s.safe and k in SIGNED: return r.randint(max(-20, irange(k)[0]), 20)
        if r.random() < .5: return r.choice(boundary(k))
        lo, hi = irange(k)
        if r.random() < .5: return r.randint(max(lo, -300), min(hi, 300))
        return r.randint(lo, hi)
    def leaf(s, t):
        r = s.r; k = s.p.k(t)
        vs = s.lv.get(t, [])
        if vs and r.random() < .7: return r.choice(vs)
        if k == 'bool': return s.p.lit(t, r.randint(0, 1))
        if k in ('f32', 'f64'): return s.p.flit(r.randint(0, 4000), r.randint(0, 3), t)
        if k == 'char': return s.p.lit(t, r.randint(32, 126))
        return s.p.lit(t, s.val(k))
    def cond(s, d):
        r, p = s.r, s.p
        x = r.random()
        if d <= 0 or x < .1: return s.leaf(p.bool)
        if x < .55:
            t = s.T(r.choice(IT)); dd = 0 if s.narrow(p.k(t)) else d-1
            return p.bin(r.choice(['==', '!=', '<', '>', '<=', '>=']), s.int_(t, dd), s.int_(t, dd))
        if x < .7: return p.and_(s.cond(d-1), s.cond(d-1))
        if x < .85: return p.or_(s.cond(d-1), s.cond(d-1))
        return p.un('not', s.cond(d-1))
    def int_(s, t, d):
        r, p = s.r, s.p; k = p.k(t); w = 8 * SIZE[k]
        if d <= 0: return s.leaf(t)
        x = r.random()
        if x < .12: return s.leaf(t)
        if x < .5:
            op = r.choice(['+', '-', '*', '+', '-'])
            if s.safe and k in SIGNED and op == '*': op = '+'
            return p.bin(op, s.int_(t, d-1), s.int_(t, d-1))
        if x < .62:
            op = r.choice(['/', '%'])
            if s.narrow(k): return p.bin(op, s.leaf(t), p.lit(t, r.choice([1, 2, 3, 7, 10, 100])))
            dv = p.lit(t, r.choice([1, 2, 3, 5, 7, 10, 16, 100, irange(k)[1]])) if r.random() < .6 or k in SIGNED else \
                 p.bin('|', s.int_(t, d-1), p.lit(t, 1))
            return p.bin(op, s.int_(t, d-1), dv)
        if x < .75: return p.bin(r.choice(['&', '|', '^']), s.int_(t, d-1), s.int_(t, d-1))
        if x < .83:
            n = r.choice([0, 1, 2, 7, w//2, w-1])
            op = r.choice(['<<', '>>'])
            if s.safe and k in SIGNED and op == '<<': op = '>>'
            if s.narrow(k): return p.bin(op, s.leaf(t), p.lit(p.i32 if s.p.k(t) != 'u32' else t, min(n, w-1)))
            cnt = p.lit(t, n) if r.random() < .6 else p.bin('&', s.int_(t, d-1), p.lit(t, w-1))
            return p.bin(op, s.int_(t, d-1), cnt)
        if x < .9: return p.un(r.choice(['neg', 'bnot']), s.int_(t, d-1))
        if x < .95:
            u = s.T(r.choice(IT)); e = s.leaf(u) if s.narrow(p.k(u)) else s.int_(u, d-1)
            return p.conv(e, t)
        if s.p.k(t) not in ('i8', 'u8', 'i16', 'u16'):
            return p.tern(s.cond(d-1), s.int_(t, d-1), s.int_(t, d-1))
        return s.leaf(t)
    def narrow(s, k): return SIZE[k] < 4
    def finish(s, code=None):
        """wrap the collected statements into main"""
        p = s.p
        e = p.lit(p.i32, s.r.randint(0, 255) if code is None else code)
        s.ss.append(p.ret(e))
    def main(s, build, code=None):
        p = s.p
        f = p.declare('main', [], p.i32)
        with p.infn(f):
            build(); s.finish(code); b = s.take()
        p.define(f, b); p.set_main(f)
        return p

def opaque(g, t):
    """a variable of type t the compiler cannot see through: loaded from a global"""
    return None

# ---------------------------------------------------------------- integers
def arith_programs(rng, n, mode='asm'):
    out = []
    # systematic: every binary operator on every type over boundary values
    for k in IT:
        g = G(rng, f'arith_sys_{k}', mode); p = g.p; t = g.T(k)
        def build():
            bs = boundary(k)
            if g.safe and k in SIGNED: bs = [b for b in bs if abs(b) <= 100]
            a = g.addvar(t, p.lit(t, 0)); b = g.addvar(t, p.lit(t, 1)); o = g.addvar(t)
            pairs = [(rng.choice(bs), rng.choice(bs)) for _ in range(6)]
            for x, y in pairs:
                g.ss += [p.expr(p.asg(a, p.lit(t, x))), p.expr(p.asg(b, p.lit(t, y)))]
                for op in ['+', '-', '*', '&', '|', '^']: g.show(p.bin(op, a, b), t, f'{k} {x} {op} {y}')
                for op in ['==', '!=', '<', '>', '<=', '>=']: g.show(p.bin(op, a, b), None, f'{k} {x} {op} {y}')
                dz = y == 0 or (y == -1 and x == irange(k)[0])
                if not dz:
                    for op in ['/', '%']: g.show(p.bin(op, a, b), t, f'{k} {x} {op} {y}')
                for u in ['neg', 'bnot']: g.show(p.un(u, a), t, f'{k} {u} {x}')
                g.show(p.un('not', a), None, f'!{x}')
                w = 8 * SIZE[k]
                for c in (1, rng.randint(2, w-2), w-1):
                    g.ss.append(p.expr(p.asg(b, p.lit(t, c))))
                    if not (g.safe and k in SIGNED): g.show(p.bin('<<', a, b), t, f'{k} {x} << {c}')
                    g.show(p.bin('>>', a, b), t, f'{k} {x} >> {c}')
        out.append(g.main(build))
    # systematic: conversions between all types
    for k in IT + ['bool', 'char']:
        g = G(rng, f'conv_{k}', mode); p = g.p; t = g.T(k)
        def build():
            vs = [0, 1] if k == 'bool' else [65, 126, 48] if k == 'char' else rng.sample(boundary(k), 5)
            a = g.addvar(t)
            for x in vs:
                g.ss.append(p.expr(p.asg(a, p.lit(t, x))))
                for k2 in IT + ['bool', 'char']:
                    g.show(p.conv(a, g.T(k2)), None, f'({k}){x} : {k2}')
                    g.show(a, g.T(k2), f'{k2} = ({k}){x}')
        out.append(g.main(build))
    # compound assignment and increments on every kind of target
    for k in IT:
        g = G(rng, f'compound_{k}', mode); p = g.p; t = g.T(k)
        st = p.struct('S', [('a', t), ('b', t)])
        gv = p.glob(t)
        def build():
            v = g.addvar(t); s_ = g.addvar(st); ar = g.addvar(p.carr(t, 3)); q = g.addvar(p.ptr(t), p.ref(v))
            targets = [v, p.mem(s_, 'a'), p.mem(s_, 'b'), p.idx(ar, p.lit(p.i32, 1)), p.deref(q), p.var(gv)]
            for tg in targets:
                x, y = (rng.choice(boundary(k)) for _ in range(2))
                if g.safe and k in SIGNED: x, y = rng.randint(-50, 50), rng.randint(1, 10)
                g.ss.append(p.expr(p.asg(tg, p.lit(t, x)))); g.ss.append(p.emit(tg))
                ops = ['+', '-', '&', '|', '^'] + ([] if g.safe and k in SIGNED else ['*', '<<']) + ['>>']
                for op in ops:
                    z = p.lit(t, rng.randint(1, 8*SIZE[k]-1) if op in ('<<', '>>') else y)
                    g.ss.append(p.expr(p.opasg(op, tg, z))); g.ss.append(p.emit(tg, f'{k} target {op}='))
                for op in ['/', '%']:
                    g.ss.append(p.expr(p.opasg(op, tg, p.lit(t, rng.choice([2, 3, 7]))))); g.ss.append(p.emit(tg, f'{k} {op}='))
                for z in ('inc', 'dec', 'inc'):
                    g.show(p.inc(tg, z)); g.ss.append(p.emit(tg, f'{k} {z}'))
                for x in (irange(k)[1], irange(k)[0]):
                    if g.safe: continue
                    g.ss.append(p.expr(p.asg(tg, p.lit(t, x)))); g.ss.append(p.expr(p.inc(tg, 'inc' if x > 0 else 'dec'))); g.ss.append(p.emit(tg))
        out.append(g.main(build))
    # mixed widths in + - * /: the wider operand decides
    g = G(rng, 'mixed', mode); p = g.p
    def build():
        for _ in range(40):
            k1, k2 = rng.choice(['i32', 'u32', 'i64', 'u64']), rng.choice(IT)
            if g.safe and (k1 in SIGNED) != (k2 in SIGNED): continue
            a = g.addvar(g.T(k1), p.lit(g.T(k1), g.val(k1))); b = g.addvar(g.T(k2), p.lit(g.T(k2), g.val(k2)))
            if SIZE[k1] == SIZE[k2] and (k1 in SIGNED) != (k2 in SIGNED): continue
            if rng.random() < .5: a, b = b, a
            op = rng.choice(['+', '-', '*'])
            if g.safe and op == '*': op = '+'
            e = p.bin(op, a, b)
            g.show(e, e.t, f'{k1} {op} {k2}')
    out.append(g.main(build))
    # random nested expressions
    for i in range(n):
        g = G(rng, f'iexpr_{i}', mode); p = g.p
        for k in IT:
            gv = p.glob(g.T(k)); g.lv.setdefault(g.T(k), []).append(p.var(gv))
        def build():
            for k in IT:
                g.ss.append(p.expr(p.asg(g.lv[g.T(k)][0], p.lit(g.T(k), g.val(k)))))
                g.addvar(g.T(k), p.lit(g.T(k), g.val(k)))
                g.addvar(g.T(k), p.lit(g.T(k), g.val(k)))
            for _ in range(12):
                t = g.T(rng.choice(IT)); g.show(g.int_(t, rng.randint(2, 4)))
            for _ in range(3): g.show(g.cond(3))
        out.append(g.main(build))
    return out
