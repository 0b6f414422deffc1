"""The checks, one function per property."""
import gen, fam, fam3
import stdfam as sf, srcfam
CHECKS = {}
def check(pid):
    def d(f): CHECKS[pid] = f; return f
    return d

@check('A01')
def a01(c): c.machine(gen.arith_programs(c.rng(), c.n(400, 4000)))

@check('A02')
def a02(c): c.machine(fam.control_programs(c.rng(), c.n(400, 4000)))

@check('A03')
def a03(c):
    c.machine(fam.call_programs(c.rng(), c.n(200, 2000)))
    c.machine(fam3.variadic_programs(c.rng('va'), c.n(50, 500)), label='va')
    c.machine(fam3.fnplace_programs(c.rng('fnplace'), c.n(40, 400)), label='fnplace')

@check('A04')
def a04(c):
    c.machine(fam.memory_programs(c.rng(), c.n(300, 3000)))
    c.machine(fam3.unpack_arrays(c.rng('unpack'), c.n(80, 800)), label='unpack')

@check('A05')
def a05(c): c.machine(fam.float_programs(c.rng(), c.n(90, 900)))

@check('A06')
def a06(c):
    c.machine(fam.const_programs(c.rng(), c.n(200, 2000)))
    c.machine(fam.constfn_programs(c.rng('fn'), c.n(60, 600)), label='fn')

@check('B02')
def b02(c): c.machine(fam.interp_programs(c.rng(), c.n(500, 5000)), backend='interp')

@check('A07')
def a07(c): c.machine(fam3.effect_programs(c.rng(), c.n(300, 3000)))

@check('A08')
def a08(c): c.machine(fam3.prec_programs(c.rng(), c.n(60, 600)))

@check('A09')
def a09(c):
    c.machine(fam3.iface_programs(c.rng(), c.n(250, 2500)))
    c.machine(fam3.iface_programs(c.rng('c'), c.n(120, 1200), 'c'), backend='c', label='c')
    c.machine([fam3.receiver_case(c.rng())], label='once')
    c.machine([fam3.receiver_case(c.rng(), 'c')], backend='c', label='once_c')

@check('B01')
def b01(c):
    for name, f, n in (('arith', gen.arith_programs, 120), ('prec', fam3.prec_programs, 5), ('ctl', fam.control_programs, 80),
                       ('flt', fam.float_programs, 40), ('call', fam.call_programs, 70), ('constfn', fam.constfn_programs, 50)):
        c.machine(f(c.rng('c' + name), c.n(n, 10 * n), 'c'), backend='c', label='c_' + name)
    # the order of side effects in larger expressions is that of C
    c.machine(fam3.effect_programs(c.rng('cfx'), 0, 'c'), backend='c', label='c_fx')
    for f, n in (('macros', 25), ('imports', 25), ('names', 50), ('lexical', 50), ('grouping', 30), ('statements', 30), ('starts', 50)):
        c.source(texts(c, f, c.n(n, 12 * n)), backend='c', label='c_' + f)

@check('B03')
def b03(c):
    c.machine(fam3.reach_programs(c.rng()))
    c.machine(fam3.reach_programs(c.rng()), label='O0', flags=['-0'])
    for name, f, n in (('ctl', fam.control_programs, 60), ('call', fam.call_programs, 40), ('mem', fam.memory_programs, 60),
                       ('flt', fam.float_programs, 20), ('const', fam.const_programs, 40), ('fx', fam3.effect_programs, 40)):
        c.machine(f(c.rng(name), c.n(n, 10 * n)), label=name + '_O0', flags=['-0'])

# ------------------------------------------------ the standard library
@check('S01')
def s01(c):
    d = sf.mem_driver()
    c.library(d, sf.mem_scripts(c.rng(), c.n(150, 2000)))
    c.every(d, c.n(5, 6), label='all:')

@check('S02')
def s02(c):
    for t in ('u8', 'i32', 'i64', 'pair', 'big'):
        c.library(sf.vec_driver(t), sf.vec_scripts(c.rng(t), c.n(60, 800), t))
    c.every(sf.vec_driver('i32'), c.n(5, 6), label='all:')

MAPS = [('i32', 'i32'), ('i64', 'i64'), ('&char', 'i32'), ('&char', '&char'), ('i32', '&char'), ('u8', 'i8'), ('i32', 'i64'), ('i64', 'u16'), ('i16', 'u8'), ('u8', 'u64')]
@check('S03')
def s03(c):
    for k, v in MAPS:
        c.library(sf.map_driver(k, v), sf.map_scripts(c.rng(k + v), c.n(30, 400), k, v), {'zero': [-1] if v == '&char' else 0}, label=f'{k}-{v}:')
    c.every(sf.map_driver('i32', 'i32'), c.n(5, 6), '[zero |-> 0]', 'all:', {'zero': 0})

@check('S04')
def s04(c):
    c.library(sf.str_driver(), sf.str_scripts(c.rng(), c.n(150, 2000)))
    c.library(sf.cstr_driver(), sf.cstr_scripts(c.rng('c'), c.n(150, 2000)))
    c.every(sf.str_driver(), c.n(4, 5), label='all:')

@check('S05')
def s05(c):
    d = sf.fmt_driver()
    c.library(d, sf.fmt_scripts(c.rng(), c.n(150, 2000)))
    c.every(d, c.n(4, 5), label='all:')

@check('S06')
def s06(c):
    c.library(sf.regex_driver(), sf.regex_scripts(c.rng(), c.n(600, 6000)))
    c.library(sf.regex_driver(), sf.regex_bytes(), label='bytes:')
    c.library(sf.regex_driver(), sf.regex_all(c.n(3, 4), 3), label='all:')
    c.library(sf.flags_driver(), sf.flags_scripts(c.rng('flags'), c.n(200, 2000)), label='flags:')

@check('S07')
def s07(c):
    c.library(sf.num_driver(), sf.num_scripts(c.rng(), c.n(400, 4000)))

@check('S08')
def s08(c):
    f = sf.file_driver()
    c.library(f, sf.file_scripts(c.rng(), c.n(200, 2500)))
    c.every(f, c.n(4, 5), label='all:')
    c.library(sf.dir_driver(), sf.dir_scripts(c.rng('dir'), c.n(60, 500)), label='dir:')

@check('S09')
def s09(c):
    d = sf.kernel_driver()
    c.library(d, sf.kernel_scripts(c.rng(), c.n(40, 500)), under='kernel')
    c.library(d, sf.clock_scripts(c.rng('clock'), c.n(200, 3000)), under='kernel', label='clock:')

@check('S10')
def s10(c):
    d = sf.process_driver(); cfg = {'line': sf.process_line(d)}
    c.library(d, sf.process_scripts(c.rng(), c.n(80, 600)), cfg)
    c.every(d, c.n(3, 4), f'[line |-> {cfg["line"]}]', 'all:', cfg)

@check('S11')
def s11(c):
    d = sf.thread_driver()
    c.library(d, sf.thread_scripts(c.rng(), c.n(150, 2000)))
    c.every(d, c.n(4, 5), label='all:')

# ------------------------------------------------ from the text to the program (Source.tla)
def texts(c, family, n):
    f = getattr(srcfam, family); seed = c.rng(family).randrange(1 << 30)
    return [f(seed, i) for i in range(n)]

@check('F01')
def f01(c):
    c.source(texts(c, 'macros', c.n(120, 1500)))
    c.source(texts(c, 'imports', c.n(80, 1000)))

@check('F02')
def f02(c):
    c.source(texts(c, 'names', c.n(240, 3000)))

@check('F03')
def f03(c):
    c.source(texts(c, 'mutant', c.n(360, 6000)))
    c.source(texts(c, 'wrong', c.n(720, 8000)))

@check('F04')
def f04(c):
    c.source(texts(c, 'lexical', c.n(160, 2000)))

@check('F05')
def f05(c):
    c.source(texts(c, 'grouping', c.n(100, 1200)))
    c.source(texts(c, 'statements', c.n(100, 1200)))

@check('F06')
def f06(c):
    seed = c.rng('starts').randrange(1 << 30)
    c.source(texts(c, 'starts', c.n(400, 5000)))
    c.source([srcfam.mutant(seed, i, ('starts',)) for i in range(c.n(150, 2000))])
    c.source([srcfam.wrong(seed, i, ('starts',)) for i in range(c.n(250, 3000))])
