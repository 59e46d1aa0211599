"""What is run for each property: harness functions, their bounds, solver tactics and contracts."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
BUDGET = dict(quick=300, thorough=3000)
ASSUMPTIONS = [
    'the LLVM IR produced by rustc (opt-level 1, overflow checks on, inlining off) has the semantics of the compiled library; counterexamples and path witnesses are replayed on native dev and release builds',
    'allocation never fails; the solver answers unsat/sat of z3 and cvc5 are correct (sat answers are re-evaluated on the terms)',
    'a dev-profile panic on arithmetic overflow counts as a violation even if the release profile would wrap to the right result',
]
BI = '<hmath::bigint::BigInt>::%s'; UB = '<hmath::ubigint::UBigInt>::%s'
INTS = 'u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize'.split()
def lift_names():
    names = sorted(set(re.findall(r'\blift_\w+', open(V + '/harness/src/lift.rs').read())))
    o = []
    for n in names:
        b = n[5:]
        if b in ('partial_cmp', 'ulen'): continue
        o.append(('hmath::bigint::funcs::gcd_bi' if b == 'gcd_bi' else BI % b) + '=' + n)
    for t in INTS: o += [f'<{t} as core::convert::TryFrom<hmath::bigint::BigInt>>::try_from=tlift_v_{t}', f'<{t} as core::convert::TryFrom<&hmath::bigint::BigInt>>::try_from=tlift_r_{t}']
    for t in INTS:
        for ty, k in (('hmath::bigint::BigInt', 'b'), ('hmath::ratio::Ratio', 'q')): o += [f'<{ty} as core::convert::From<{t}>>::from=flift_{k}_{t}', f'<{ty} as core::convert::From<&{t}>>::from=flift_r{k}_{t}']
    return o + ['hmath::utils::gcd_i32=mlift_gcd_i32', 'hmath::utils::gcd_i64=mlift_gcd_i64', UB % 'len' + '=lift_ulen', '<hmath::bigint::BigInt as core::cmp::PartialEq>::eq=lift_eq', '<hmath::bigint::BigInt as core::cmp::Ord>::cmp=lift_comp', '<hmath::bigint::BigInt as core::cmp::PartialOrd>::partial_cmp=lift_partial_cmp']
_c = {}
def contracts(k): return _c[k]
def _init():
    if True:
        _c['lift'] = ';'.join(lift_names())
        _c['div'] = ';'.join([UB % a + '=sum_' + a for a in 'mul add sub mul_u32 sub_u32 div_u32 geq leq gt lt sub_mut add_mut mul_mut mul_u32_mut sub_u32_mut div_u32_mut'.split()] + ['rec:' + UB % 'div' + '=sum_div_rec'])
        _c['ubi'] = ';'.join([UB % a + '=sum_' + a for x in 'mul add sub div rem mul_u32 add_u32 sub_u32 div_u32 rem_u32'.split() for a in (x, x + '_mut')] + [UB % a + '=sum_' + a for a in 'geq leq gt lt'.split()])
        ul = sorted(set(re.findall(r'\bul_(\w+)', open(V + '/harness/src/ulift.rs').read())))
        _c['ulift'] = ';'.join([UB % a + '=ul_' + a for a in ul] + ['<hmath::ubigint::UBigInt as core::cmp::PartialEq>::eq=ul_eq', '<hmath::ubigint::UBigInt as core::cmp::Ord>::cmp=ul_comp'])
        _c['usq'] = _c['ulift'] + ';' + ';'.join([UB % a + '=uq_' + a for a in 'len shift_right shift_right_mut to_u32'.split()] + [UB % 'to_u64=uq_try_u64'])
        _c['code'] = 'hmath::fp192::convert::string::from_int=sum_from_int;hmath::fp192::convert::string::to_int=sum_to_int'
        _c['sqrt'] = UB % 'sqrt=sum_isqrt'
        _c['kara'] = ';'.join([('rec:' if a in ('mul',) else '') + UB % a + '=ul_' + a for a in ul])
        rl = sorted(set(re.findall(r'\brl_(\w+)', open(V + '/harness/src/rlift.rs').read())))
        RT = '<hmath::ratio::Ratio>::%s'; RA = '<hmath::ratio::Ratio as core::cmp::%s'
        _c['rlift'] = ';'.join([RT % a + '=rl_' + a for a in rl if a != 'partial_cmp'] + [RA % 'PartialEq>::eq=rl_eq', RA % 'Ord>::cmp=rl_comp', RA % 'PartialOrd>::partial_cmp=rl_partial_cmp', _c['lift']])
        _c['rconv'] = _c['rlift'] + ';' + BI % 'log2' + '=lift_log2;' + RT % 'to_scientific_notation' + '=sum_rsci'
        _c['rstr'] = RT % 'from_denom_and_numer' + '=rs_new;' + _c['rconv'].replace(RT % 'from_denom_and_numer' + '=rl_from_denom_and_numer;', '') + ';' + ';'.join([BI % 'log2_accurate' + '=lift_log2_accurate', BI % 'to_string_dec' + '=lift_to_string_dec'] + [UB % (a + x) + '=sum_' + a + x for a in ('mul_u32', 'add_u32') for x in ('', '_mut')])
        _c['sci'] = UB % 'to_scientific_notation' + '=sum_sci;<hmath::bigint::BigInt as core::fmt::Display>::fmt=sum_fmt'
_init()
class Job:
    def __init__(s, fn, args=(), bound='', tier='quick', tactics='lias:3,lia:4,nia:6,bv:8', time=100, contracts=None, keep=4, validate=True, cost=1, extra=()):
        s.fn, s.args, s.bound, s.tier, s.tactics, s.time, s.contracts, s.keep, s.validate, s.cost, s.extra = fn, list(args), bound, tier, tactics, time, contracts, keep, validate, cost, list(extra)
    def name(s): return f"{s.fn}({','.join(map(str, s.args))})"
class Prop:
    def __init__(s, title, bounds, outside, jobs, assumptions=(), how=''): s.title, s.bounds, s.outside, s.jobs, s.assumptions, s.how = title, bounds, outside, jobs, list(assumptions), how
def findings(pid):
    try: fs = json.load(open(V + '/known_findings.json'))['findings']
    except FileNotFoundError: return []
    return [f for f in fs if f.get('property') == pid and 'fixed' not in f]
LI = 'lia:4,nia:6'
def L(fn, *args, **kw): kw.setdefault('tactics', LI); kw.setdefault('contracts', 'lift'); kw.setdefault('bound', 'integers of any size'); return Job(fn, args, **kw)
def R(fn, *args, **kw): kw.setdefault('tactics', LI); kw.setdefault('contracts', 'rlift'); kw.setdefault('bound', 'rationals of any size'); return Job(fn, args, **kw)
def D(fn, *args, **kw): return Job(fn, args, **kw)
from props import PROPS  # noqa
