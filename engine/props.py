"""Which harness instances decide a property, and within what bounds."""
ASSUME = ['floating-point operations are taken over the reals (rounding is outside the claim; replay tolerance 1e-9 relative)',
          'exp, ln, pow, erfc are uninterpreted with sound axioms (positivity, monotonicity, inverses, addition theorem)',
          'lists of results have the stated maximal length']
NA = {}


def describe(h):
    """the doc comment of a harness, for replay files"""
    import os, re
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'src', h.split('_')[0] + '.rs')
    return f'{os.path.relpath(p, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))} fn {h}: the numbered sv::close/le/check/fin call that fails states what was expected'


def J(name, *params, **o): return (name, tuple(params), o)
PROPS = {}
def prop(pid, jobs, bounds, features=None, **kw):
    PROPS[pid] = dict(features=features or [pid.lower()], jobs=jobs, bounds=bounds, **kw)
def rng(name, lo, hi, **o): return [J(name, i, **o) for i in range(lo, hi + 1)]


LONG = (5, 8, 10, 16, 25, 33, 50, 65, 100)
def long(h, ns=LONG, **o): return [J(h, n, **o) for n in ns]
def deep(t, q, th): return th if t == 'thorough' else q


prop('C01', lambda t: [J('c01_pair')] + rng('c01_period', 0, deep(t, 40, 100)) + [J('c01_period', n) for n in (64, 100)], 'ratings in [-10000,10000], K in [0,1000], all outcomes, periods of up to 40, and of 64 and 100 (thorough: up to 100) results')
prop('C02', lambda t: [J('c02_pair')] + rng('c02_period', 0, deep(t, 6, 7)) + rng('c02_long', 7, deep(t, 40, 100)) + [J('c02_long', n) for n in (64, 100)], 'ratings in [-10000,10000], importance in [0,1000], all flags and outcomes, periods of up to 6 (thorough: 7) results, of up to 40, 64 and 100 outside knockout rounds')
prop('C03', lambda t: [J('c03_pair')] + rng('c03_period', 0, deep(t, 40, 100)) + [J('c03_period', n) for n in (64, 100)], 'ratings in [-1000,1000], ages 0..130, all outcomes, periods of up to 40, and of 64 and 100 (thorough: up to 100) results')
prop('C04', lambda t: [J('c04_pair'), J('c04_expected')] + rng('c04_period', 0, 3) + long('c04_long'), 'ratings in [-900,3200], handicap in [-9,9], effective ratings at most 3299, periods of up to 3 results (some lengths up to 100 against three opponents, away from the floor)')
prop('C05', lambda t: [J('c05_pair')] + rng('c05_period', 0, 3) + long('c05_long', (8, 10, 16, 25, 33, 50, 65, 100)) + rng('c05_first', 0, deep(t, 12, 16)), 'ratings in [0,4000], index 1..200, ages 0..130, periods of up to 3 results (some lengths up to 100 against three opponents), first ratings from up to 12 (thorough: 16) games')
prop('C06', lambda t: [J('c06_pair')] + rng('c06_period', 0, 6) + long('c06_long') + rng('c06_expected', 0, 6), 'ratings in [100,3500], 0..5000 games, t in [0,100], periods of up to 6 results (some lengths up to 100 against three opponents)')
prop('C07', lambda t: [J('c07_pair'), J('c07_expected')] + rng('c07_period', 0, 4) + long('c07_long'), 'ratings in [0,4000], deviations in [1,350], c in [0,400], periods of up to 4 results (some lengths up to 100 against three opponents)')
prop('C08', lambda t: [J('c08_pair', max_dec=6, feas_ms=200, undef=False), J('c08_expected')] + rng('c08_period', 0, 2, max_dec=8, feas_ms=200, undef=False) + long('c08_long', deep(t, (3, 5, 8, 33), (3, 5, 8, 16, 33, 100)), max_dec=4, feas_ms=200, undef=False),
     'ratings in [0,4000], deviations in [1,350], volatilities in [0.01,0.5], tau in [0.2,1.5], tolerance in [1e-6,4], periods of up to 2 results (some lengths up to 33, thorough 100, against one opponent, with 4 branch decisions), up to 8 branch decisions of the volatility iteration',
     assume=['paths with more decisions in the volatility iteration are cut; definedness inside the iteration is assumed'])
prop('C09', lambda t: [J('c09_pair'), J('c09_expected'), J('c09_black')] + rng('c09_period', 0, 2) + long('c09_long', deep(t, (5, 10, 25, 100), LONG), undef=False), 'ratings in [0,4000], deviations in [1,350], eta in [-200,200], k in [0,5], b, alpha in wide ranges, periods of up to 2 results (some lengths up to 100 against three opponents)')
prop('C10', lambda t: [J('c10_pair'), J('c10_expected')] + rng('c10_period', 0, 3) + long('c10_long') + rng('c10_glicko', 0, 3), 'ratings in [0,4000], deviations in [1,350], h in [0,1000], beta in [-1,1], lambda in [0,100], gamma in [-200,200], c in [0,400], periods of up to 3 results (some lengths up to 100 against three opponents)')
NOEXP = dict(skip_undef=('exp',))
prop('C11', lambda t: [J('c11_pair')] + rng('c11_period', 0, deep(t, 8, 12), **NOEXP) + [J('c11_teams', n, m, **NOEXP) for n in range(deep(t, 4, 7)) for m in range(deep(t, 4, 7))] + [J('c11_teams', 5, 5, **NOEXP), J('c11_teams', 1, 6, **NOEXP)]
     + [J('c11_multi', s) for s in (1, 2, 11, 21, 12, 22, 111, 211, 121, 112, 222, 123, 1111, 2111) + deep(t, (), (1222, 11111))] + [J('c11_expected_multi', s) for s in (1, 11, 21, 111, 212, 1111, 11111, 111111, 321)],
     'ratings in [-200,200], uncertainties in [0.01,50], beta in [1,50], tolerance in [0,1], periods of up to 8 (thorough: 12) results, two teams of up to 3 (thorough: 6) players each and 5 against 5, up to 4 teams with all ranks (ties included)',
     assume=['in periods and large teams the exponents stay below the overflow of exp (rating / c below 709)'])
F2 = dict(feas_ms=200)
TS = dict(feas_ms=0, undef=False)
FG = dict(keys=False, cancel=True, noeq=True, **TS)
prop('C12', lambda t: [J('c12_expected')] + [J('c12_pair', d, **TS) for d in range(1, 13)] + [J('c12_period', n, 1, cost=n, **TS) for n in range(deep(t, 3, 4))] + [J('c12_period', 1, d, **TS) for d in (2, 5)]
     + [J('c12_teams', n, m, 1, **TS) for n in range(deep(t, 4, 6)) for m in range(deep(t, 4, 6))] + [J('c12_teams', 2, 1, d, **TS) for d in (2, 5)] + [J('c12_teams', 1, 5, 1, **TS), J('c12_teams', 5, 5, 1, **TS)],
     'ratings in [-100,100], uncertainties in [0.5,50], beta in [0.5,50], dynamics factor in [0,beta], draw probabilities 0.01, 0.02, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.5, 0.75, 0.9, 0.95, periods of up to 2 (thorough: 3) results, teams of up to 3 (thorough: 5) players each, 1 against 5 and 5 against 5',
     assume=['denominators and radicands inside the truncated-normal corrections are assumed defined (the conformance goals do not depend on it; C22 runs the same functions for definedness)',
             'draw probabilities are taken from the stated list'])
SYS = ('elo', 'fifa', 'dwz', 'uscf', 'ingo', 'egf', 'glicko', 'glicko2', 'boost', 'sticko', 'weng', 'ts')
MULT = (1, 2, 11, 21, 111, 212, 1111, 11111)
prop('C14', lambda t: [J('c14_' + s) for s in SYS] + [J(f'c14_{s}_list', n) for s in SYS for n in tuple(range(deep(t, 6, 12))) + ((16, 40, 100) if s != 'egf' else (16, 40))]
     + [J(f'c14_{s}_teams', n, m) for s in ('weng', 'ts') for n in (1, 2, 3) for m in (1, 2, 3)] + [J('c14_weng_multi', n) for n in MULT] + [J('c14_ts_multi', n, undef=False) for n in MULT],
     'rating ranges of C01 to C12, lists of up to 5 (thorough: 11), 16, 40 and 100 (EGF 40) opponents, two teams of up to 3 players, up to 5 teams',
     assume=['the sum of the win probabilities of several TrueSkill teams, a divisor, is assumed not to vanish'])
prop('C15', lambda t: [J('c15_' + s) for s in SYS if s not in ('glicko2', 'ts', 'dwz')] + [J('c15_sticko_plain')] + [J('c15_dwz', i) for i in range(3)] + [J('c15_dwz_order', i) for i in range(2)]
     + [J('c15_glicko2', i, max_dec=deep(t, 4, 6), feas_ms=200, undef=False) for i in (0, 2)] + [J('c15_glicko2_period', i, max_dec=deep(t, 6, 8), feas_ms=200, undef=False) for i in (0, 2)] + [J('c15_ts', d, i, **TS) for d in (1, 2, 5) for i in (0, 1)]
     + [J('c15_weng_teams', n, m) for n in (1, 2, 3) for m in (1, 2)] + [J('c15_ts_teams', n, m, i, **TS) for n in (1, 2, 3) for m in (1, 2) if n + m < 5 for i in (0, 1)] + [J('c15_weng_multi', n) for n in (11, 21, 111, 121, 1111)] + [J('c15_period', s, n, **NOEXP) for s in range(8) for n in (1, 2, 3) if (s, n) != (3, 3)],
     'rating ranges of C01 to C12, single games of every system, periods of up to 3 results (EGF 2; not DWZ, Glicko-Boost, TrueSkill), teams of up to 3 against 2 players, up to 4 Weng-Lin teams; Glicko-2 with up to 6 (thorough: 8) branch decisions of the volatility iteration',
     assume=['draws are not covered for Glicko-2 and TrueSkill', 'Glicko-2: definedness inside the volatility iteration is assumed'])
G2 = dict(feas_ms=200, undef=False)
prop('C16', lambda t: [J('c16_' + s) for s in SYS if s not in ('glicko2', 'ts')] + [J('c16_' + s) for s in ('dwz_opponent', 'uscf_opponent', 'sticko_colour', 'boost_colour')]
     + [J(h, i, max_dec=deep(t, 6, 8), **G2) for h in ('c16_glicko2', 'c16_glicko2_opponent') for i in range(3)] + [J('c16_ts', 0, **TS), J('c16_ts', 1, **TS)]
     + [J('c16_weng_teams', n, m) for n in range(4) for m in range(4)] + [J('c16_ts_teams', n, m, i, **TS) for n in range(4) for m in range(4) for i in (0, 1)] + [J('c16_ts_quality', n, m, **TS) for n in (1, 2, 3) for m in (1, 2, 3)],
     'rating ranges of C01 to C12, teams of up to 3 against 3 players; Glicko-2 with up to 6 (thorough: 8) branch decisions of the volatility iterations',
     assume=['TrueSkill: the two sides do not have exactly equal ratings', 'definedness inside the Glicko-2 iteration and the TrueSkill corrections is assumed'])
SEQ = ('elo', 'fifa', 'weng', 'ts')
prop('C17', lambda t: [J('c17_' + s) for s in SYS if s not in ('glicko2', 'ts')] + [J('c17_glicko2', i, max_dec=deep(t, 5, 8), **G2) for i in range(3)] + [J('c17_ts', **TS)] + [J('c17_' + s + '_empty') for s in SYS]
     + [J('c17_' + s + '_order', n) for s in ('ingo', 'glicko', 'boost', 'sticko') for n in (2, 3, 4) + ((6, 8) if s != 'boost' else ())] + [J('c17_uscf_order', n) for n in (2, 3, 4)] + [J('c17_dwz_order', n) for n in (2, 3)] + [J('c17_egf_order', 2)] + [J('c17_glicko2_order', 2, max_dec=4, **G2)]
     + [J('c17_' + s + '_split', n, m, **NOEXP) for s in ('elo', 'weng') for n in range(4) for m in range(4)] + [J('c17_fifa_split', n, m) for n in range(3) for m in range(3)] + [J('c17_ts_split', n, m, **TS) for n, m in ((0, 1), (1, 0), (1, 1))],
     'rating ranges of C01 to C12, orders of lists of up to 4 results (Ingo, Glicko, Sticko 8, DWZ 3, EGF and Glicko-2 2), sequential periods split up to 3 + 3 results (FIFA 2 + 2, TrueSkill 1 + 1); Glicko-2 with up to 5 (thorough: 8) branch decisions of the volatility iterations',
     assume=['EGF order: away from the floor of -900', 'definedness inside the Glicko-2 iteration and the TrueSkill corrections is assumed, exponents in Weng-Lin periods stay below the overflow of exp'])
prop('C19', lambda t: [J('c19_' + s) for s in SYS if s not in ('glicko2', 'ts')] + [J('c19_' + s + '_expected', 0, 1) for s in SYS] + [J('c19_glicko2', i, max_dec=deep(t, 4, 6), **G2) for i in range(3)] + [J('c19_ts', i, 1, **TS) for i in range(3)]
     + [J('c19_' + s + '_list', n, 1) for s in SYS for n in (0, 1, 2, 3, 10, 40)] + [J('c19_' + s + '_period', n) for s in SYS if s not in ('glicko2', 'ts', 'weng') for n in (0, 1, 2) + ((5, 12) if s not in ('dwz', 'uscf', 'egf', 'boost', 'fifa') else ())] + [J('c19_weng_period', n, **NOEXP) for n in (0, 1, 2)]
     + [J('c19_ts_period', n, 1, **TS) for n in (0, 1)] + [J('c19_glicko2_period', n, max_dec=deep(t, 4, 6), **G2) for n in (0, 1)]
     + [J(f'c19_{s}_teams', n, m, **(NOEXP if s == 'weng' else TS)) for s in ('weng', 'ts') for n in (0, 1, 2) for m in (0, 1, 2)] + [J(f'c19_{s}_multi_list', n, undef=False) for s in ('weng', 'ts') for n in (1, 11, 21, 111)] + [J('c19_weng_multi', n) for n in (1, 11, 21, 111)],
     'rating ranges of C01 to C12, lists of up to 2 results (12 in Elo, Ingo, Glicko, Sticko) and 3, 10 and 40 opponents, teams of up to 2 against 2, up to 3 teams; Glicko-2 with up to 4 (thorough: 6) branch decisions of the volatility iterations',
     assume=['definedness inside the Glicko-2 iteration and the TrueSkill corrections is assumed', 'the ratings of several teams through the trait of TrueSkill are covered by C13'])
FAC = {1: 1, 2: 2, 3: 6, 4: 24}
prop('C20', lambda t: [J('c20_weng_one')] + [J('c20_weng_two', n, m) for n in (0, 1, 2, 3) for m in (0, 1, 2, 3)] + [J('c20_weng_two_expected', n, m) for n in (1, 2, 3) for m in (1, 2, 3)]
     + [J('c20_weng_members', n, m, k) for n in (2, 3) for m in (1, 2) for k in range(1, FAC[n])] + [J('c20_weng_order', s, k) for s, n in ((11, 2), (21, 2), (111, 3), (121, 3)) for k in range(FAC[n])]
     + [J('c20_weng_order', 1111, k) for k in deep(t, (23,), (1, 9, 23))] + [J('c20_weng_even', n, m) for n in (2, 3, 4) for m in (1, 2)] + [J('c20_weng_none', s, e) for s, k in ((1, 2), (11, 3), (21, 3), (111, 4)) for e in range(k)]
     + [J('c20_ts_one', d, **TS) for d in (1, 2, 5)] + [J('c20_ts_members', n, m, k, **TS) for n in (2, 3) for m in (1, 2) for k in range(1, FAC[n])] + [J('c20_ts_two_expected', n, m, i, undef=False) for n in (1, 2, 3) for m in (1, 2, 3) for i in (0, 1)]
     + [J('c20_ts_order_expected', s, k, undef=False) for s, n in ((11, 2), (21, 2), (111, 3), (121, 3), (1111, 4)) for k in range(1, FAC[n])],
     'rating ranges of C11 and C12, teams of up to 3 players, up to 4 teams with all orders of ranks from 0 to 2^40 (Weng-Lin) or expected scores (TrueSkill), all permutations of up to 3 teams and members, some of 4',
     assume=['definedness inside the TrueSkill corrections is assumed', 'TrueSkill expected scores of two teams: the team ratings differ'])
prop('C21', lambda t: [J('c21_' + s) for s in ('elo_dwz', 'elo_fifa', 'elo_ingo', 'elo_uscf', 'uscf_elo', 'uscf_order', 'glicko', 'glicko2', 'boost', 'sticko', 'weng', 'tuples')],
     'Elo and FIFA ratings in [-10000,10000], other rating ranges as in C03 to C12, plain numbers up to 10000')
prop('C24', lambda t: [J('c24_' + s) for s in ('plain', 'unsure', 'ages', 'uscf_age', 'configs', 'outcomes', 'ranks', 'intervals')],
     'ratings in [-10000,10000], uncertainties in [0,1000], ages 0..130 (USCF 0..1000), ranks up to 2^40')
prop('C23', lambda t: [J('c23_pair'), J('c23_closer'), J('c23_none')] + [J('c23_two', n, m) for n in (1, 2, 3) for m in (1, 2, 3)] + [J('c23_multi', n) for n in (111, 121, 222, 312, 1111, 2111, 11111)]
     + [J('c23_weights', n) for n in (11, 12, 22, 31, 111, 121, 1111) + deep(t, (), (212, 122))] + [J('c23_range', n) for n in (11, 21, 111, 211, 1111)],
     'rating ranges of C12, weights in [0,10], two teams of up to 3 players, up to 5 teams of one player, 4 of up to 2, 3 of up to 3')
prop('C25', lambda t: [J('c25_errors', a, b) for a in (1, 11, 12, 22, 111) for b in (1, 2, 11, 12, 21, 22, 111, 112)] + [J('c25_fine', a) for a in (1, 2, 11, 12, 22, 111)] + [J('c25_single', k) for k in (1, 2, 3)],
     'rating ranges of C12, weights in [-10,10], up to 3 teams of up to 2 players')

def fg(t, s, k):    # branch decisions: one per iteration, one more per iteration for every tie
    n, b = len(str(s)), bin(k).count('1')
    return dict(max_dec=3 if n == 2 else [deep(t, 8, 12), deep(t, 7, 11), deep(t, 8, 11), deep(t, 7, 11)][b], **FG)

prop('C13', lambda t: [J('c13_two', n, m, o, max_dec=3, **FG) for n, m in ((1, 1),) for o in (0, 2)]
     + [J('c13_chain', s, k, **fg(t, s, k)) for s in (11, 21, 12, 22, 31) for k in (0, 1)] + [J('c13_chain', s, k, **fg(t, s, k)) for s in (111, 211, 121, 112) for k in (0, 1, 2, 3)] + [J('c13_chain', 1111, k, **fg(t, 1111, k)) for k in range(8)]
     + [J('c13_weights', s, k, z, **fg(t, s, k)) for s, z in ((11, 0), (21, 0), (21, 1), (21, 2), (22, 11), (111, 0), (121, 12)) for k in (0, 1)]
     + [J('c13_order', s, 0, k, **(fg(t, s, 0) if s < 121 else dict(max_dec=4, **FG))) for s in (11, 21, 111, 121) for k in range(1, FAC[len(str(s))])] + [J('c13_ranks', s, j, k, **fg(t, s, j)) for s, j, k in ((11, 0, 0), (11, 0, 1), (11, 1, 0), (111, 0, 0), (111, 0, 3), (111, 0, 5))] + [J('c13_members', 21, k, 1, **fg(t, 21, k)) for k in (0, 1)] + [J('c13_members', 31, 0, k, **fg(t, 31, 0)) for k in (1, 3, 5)]
     + [J('c13_trait', s, k, **fg(t, s, k)) for s in (11, 21, 111) for k in (0, 1)] + [J('c13_draw', s, k, d, **fg(t, s, k)) for s, k in ((11, 1), (21, 0), (111, 1)) for d in (2, 5, 11)],
     'ratings in [-100,100], uncertainties in [0.5,50], beta in [10,50], dynamics factor up to beta, draw probability 0.1 (some jobs: 0.25, 0.5, 0.9), weights in [0.5,2] or 0; two teams of up to 3 players, three of up to 2, four of one; ranks in some jobs up to 2^40; without ties all ten iterations of the graph (teams of several weighted players in another order: five), with one tie up to 4 (thorough: 6) and with more ties up to 3 (thorough: 4)',
     assume=['definedness inside the truncated-normal corrections is assumed, and no probability below 2.2e-162 arises', 'no intermediate value is exactly equal to a constant (a mean of exactly zero, say)', 'tied teams are not exchanged for one another'])
EMPTY = (1, 2, 11, 21, 12, 121, 212, 31, 1111)     # digits: team sizes plus one
prop('C22', lambda t: [J('c22_' + s, n) for s in ('elo', 'ingo', 'egf', 'dwz', 'uscf', 'glicko', 'sticko') for n in range(deep(t, 4, 6))] + [J('c22_fifa', n) for n in range(4)] + [J('c22_boost', n) for n in range(3)] + [J('c22_weng', n, **NOEXP) for n in range(4)]
     + [J('c22_dwz_first', n) for n in range(8)] + [J('c22_glicko2', n, max_dec=deep(t, 4, 6), **G2) for n in range(3)] + [J('c22_ts', n, **TS) for n in range(3)]
     + [J('c22_weng_teams', n, **NOEXP) for n in (0,) + EMPTY + (22, 32, 33, 222, 223, 2222)] + [J('c22_ts_scores', n) for n in (0, 2, 3, 22, 32, 33, 222, 323, 2222)] + [J('c22_ts_empty', n, undef=False) for n in (0,) + EMPTY] + [J('c22_ts_upset')], 'lists of up to 3 results (thorough: 5), Boost, Glicko-2 and TrueSkill up to 2, teams of up to 3 players, up to 4 teams (with every combination of empty teams up to 3), all ranks; ages, games played and ranks over the whole range of their types',
     assume=['results are finite wherever the real-valued reading of the code is defined; division by zero, logarithm of zero or less and root of negatives are violations, except inside the TrueSkill corrections (v, w) and the Glicko-2 iteration, where definedness is assumed; overflow of exp is outside the domain (Weng-Lin: differences of strength below 700 c), as is a DWZ period without games at index 0 and TrueSkill with no player at all'])
prop('C18', lambda t: [J('c18_' + s + '_pair') for s in ('glicko', 'boost', 'sticko')] + [J('c18_' + s, n) for s in ('glicko', 'sticko') for n in range(4)] + [J('c18_boost', n) for n in range(3)] + [J('c18_glicko2', n, max_dec=deep(t, 4, 6), **G2) for n in range(3)]
     + [J(f'c18_{s}_decay', n) for s in ('glicko', 'sticko', 'glicko2') for n in (1, 2, 3)] + [J('c18_boost_decay', n) for n in (1, 2)] + [J('c18_weng', n, **NOEXP) for n in range(2)] + [J('c18_weng_teams', n, m, **NOEXP) for n in (1, 2, 3) for m in (1, 2)] + [J('c18_weng_multi', n, **NOEXP) for n in deep(t, (11, 21, 111), (11, 21, 111, 1111))], 'periods of up to 3 results (Boost and Glicko-2 2), up to 3 periods of inactivity (Boost 2), Weng-Lin periods of up to 1 game (longer ones are folds, C17), teams of up to 3 players, up to 3 teams (thorough: 4)',
     assume=['Glicko-2: definedness inside the iteration assumed, and its deviation is only bounded by 350 in decay_deviation; the TrueSkill uncertainty is not covered here (C11 to C13 fix its formula)'])
