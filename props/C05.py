"""C05 special GRACE months: month numbers recovered from the months the
mid-dates fall in"""
from symx.harness import harness, doc

def _seq(c, n, fixed=None):
    """strictly increasing true months"""
    g = [c.int('m0', 1, 300)]
    for i in range(1, n):
        g.append(g[-1] + (fixed[i] if fixed and i in fixed else c.int(f'gap{i}', 1, 14)))
    return g

def _run(c, obs, true, label):
    before = c.array(list(obs))
    r = c.gt.time.adjust_months(before)
    c.same(len(r), len(true), 'length')
    c.close(r, c.array(list(true)), 1e-6, label)
    c.close(before, c.array(list(obs)), 1e-6, 'input left alone')

@harness('C05', exact=True, configs=[dict(n=n) for n in (2, 3, 5, 6)], thorough=[dict(n=9)])
def no_special_month(c, n):
    t = _seq(c, n)
    _run(c, t, t, 'unchanged')

@harness('C05', exact=True, configs=[dict(n=n, j=j) for n in (3, 4, 5, 6) for j in range(1, n-1)],
    thorough=[dict(n=9, j=j) for j in range(1, 8)])
def centered_in_previous_month(c, n, j):
    """month j+1 is observed in month j (Nov 2011 in Oct 2011, May 2015 in Apr 2015)"""
    t = _seq(c, n, {j: 1, j+1: 1})
    obs = list(t)
    obs[j+1] = t[j]
    _run(c, obs, t, 'month restored')

@harness('C05', exact=True, configs=[dict(n=n, j=j, near=w) for n in (3, 4, 5, 6) for j in range(1, n-1) for w in ('before', 'after') if j < n-2 or w == 'before'],
    thorough=[dict(n=9, j=j, near=w) for j in range(1, 8) for w in ('before', 'after') if j < 7 or w == 'before'])
def centered_in_next_month(c, n, j, near):
    """month j is observed in month j+1 (Dec 2011 in Jan 2012, Oct 2018 in Nov 2018)"""
    t = _seq(c, n, {j: 1, j+1: 1} if near == 'before' else {j+1: 1, j+2: 1})
    obs = list(t)
    obs[j] = t[j+1]
    _run(c, obs, t, 'month restored')

@harness('C05', exact=True, configs=[dict(kinds=k) for k in ('++', '+-', '-+', '--')])
def two_special_months(c, kinds):
    """two special pairs in one record"""
    n = 8
    fixed = {1: 1, 2: 1, 4: 1, 5: 1}
    t = _seq(c, n, fixed)
    obs = list(t)
    for k, j in zip(kinds, (1, 4)):
        if k == '+':
            obs[j+1] = t[j]
        else:
            obs[j] = t[j+1]
    _run(c, obs, t, 'months restored')

@harness('C05', exact=True, configs=[dict()])
def single_month(c):
    g = c.int('g', 1, 400)
    c.close(c.gt.time.adjust_months(g), g, 1e-6, 'scalar month')

doc('C05', 'sequences of 2-8 (thorough 9) months with arbitrary gaps of 1-14 months, first month 1-300, special pair at every interior position, '
    'one or two special pairs', ['the special pair is not the first entry and lies next to a neighbouring month, which is what makes the repair unambiguous'])
