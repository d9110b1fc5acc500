"""Generators of whole optimal control problems (plain-data specs) and evaluation points for them."""
from hypothesis import strategies as st
from vt import gen


@st.composite
def ocp_spec(draw, max_states=3, max_controls=2, quantities=0, switches=0, utm=0, epstrig=False, time_dep=True,
             end_bounds=0, costs=True, nonlinear_u=True, cyclic=0, eta=False, end_time=True, qty_controls=True, wide=False, bound_controls=True, least=0, roots=False):
    n = draw(st.integers(1, max_states))
    m = draw(st.integers(1, max_controls))
    wide = wide and draw(st.integers(0, 5)) == 0
    if wide:        # many variables, short expressions
        n, m = draw(st.integers(4, 7)), draw(st.integers(1, 3))
        quantities, switches = min(quantities, 1), 0
    terms = 1 if wide else 2
    sn = draw(st.permutations(gen.STATE_NAMES))[:n]
    cn = draw(st.permutations(gen.CONTROL_NAMES))[:m]
    kn = draw(st.permutations(gen.CONST_NAMES))[:draw(st.integers(0, 3))]
    tname = draw(st.sampled_from(['t', 't', 'tau', 's1']))
    consts = [dict(name=k, value=draw(st.integers(20, 200)) / 100.0) for k in kn]
    ncyc = min(draw(st.integers(1, cyclic)), n) if cyclic else 0
    cyc = list(sn)[:ncyc]
    if ncyc and draw(st.booleans()):
        # the ignorable coordinates need not come first
        perm = draw(st.permutations(list(sn)))
        sn = list(perm)
    base = [s for s in sn if s not in cyc] + list(kn)
    if time_dep and draw(st.booleans()):
        base = base + [tname]
    if not base:
        base = [tname] if time_dep else ['1.5']
    aux = []
    quants = []
    for i in range(draw(st.integers(min(least, quantities), quantities)) if quantities else 0):
        nm = 'qty%d' % i
        pool = base + (list(cn) if qty_controls and draw(st.booleans()) else []) + aux * 3
        quants.append(dict(name=nm, expr=draw(gen.expr(pool, 2, 2))))
        aux.append(nm)
    if quants:
        order = draw(st.permutations(list(range(len(quants)))))
        quants = [quants[i] for i in order]
    sws = []
    for i in range(draw(st.integers(min(least, switches), switches)) if switches else 0):
        nm = 'sw%d' % i
        nf = draw(st.integers(1, 3))
        pool = base + (list(cn) if qty_controls else []) + aux
        cpool = base if draw(st.booleans()) else pool
        conds = []
        for _ in range(nf):
            conds.append([draw(gen.expr(cpool, 1, 1)) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3])))])
            if draw(st.integers(0, 5)) == 0:
                conds[-1].append(draw(st.sampled_from(conds[draw(st.integers(0, len(conds) - 1))])))   # the same condition again
        tol = draw(st.sampled_from(['tol_sw', 'tol_sw', 'tol_sw2']))
        sws.append(dict(name=nm, functions=[draw(gen.expr(pool, 1, 2)) for _ in range(nf)], conditions=conds, tol=tol))
        aux.append(nm)
    if sws:
        for tol in sorted(set(w['tol'] for w in sws)):
            consts.append(dict(name=tol, value=draw(st.integers(50, 300)) / 100.0))
    pool = base + aux * 2
    states = []
    for i, s in enumerate(sn):
        e = draw(gen.expr(pool, terms, 2))
        for c in cn:
            if draw(st.booleans()):
                form = draw(st.sampled_from(['%s*%s', '%s*sin(%s)', '%s*%s', '%s*cos(%s)'] if nonlinear_u else ['%s*%s']))
                e += ' + ' + form % (draw(st.sampled_from(['1', '0.5', '-1'] + [b for b in base])), c)
        states.append(dict(name=s, eom=e))
    if roots and draw(st.integers(0, 2)) == 0:
        # even roots of even powers: not the plain power where the variable is negative
        states[draw(st.integers(0, n - 1))]['eom'] += ' + %s*%s' % (draw(gen.coef()), draw(st.sampled_from(
            ['sqrt(%s**2)', '(%s**2)**1.5', 'log(%s**2)', 'sqrt(%s**4)', 'exp(0.5*log(%s**2))', 'exp(0.5*log(1 + %s**2))'])) % draw(st.sampled_from(base if base != ['1.5'] else list(sn))))
    L = ' + '.join('%s*%s**2' % (draw(st.sampled_from(['3', '4', '6', '2.5'])), c) for c in cn)
    if draw(st.booleans()):
        L += ' + ' + draw(gen.expr(pool, 2, 2))
    if m == 2 and draw(st.booleans()):
        L += ' + 0.5*%s*%s' % (cn[0], cn[1])
    if draw(st.booleans()):
        L += ' + 0.5*%s*%s' % (draw(st.sampled_from(list(cn))), draw(st.sampled_from(base)))
    if eta:
        for i, c in enumerate(cn):
            consts.append(dict(name='eta%d' % i, value=0.0))
            L += ' + eta%d*%s' % (i, c)
    spec = dict(indep=tname, states=states, controls=[dict(name=c) for c in cn], constants=consts,
                quantities=quants, switches=sws, path_cost=L)
    if ncyc:
        spec['symmetries'] = [dict(field=['1' if s == c else '0' for s in sn]) for c in cyc]
    endvars = list(sn) + list(kn) + ([tname] if end_time else [])
    # quantities free of controls may stand in end conditions and costs
    import re
    uses = {q['name']: set(re.findall(r'[A-Za-z_]\w*', q['expr'])) for q in quants}
    grow = True
    while grow:
        grow = False
        for a in uses:
            new = set().union(*[uses[b] for b in uses[a] if b in uses] or [set()])
            if not new <= uses[a]:
                uses[a] |= new
                grow = True
    endvars += [q for q in uses if not uses[q] & set(cn) and (end_time or tname not in uses[q])]
    ini, ter = [], []
    for s in list(sn) + ([tname] if end_time else []):
        k = draw(st.sampled_from(['fix', 'fix', 'free', 'nl']))
        if k == 'fix':
            cname = s + '_0'
            spec['constants'].append(dict(name=cname, value=draw(st.integers(0, 100)) / 100.0))
            ini.append(dict(expr='%s - %s' % (s, cname)))
        elif k == 'nl':
            ini.append(dict(expr=draw(gen.expr(endvars, 2, 2))))
        k = draw(st.sampled_from(['fix', 'free', 'free', 'nl']))
        if k == 'fix':
            cname = s + '_f'
            spec['constants'].append(dict(name=cname, value=draw(st.integers(0, 100)) / 100.0))
            ter.append(dict(expr='%s - %s' % (s, cname)))
        elif k == 'nl':
            ter.append(dict(expr=draw(gen.expr(endvars, 2, 2))))
    spec['initial'], spec['terminal'] = ini, ter
    if costs:
        if draw(st.booleans()):
            spec['terminal_cost'] = draw(gen.expr(endvars, 2, 2))
        if draw(st.integers(0, 2)) == 0:
            spec['initial_cost'] = draw(gen.expr(endvars, 2, 2))
    path = []
    ub = ([b for b in sn if b not in cyc] or list(base)) + (list(cn) if bound_controls else [])

    def bound(tag, val):
        nm = 'bnd_' + tag
        if quantities and draw(st.booleans()):
            # a bound can be a named quantity as well
            spec['constants'].append(dict(name=nm, value=val / 2))
            spec['quantities'].insert(draw(st.integers(0, len(spec['quantities']))), dict(name='q' + nm, expr='2*%s' % nm))
            return 'q' + nm
        spec['constants'].append(dict(name=nm, value=val))
        return nm
    epsn = [0]

    def activator():
        if epsn[0] and draw(st.integers(0, 3)) == 0:
            return 'eps%d' % (epsn[0] - 1)      # bounds may share their activator
        nm = 'eps%d' % epsn[0]
        epsn[0] += 1
        spec['constants'].append(dict(name=nm, value=draw(st.integers(1, 100)) / 100.0))
        return nm
    movers = [b for b in base if b in sn or b == tname]

    def moving(side, text):
        """bounds of path constraints may depend on where and when the path is"""
        if movers and draw(st.integers(0, 3)) == 0:
            return '%s %s 0.25*%s' % (text, side, draw(st.sampled_from(['%s', '%s**2', '(1 + %s)'])) % draw(st.sampled_from(movers)))
        return text
    for i in range(draw(st.integers(min(least, utm), utm)) if utm else 0):
        e = draw(gen.term(ub, 2))
        lo = draw(st.sampled_from(['-40', '-60 - 1', '-4', None, None]))
        up = draw(st.sampled_from(['50', '45 + 10', '6', None, None]))
        lo = lo or bound('lo%d' % i, draw(st.sampled_from([-55.5, -3.5, -12.25])))
        up = up or bound('up%d' % i, draw(st.sampled_from([62.25, 5.25, 17.5])))
        lo, up = moving('-', lo), moving('+', up)
        path.append(dict(expr=e, lower=lo, upper=up, activator=activator(), method=draw(st.sampled_from(['utm', 'utm', 'UTM']))))
    for i in range(draw(st.integers(min(least, end_bounds), end_bounds)) if end_bounds else 0):
        e = draw(gen.term(list(sn) if draw(st.booleans()) else endvars, 2))
        lo = draw(st.sampled_from(['-45', '-4', None])) or bound('elo%d' % i, draw(st.sampled_from([-3.5, -12.25])))
        up = draw(st.sampled_from(['52', '6', None])) or bound('eup%d' % i, draw(st.sampled_from([5.25, 17.5])))
        c = dict(expr=e, lower=lo, upper=up, activator=activator(), method=draw(st.sampled_from(['utm', 'utm', 'Utm'])))
        # bounded and exact end conditions in any order
        to = ini if draw(st.booleans()) else ter
        to.insert(draw(st.integers(0, len(to))), c)
    if epstrig:
        which = draw(st.lists(st.sampled_from(list(range(m))), min_size=1, max_size=m, unique=True))
        for k in which:
            lo = draw(st.sampled_from(['-2', '-0.5', None]))
            up = draw(st.sampled_from(['1', '3.5', None]))
            lo = lo or bound('tlo%d' % k, -1.25)
            up = up or bound('tup%d' % k, 2.75)
            lo, up = moving('-', lo), moving('+', up)
            path.append(dict(expr=cn[k], lower=lo, upper=up, activator=activator(), method='epstrig'))
    if path:
        spec['path'] = draw(st.permutations(path))
    return spec


@st.composite
def points_for(draw, spec, count=3):
    n, m = len(spec['states']), len(spec['controls'])
    nk = len(spec['constants'])
    nn = len([c for loc in ('initial', 'terminal') for c in spec.get(loc, []) if c.get('lower') is None])
    out = []
    for _ in range(count):
        pt = dict(x=draw(gen.point(n)), t=draw(st.integers(20, 200)) / 100.0, u=draw(gen.point(m)),
                  lam=draw(gen.signed(n)), lamt=draw(st.integers(-200, 200)) / 100.0,
                  dt=draw(st.integers(20, 300)) / 100.0, nu=draw(gen.signed(nn)))
        pt['k'] = [c['value'] for c in spec['constants']]
        if draw(st.booleans()):
            # continuation moves the constants away from the values they were defined with
            pt['k'] = [v if c['name'].startswith(('bnd_', 'eta')) else round(v + draw(st.integers(0, 40)) / 100.0, 6)
                       for v, c in zip(pt['k'], spec['constants'])]
        pt['f'] = dict(x=draw(gen.point(n)), t=draw(st.integers(20, 200)) / 100.0, u=draw(gen.point(m)),
                       lam=draw(gen.signed(n)), lamt=draw(st.integers(-200, 200)) / 100.0)
        if draw(st.integers(0, 2)) == 0:
            # negative values (where an expression is undefined the point is passed over)
            flips = draw(st.lists(st.sampled_from([1, 1, -1]), min_size=2 * (n + m) + 2, max_size=2 * (n + m) + 2))
            for d in (pt, pt['f']):
                for key in ('x', 'u'):
                    d[key] = [v * flips.pop() for v in d[key]]
                d['t'] *= flips.pop()
        out.append(pt)
    return out


@st.composite
def case(draw, count=3, **kw):
    spec = draw(ocp_spec(**kw))
    return dict(spec=spec, pts=draw(points_for(spec, count)))
