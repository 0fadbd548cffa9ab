"""Property table: configurations, bounds and assumptions of every check."""
COMMON = [
    'Doubles that depend on symbolic inputs are exact real numbers; concrete doubles are IEEE. Rounding is outside the claim.',
    'clang 18 -O0 IR (mem2reg) of the sources is taken as their meaning; undefined behaviour the engine does not model is outside the claim.',
    'Branches that the solver cannot decide in time are taken both ways; assertions it cannot decide are counted as undecided, never as holding.',
]
PROPS = {}
NA = {}


def C(name, harness, reach=None, **kw):
    env = {k: v for k, v in kw.items() if not k.startswith('_')}
    d = {'name': name, 'harness': harness, 'env': env}
    if reach is not None:
        d['reach'] = reach
    for k, v in kw.items():
        if k.startswith('_'):
            d[k[1:]] = v
    return d


def prop(pid, bounds, cfgs, wall=None, assumptions=None):
    PROPS[pid] = {'bounds': bounds, 'cfgs': cfgs, 'wall': wall or {'quick': 40, 'thorough': 700},
                  'assumptions': assumptions or []}

# whole solves of larger concrete problems against a dense reference iteration (traj.c)
BIG = dict(mP=-3, mA=-3, mG=-3)


def XL(n=40, m=66, p=10):
    return dict(n=n, m=m, p=p, mP=-4, mA=-4, mG=-4, feas=1, _cflags=['-DMX=%d' % (80 if m <= 80 else 128)], _maxsteps=30000000)




MANY = dict(_maxsteps=30000000)


def long(what, t):
    L = [C('long-n8m12p3', 'traj.c', what=what, n=8, m=12, p=3, kmax=9, mumin=1e-7, **BIG),
         C('long-n12m17-col', 'traj.c', what=what, n=12, m=17, p=0, entry=2, kk=3, kmax=9, mumin=1e-7, **BIG),
         C('long-n5m9p2-centre', 'traj.c', what=what, n=5, m=9, p=2, centre=1, kmax=9, **BIG),
         C('late-n2m3p1', 'traj.c', what=what, n=2, m=3, p=1, late=1, kmax=14, centre=1, sd=0.97, **MANY),
         C('xl-n34m46', 'traj.c', what=what, kmax=2, **XL(34, 46, 0))]
    if t == 'thorough':
        L += [C('long-n20m30p5-row', 'traj.c', what=what, n=20, m=30, p=5, perm=2, entry=1, kmax=12, mumin=1e-7, **BIG),
              C('long-n3m25p1', 'traj.c', what=what, n=3, m=25, p=1, kk=4, kmax=12, mumin=1e-7, **BIG),
              C('late-n3m4p1', 'traj.c', what=what, n=3, m=4, p=1, late=1, kmax=19, centre=1, sd=0.985, entry=1, perm=1, **MANY), C('long-n7m3p6', 'traj.c', what=what, n=7, m=3, p=6, kk=5, kmax=9, **BIG), C('xl-n34m46-col', 'traj.c', what=what, kmax=4, centre=1, entry=2, perm=2, **XL(34, 46, 0))]
    return L


# ------------------------------------------------------------------------------------------- solver
def s01(t):
    L = [C('iter-n2m2p1', 's01.c', ['optimal', 'not-optimal', 'end'], n=2, m=2, p=1),
         C('iter-n2m2p0-centre', 's01.c', ['optimal', 'not-optimal'], n=2, m=2, p=0, centre=1),
         C('iter-n2m2p1-symmat', 's01.c', ['optimal', 'not-optimal'], n=2, m=2, p=1, sP=1, sG=1, sA=1),
         C('iter-n2m2p1-row', 's01.c', ['optimal', 'not-optimal'], n=2, m=2, p=1, entry=1, mG=0b0110),
         C('iter-n2m3p1-perm-verbose', 's01.c', ['optimal', 'not-optimal'], n=2, m=3, p=1, entry=2, perm=1, verbose=1),
         C('solve-n2m2p1', 's01b.c', ['optimal', 'end'], n=2, m=2, p=1, kmax=7),
         C('solve-n2m2p0-centre', 's01b.c', ['end'], n=2, m=2, p=0, kmax=7, centre=1)]
    L += [C('solve-n8m12p3', 's01b.c', ['optimal'], n=8, m=12, p=3, kmax=12, feas=1, **BIG), C('xl', 's01b.c', ['optimal'], kmax=2, **XL()),
          C('late', 's01b.c', n=2, m=2, p=1, kmax=102, kfrom=98, atmax=0.2, centre=1, sd=0.97, **MANY)]
    if t == 'thorough': L += [C('late-128', 's01b.c', ['optimal'], n=2, m=2, p=1, kmax=130, kfrom=100, atmax=0.1, centre=1, sd=0.97, **MANY), C('late-50', 's01b.c', n=2, m=3, p=1, kmax=66, kfrom=48, atmax=0.6, centre=1, sd=0.97, **MANY)]
    if t == 'thorough':
        L += [C('iter-n3m3p1', 's01.c', ['optimal'], n=3, m=3, p=1),
              C('iter-n3m4p1', 's01.c', ['optimal'], n=3, m=4, p=1),
              C('iter-n3m4p2', 's01.c', ['optimal'], n=3, m=4, p=2, kk=4),
              C('iter-n4m4p1', 's01.c', ['optimal'], n=4, m=4, p=1, kk=3),
              C('iter-n3m3p1-symmat', 's01.c', ['optimal'], n=3, m=3, p=1, sP=1, sG=1, sA=1),
              C('solve-n3m4p1', 's01b.c', ['optimal'], n=3, m=4, p=1, kmax=12),
              C('solve-n3m4p1-row', 's01b.c', ['optimal'], n=3, m=4, p=1, kmax=12, entry=1, kk=5, perm=2),
              C('solve-n4m5p2', 's01b.c', ['optimal'], n=4, m=5, p=2, kmax=12, kk=2)]
    return L


prop('S01', 'One iteration from an arbitrary iterate (x, y real, s, z > 0), arbitrary c, h, b, tolerances > 0 and iteration count, '
     'n<=4 m<=4 p<=2 with concrete (or, small, symbolic) matrices; whole solves of concrete problems of up to 12 iterations with '
     'arbitrary tolerances in (0,1000). Larger: concrete problems n=8 m=12 p=3 and n=40 m=66 p=10. Margins 1e-9 (one iteration) and 1e-6 (whole solves) relative.', s01)


def s02(t):
    L = [C('seq-K2', 's02.c', ['maxit', 'optimal', 'end'], K=2, lim=3),
         C('nonfinite-setup', 's02.c', ['end'], K=1, bad=2, lim=3, p=1),
         C('nonfinite-later', 's02.c', ['end'], K=2, bad=1, lim=2),
         C('seq-K2-row-centre-fail', 's02.c', ['maxit', 'end'], K=2, lim=3, p=1, fail=1, centre=1, entry=1)]
    if t == 'thorough':
        L += [C('seq-K3', 's02.c', ['maxit', 'optimal'], K=3, lim=4), C('seq-K2-p1-lim6', 's02.c', ['maxit', 'optimal'], K=2, lim=6, p=1, n=3, m=3),
              C('seq-K3-verbose-col', 's02.c', ['maxit', 'optimal'], K=3, lim=3, p=1, entry=2, verbose=1, perm=1),
              C('nonfinite-later-p1-row', 's02.c', ['end'], K=2, bad=1, lim=3, p=1, entry=1),
              C('nonfinite-setup-col', 's02.c', ['end'], K=2, bad=2, lim=3, p=1, entry=2, centre=1),
              C('seq-K2-lim12', 's02.c', ['maxit', 'optimal'], K=2, lim=12, n=2, m=3, p=1)]
    L += [C('late', 's02.c', ['maxit'], K=1, n=2, m=3, p=1, lbase=98, lim=4, tmax=1e-3, centre=1, sd=0.97, **MANY)]
    if t == 'thorough': L += [C('late-256', 's02.c', ['maxit'], K=1, n=2, m=2, p=1, lbase=254, lim=3, tmax=1e-6, centre=1, sd=0.97, **MANY), C('late-K2', 's02.c', ['maxit'], K=2, n=2, m=3, p=1, lbase=49, lim=3, tmax=1e-3, centre=1, sd=0.97, **MANY)]
    L += long(16, t)
    return L


prop('S02', 'Sequences of up to 2 (thorough 3) solves of concrete problems (n<=3 m<=3 p<=1) with an arbitrary maxit <= 3 (thorough 12) and arbitrary '
     'tolerances in (0,100) at each solve; NaN or infinity in any of c, h, G, b at setup or c, h, x, z, s between solves. Larger: every iteration limit up to 9 (thorough 12) for concrete problems of up to n=12 m=17 p=3 (thorough n=20 m=30 p=6), two iterations (thorough four) of one with n=34 m=46, single iterations up to the 129th (thorough 257th) of a slowly converging one.', s02)

OPQ = ['kktsolve_1', 'kktsolve_2']


def s03(t):
    L = [C('iter-n2m2', 's03.c', n=2, m=2, _opaque=OPQ), C('iter-n2m2-centre', 's03.c', n=2, m=2, centre=1, _opaque=OPQ),
         C('iter-n1m3-centre', 's03.c', n=1, m=3, centre=1, _opaque=OPQ),
         C('iter-n1m1-few', 's03.c', n=1, m=1, vec=0, sx=0, _opaque=OPQ),
         C('iter-n2m2p1-row', 's03.c', n=2, m=2, p=1, entry=1, _opaque=OPQ),
         C('setup-n2m2p1', 's03.c', n=2, m=2, p=1, mode=1), C('setup-n2m3-row', 's03.c', n=2, m=3, mode=1, entry=1)]
    if t == 'thorough':
        L += [C('iter-n2m3p1', 's03.c', n=2, m=3, p=1, _opaque=OPQ), C('iter-n3m4p1-centre', 's03.c', n=3, m=4, p=1, centre=1, _opaque=OPQ),
              C('iter-n3m4p1-col', 's03.c', n=3, m=4, p=1, entry=2, _opaque=OPQ), C('setup-n3m4p1', 's03.c', n=3, m=4, p=1, mode=1),
              C('setup-n3m5p2-col', 's03.c', n=3, m=5, p=2, mode=1, entry=2), C('iter-n1m2-few', 's03.c', n=1, m=2, vec=0, sx=0, _opaque=OPQ)]
    W = dict(_wrap=['kktsolve_1', 'kktsolve_2'])
    L += [C('late-70', 's05b.c', n=1, m=2, what=3, skip=70, sz=0, nf=2, **W), C('late-110-centre', 's05b.c', n=1, m=1, p=1, what=3, skip=110, sz=1, centre=1, **W)]
    L += long(1, t)
    return L


prop('S03', 'One iteration from an arbitrary iterate with s, z > 0 and an arbitrary search direction (the linear solves are cut: any finite direction), also as the 71st and 111th iteration of a solve (m<=2), '
     'n<=3 m<=4 p<=1; setup with arbitrary c, h, b of magnitude < 1e9, n<=3 m<=5 p<=2. Larger: every iterate of concrete solves of up to 9 (thorough 12) iterations, up to n=12 m=17 p=3 (thorough n=20 m=30 p=6), two iterations (thorough four) of one with n=34 m=46, single iterations up to the 129th (thorough 257th) of a slowly converging one.', s03)


EX = dict(_exact=1, _followfns=['LDL_numeric'], _opaque=['form_ds'])


def s04(t):
    L = [C('n2m1', 's04.c', n=2, m=1, **EX), C('n2m2p1', 's04.c', n=2, m=2, p=1, **EX), C('n2m2p1-centre', 's04.c', n=2, m=2, p=1, centre=1, **EX),
         C('n3m2p1', 's04.c', n=3, m=2, p=1, perm=3, **EX), C('n3m3p1-row', 's04.c', n=3, m=3, p=1, perm=3, entry=1, **EX),
         C('n2m2p1-col-sparse', 's04.c', n=2, m=2, p=1, entry=2, mG=0b1001, mP=0b101, **EX)]
    L += [C('n3m2p1-jumbled', 's04.c', n=3, m=2, p=1, perm=3, jumble=1, **EX)]
    if t == 'thorough':
        L += [C('n3m3p1-centre', 's04.c', n=3, m=3, p=1, perm=3, centre=1, **EX), C('n3m4p2', 's04.c', n=3, m=4, p=2, perm=3, **EX),
              C('n4m4p1', 's04.c', n=4, m=4, p=1, perm=3, **EX), C('n2m3p1', 's04.c', n=2, m=3, p=1, **EX), C('n2m2p1-warm', 's04.c', n=2, m=2, p=1, warm=2, **EX),
              C('n2m2p1-perm1', 's04.c', n=2, m=2, p=1, perm=1, **EX), C('n2m2p1-perm2', 's04.c', n=2, m=2, p=1, perm=2, kk=3, **EX),
              C('n2m3-perm4', 's04.c', n=2, m=3, perm=4, **EX)]
    L += long(2, t)
    return L


prop('S04', 'One iteration from an arbitrary iterate with arbitrary c, h, b, s, z > 0 and concrete matrices, n<=4 m<=4 p<=2, both modes, the three entry points; '
     'identities checked exactly over the rationals; the regularisation branch of each pivot is fixed to the unregularised side taken by the witness. Larger: every iteration of concrete solves of up to 9 (thorough 12) iterations, up to n=12 m=17 p=3 (thorough n=20 m=30 p=6), two iterations (thorough four) of one with n=34 m=46, single iterations up to the 129th (thorough 257th) of a slowly converging one, to 1e-6 relative. Also with the rows of every column in descending order.', s04)


# ------------------------------------------------------------------------------------------- factorisation
def l01(t):
    L = [C('n2-all', 'l01.c', n=2, mask=-1, **EX), C('n3-allperm', 'l01.c', n=3, mask=-1, **EX),
         C('n3-upper-dup', 'l01.c', n=3, perm=0, upper=1, dup=1, mask=-1, **EX), C('n4-full-perm1', 'l01.c', n=4, perm=1, **EX)]
    L += [C('n12-conc', 'l01.c', n=12, mask=-3, symv=0, perm=1, **EX)]
    L += [C('quasi-%s' % k, 'l01.c', n=n, quasi=qd, mask=mk, perm=pm, _exact=1) for k, n, qd, mk, pm in (('n2', 2, 1, -1, -1), ('n2-pos', 2, 2, 0, -1), ('n3', 3, 1, 6, -1), ('n4', 4, 2, 52, 2), ('n4-all', 4, 2, 108, 1))]
    L += [C('n90-dense', 'l01.c', n=90, mask=-5, symv=0, perm=0, sb=0, _cflags=['-DMX=100'], _maxsteps=90000000), C('n90-arrow', 'l01.c', n=90, mask=-5, symv=0, perm=1, sb=0, _cflags=['-DMX=100'], _maxsteps=90000000)]
    L += [C('n48-conc', 'l01.c', n=48, mask=-4, symv=0, perm=1, _cflags=['-DMX=80'], _maxsteps=30000000, **EX)]
    if t == 'thorough':
        L += [C('n4-allperm', 'l01.c', n=4, mask=-1, symv=0, **EX), C('n4-allpat', 'l01.c', n=4, mask=-1, perm=2, **EX),
              C('n4-full-perm2', 'l01.c', n=4, perm=2, **EX), C('n4-nat-dup', 'l01.c', n=4, mask=-1, perm=0, dup=1, **EX),
              C('n5-band', 'l01.c', n=5, perm=1, mask=0b110010100110010, **EX), C('n5-conc', 'l01.c', n=5, perm=2, mask=-1, symv=0, **EX)]
    if t == 'thorough':
        L += [C('n15-conc', 'l01.c', n=15, mask=-3, symv=0, perm=2, **EX), C('n14-conc-nat-dup', 'l01.c', n=14, mask=-3, symv=0, perm=0, dup=1, **EX)]
    return L


prop('L01', 'Symmetric matrices with a full diagonal, n<=4 (thorough 5): every off-diagonal pattern and every permutation (n<=3, thorough 4), arbitrary values and right-hand side '
     'with the regularisation branch of each pivot fixed to the unregularised side (not fixed: quasidefinite matrices with diagonal >= 1 or <= -1, n<=4); identities exact over the rationals. Larger: concrete sparse matrices with n=12 and n=48 (thorough 15), a full factor and an arrow with n=90.', l01)


def l02(t):
    L = [C('n3-diag', 'l02.c', n=3, diag=1), C('n4-nat', 'l02.c', n=4, perm=0), C('n2', 'l02.c', n=2, diag=1)]
    L += [C('n40-free3', 'l02.c', n=40, free=3, perm=2, diag=1, _cflags=['-DMX=80'], _maxsteps=30000000)]
    L += [C('n90-dense', 'l02.c', n=90, mask=-5, free=1, perm=0, _cflags=['-DMX=100'], _maxsteps=90000000)]
    L += [C('n12-free5', 'l02.c', n=12, free=5, perm=2, diag=1)]
    if t == 'thorough':
        L += [C('n4-all', 'l02.c', n=4), C('n4-diag', 'l02.c', n=4, diag=1, perm=1), C('n5-nat', 'l02.c', n=5, perm=0), C('n5-rev', 'l02.c', n=5, perm=1),
              C('n5-rot', 'l02.c', n=5, perm=2)]
    if t == 'thorough':
        L += [C('n12-free8', 'l02.c', n=12, free=8, perm=2, diag=1), C('n14-free6', 'l02.c', n=14, free=6, perm=0), C('n15-free7-rev', 'l02.c', n=15, free=7, perm=1)]
    return L


prop('L02', 'Every symmetric pattern with n<=4 (thorough 5), with and without diagonal entries (n<=3), every permutation for n<=3 (thorough 4), two storage orders within a column. Larger: n=12 with 5 (thorough 8) free positions, thorough n=14, 15 with 6, 7. Some stored entries zero. n=40 with 3 free positions, n=90 with a full factor and one.', l02)


def l03(t):
    L = [C('n1', 'l03.c', n=1), C('n2', 'l03.c', n=2), C('n3-scale', 'l03.c', n=3, scale=0.5)]
    L += [C('n90-late', 'l03.c', ['plain', 'tiny+', 'tiny-', 'end'], n=90, at=88, band=1, _cflags=['-DMX=100'], _maxsteps=90000000), C('n90-late-rev', 'l03.c', ['plain', 'tiny+', 'tiny-', 'end'], n=90, at=1, band=1, perm=1, _cflags=['-DMX=100'], _maxsteps=90000000)]
    if t == 'thorough':
        L += [C('n3-scale-perm', 'l03.c', n=3, scale=0.5, perm=1), C('n2-perm', 'l03.c', n=2, perm=1), C('n3', 'l03.c', n=3), C('n4-scale', 'l03.c', n=4, scale=0.25)]
    return L


prop('L03', 'Dense symmetric matrices with arbitrary real values (n<=2, thorough 3) or arbitrary trailing diagonal values (n<=3, thorough 4); the boundary 1e-14 is exact for the first pivot and '
     'within 1e-4 relative (and 1e-16 absolute around 0) for later ones. Larger: the 89th of 90 pivots arbitrary in a sparse matrix.', l03)


def l04(t):
    L = [C('perm', 'l04.c', ['valid', 'invalid'], what=0), C('ldl', 'l04.c', ['valid'], what=1, nmax=2), C('amd', 'l04.c', ['valid', 'jumbled'], what=2, nmax=2)]
    L += [C('perm-n7', 'l04.c', ['valid', 'invalid'], what=0, n=7, free=2), C('perm-n70', 'l04.c', ['valid', 'invalid'], what=0, n=70, free=1, _cflags=['-DMX=80'], _maxsteps=30000000)]
    if t == 'thorough':
        L += [C('perm-n5', 'l04.c', ['valid', 'invalid'], what=0, nmax=5), C('ldl-n3', 'l04.c', ['valid'], what=1, nmax=3), C('amd-n3', 'l04.c', ['valid', 'jumbled'], what=2, nmax=3)]
    if t == 'thorough':
        L += [C('perm-n12', 'l04.c', ['valid', 'invalid'], what=0, n=12, free=2), C('perm-n9', 'l04.c', ['valid', 'invalid'], what=0, n=9, free=3)]
    return L


prop('L04', 'All contents (|value| <= 1e12) of a permutation of length n<=3 (thorough 5), of column forms with n<=2 (thorough 3) columns and up to 4 entries, n = -1 and 0 and '
     'missing arrays included; the index array has exactly Ap[n] entries. Larger: permutations of length 7 (thorough 12) with 2 (thorough 3) arbitrary entries, length 70 with one.', l04)


PF = dict(_followfns=['LDL_numeric', 'LDL_cache_numeric', 'LDL_row_cache_numeric'])


def l05(t):
    L = [C('n1m2', 'l05.c', ['end', 'kept'], n=1, m=2, mask=-1, **PF), C('n2m1-nat', 'l05.c', ['end', 'kept'], n=2, m=1, mask=-1, perm=0, rounds=2, **PF),
         C('n1m1p1', 'l05.c', ['end', 'kept'], n=1, m=1, p=1, mask=-1, **PF), C('n2m2-rev', 'l05.c', ['end', 'kept'], n=2, m=2, mask=-1, perm=1, **PF)]
    L += [C('n12m20p3', 'l05.c', ['end'], n=12, m=20, p=3, mask=-4, symv=0, perm=1, rounds=2, _cflags=['-DMX=80'], _maxsteps=30000000, **PF)]
    L += [C('quasi-n%dm%dp%d-%d' % (n, m, p, pm), 'l05.c', n=n, m=m, p=p, mask=mk, perm=pm, rounds=2 if n + m + p == 2 else 1, quasi=1, _exact=1) for n, m, p, mk, pm in ((1, 1, 0, -1, -1), (1, 2, 0, 6, 1), (1, 1, 1, 6, 2), (2, 1, 0, 20, 2))]
    L += [C('noperm-n1m2', 'l05.c', ['end', 'kept'], n=1, m=2, mask=-1, perm=3, **PF), C('noperm-n5m6p1', 'l05.c', ['end', 'kept'], n=5, m=6, p=1, mask=-3, symv=0, perm=3, rounds=2, **PF)]
    L += [C('tiny-n%dm%d-%d' % (n, m, pm), 'l05.c', n=n, m=m, mask=mk, perm=pm, _exact=1) for n, m, mk, pm in ((1, 1, -1, 1), (1, 1, -1, 3), (1, 2, 6, 1))]
    L += [C('n50m34p6-dense', 'l05.c', ['end', 'kept'], n=50, m=34, p=6, mask=-5, symv=0, perm=0, rounds=2, _cflags=['-DMX=100'], _maxsteps=90000000, **PF)]
    L += [C('n5m6p1-perm%d' % q, 'l05.c', ['end', 'kept'], n=5, m=6, p=1, mask=-3, symv=0, perm=q, rounds=2, **PF) for q in (0, 1, 2)]
    if t == 'thorough':
        L += [C('n2m1', 'l05.c', ['end', 'kept'], n=2, m=1, mask=-1, rounds=2, **PF), C('n1m1p2-rot', 'l05.c', ['end', 'kept'], n=1, m=1, p=2, mask=-1, perm=2, **PF),
              C('n2m2-nat', 'l05.c', ['end', 'kept'], n=2, m=2, mask=-1, perm=0, rounds=2, **PF), C('n1m3-rot', 'l05.c', ['end', 'kept'], n=1, m=3, mask=-1, perm=2, **PF),
              C('n2m2-conc', 'l05.c', ['end', 'kept'], n=2, m=2, mask=-1, symv=0, rounds=2, **PF)]
    return L


prop('L05', 'Every symmetric pattern with full diagonal and every permutation of size 3, every pattern of size 4 in reversed (thorough natural, rotated and, with concrete values, every) order, '
     'n<=2 m<=3 p<=2; one concrete pattern of size 12 in three orders, one of size 35 and a full factor of size 90; up to two successive refactorisations. The workspace comes from the full factorisation; no duplicate entries; with permutation arrays or without. Elsewhere the pivot branches are fixed to those of a witness; both branches of every pivot are explored for quasidefinite matrices of size 2 and 3, and without any restriction, tiny pivots included, for full size 2 and one pattern of size 3.', l05,
     wall={'quick': 90, 'thorough': 700})


# ------------------------------------------------------------------------------------------- ordering
def o01(t):
    L = [C('sym-n4', 'o01.c', n=4), C('sym-n3-control', 'o01.c', n=3, kind=1, control=1), C('unsym-n3-alpha', 'o01.c', n=3, kind=1, control=2),
         C('arrow', 'o01.c', n=19, kind=3, control=1), C('kkt', 'o01.c', kind=4), C('grid', 'o01.c', kind=5), C('n1', 'o01.c', n=1, kind=2, control=1),
         C('n2-unsym', 'o01.c', n=2, kind=2, control=2), C('unsym-n3', 'o01.c', n=3, kind=2)]
    L += [C('arrow-full', 'o01.c', n=22, kind=3, control=1, hub=18, free=2)]
    R = dict(kind=7, _cflags=['-DPATMAX=128'], _maxsteps=30000000)
    L += [C('random-n20', 'o01.c', ['compaction', 'end'], n=20, seed=309948, control=1, free=4, **R), C('random-n30', 'o01.c', ['compaction', 'end'], n=30, seed=218, **R),
          C('random-n31', 'o01.c', ['compaction', 'end'], n=31, seed=11212, unsym=1, free=4, **R),
          C('random-n57', 'o01.c', ['compaction', 'end'], n=57, seed=192, free=2, **R), C('random-n60', 'o01.c', n=60, seed=3, free=3, control=1, **R), C('random-n120', 'o01.c', ['compaction', 'end'], n=120, seed=7, free=2, **R)]
    if t == 'thorough':
        L += [C('sym-n5', 'o01.c', n=5), C('sym-n5-diag-1', 'o01.c', n=5, control=1), C('sym-n4-diag-control', 'o01.c', n=4, kind=1, control=1), C('unsym-n3-control', 'o01.c', n=3, kind=2, control=2),
              C('arrow2', 'o01.c', n=23, kind=3, control=1, hub=2, free=5), C('kkt-big', 'o01.c', kind=4, kn=3, kp=1, km=3), C('grid34', 'o01.c', kind=5, w=3, h=4, free=9),
              C('grid44', 'o01.c', kind=5, w=4, h=4, free=8, control=1)]
        L += [C('random-n%d-%d' % (n, sd), 'o01.c', n=n, seed=sd, control=1, free=fr, unsym=u, **R) for n, sd, fr, u in
              ((22, 76870, 6, 0), (24, 11212, 6, 0), (29, 97, 6, 0), (31, 1539, 6, 0), (45, 11, 4, 0), (45, 12, 4, 1), (90, 5, 3, 0), (90, 6, 3, 1), (125, 8, 2, 0), (125, 9, 2, 1))]
    return L


prop('O01', 'Every symmetric pattern with full diagonal n<=4 (thorough 5), every symmetric pattern with any diagonal n<=3 (thorough 4) and every pattern n<=3, any aggressive flag and any real dense-row setting for n<=3; '
     'arrow, KKT-shaped and grid families up to n=23 with free entries; fixed irregular graphs up to n=120 (thorough 125) with 2 to 6 free links, some of which make the ordering compact its workspace.', o01)


def o02(t):
    L = [C('malformed', 'o02.c', ['invalid', 'end']), C('jumbled-n3', 'o02.c', ['jumbled', 'end'], what=1), C('jumbled-n2-unsym', 'o02.c', ['jumbled', 'end'], what=1, symm=0, n=2)]
    if t == 'thorough':
        L += [C('malformed-n3', 'o02.c', ['invalid'], nmax=3), C('malformed-cap5', 'o02.c', ['invalid'], cap=5), C('jumbled-n3-unsym', 'o02.c', ['jumbled'], what=1, symm=0, n=3), C('jumbled-n4', 'o02.c', ['jumbled'], what=1, n=4)]
    return L


prop('O02', 'All contents (|value| <= 1e12) of column forms with n<=2 (thorough 3) and up to 3 (thorough 5) entries, n = -1 and missing arrays included; every symmetric pattern n<=3 (thorough 4) and '
     'every pattern n<=2 (thorough 3) with each column ascending or descending, with or without a duplicate.', o02)


def o03(t):
    L = [C('order-n3', 'o03.c', ['failed', 'end']), C('setup', 'o03.c', what=1, n=2, m=3, p=1), C('setup-row', 'o03.c', what=1, n=2, m=2, p=1, entry=1),
         C('setup-nob', 'o03.c', what=1, drop=1, p=1, mG=-1, maxit=1), C('setup-nob-col', 'o03.c', what=1, drop=1, p=1, mG=-1, maxit=1, entry=2)]
    L += [C('setup-xl', 'o03.c', what=1, maxit=1, **XL(34, 40, 8))]
    if t == 'thorough':
        L += [C('order-n4', 'o03.c', ['failed'], n=4), C('setup-n3', 'o03.c', what=1, n=3, m=3, p=2, kk=5, entry=2), C('setup-pat', 'o03.c', what=1, n=2, m=2, p=1, maxit=1, mG=-1, mP=-1),
              C('setup-nob-p2', 'o03.c', what=1, drop=1, p=2, n=3, m=3), C('setup-row-nob', 'o03.c', what=1, drop=1, p=2, n=3, m=3, entry=1)]
    return L


prop('O03', 'Failure of each of the allocations of the ordering for every symmetric pattern n<=3 (thorough 4), sorted or not; whole setups and solves with each allocation of the ordering failing, '
     'concrete values, n<=3 m<=3 p<=2, with b missing or not, and one with n=34 m=40 p=8. Agreement with the unfailed run within 1e-5 relative.', o03)


def o04(t):
    L = [C('unsym-n3', 'o04.c', ['end', 'forest'], n=3, kind=2, jumble=1), C('sym-n4', 'o04.c', ['end', 'forest'], n=4, kind=1), C('arrow', 'o04.c', n=19, kind=3, dense=1),
         C('kkt', 'o04.c', ['end', 'forest'], kind=4), C('grid', 'o04.c', kind=5), C('forest-n6', 'o04.c', ['end', 'forest'], n=6, kind=6, rots=1), C('forest-n24', 'o04.c', ['end', 'forest'], n=24, kind=6, free=5, rots=2)]
    L += [C('arrow-full', 'o04.c', n=22, kind=3, dense=1, hub=18, free=2)]
    R = dict(kind=7, _cflags=['-DPATMAX=128'], _maxsteps=60000000)
    L += [C('random-n20', 'o04.c', n=20, seed=309948, free=3, dense=1, **R), C('random-n30', 'o04.c', n=30, seed=218, free=3, jumble=1, **R), C('random-n60', 'o04.c', n=60, seed=4, free=1, unsym=1, **R)]
    if t == 'thorough':
        L += [C('sym-n5', 'o04.c', ['end', 'forest'], n=5, kind=0), C('arrow2', 'o04.c', n=23, kind=3, dense=1, hub=2, free=5), C('grid34', 'o04.c', kind=5, w=3, h=4, free=9),
              C('kkt-big', 'o04.c', ['end'], kind=4, kn=3, kp=1, km=3), C('forest-n7', 'o04.c', ['end', 'forest'], n=7, kind=6, rots=1), C('forest-n37', 'o04.c', ['end', 'forest'], n=37, kind=6, free=6, rots=3)]
    return L


prop('O04', 'Every pattern n<=3 sorted or not, every symmetric pattern with any diagonal n<=4 (thorough every one with full diagonal n<=5), arrow, KKT-shaped and grid families up to n=19 (thorough 23) with free entries, '
     'every forest n<=6 (thorough 7) and forests with free attachments up to n=24 (thorough 37), fixed irregular graphs up to n=60 with 1 to 3 free links; both aggressive settings, dense parameter 0, 1 and 10.', o04, wall={'quick': 100, 'thorough': 800})


def o05(t):
    L = [C('control', 'o05.c', ['control', 'nodense'], what=0), C('info', 'o05.c', ['info', 'unknown'], what=1), C('hooks-n3', 'o05.c', ['ordered'], what=2, n=3), C('hooks-unsym-n2', 'o05.c', ['ordered'], what=2, n=2, kind=2),
         C('hooks-arrow', 'o05.c', ['ordered'], what=2, n=19, kind=3, free=2)]
    if t == 'thorough':
        L += [C('hooks-n4', 'o05.c', ['ordered'], what=2, n=4), C('hooks-unsym-n3', 'o05.c', ['ordered'], what=2, n=3, kind=2), C('hooks-grid', 'o05.c', ['ordered'], what=2, kind=5)]
    return L


prop('O05', 'Any dense and aggressive parameter; every status, any two of the thirteen printed statistics arbitrary (the others fixed); printing on and off; memory hooks over every symmetric pattern n<=3 (thorough 4), every pattern n<=2 (thorough 3), '
     'an arrow with a dense row and (thorough) grids, sorted or not, valid or with a bad index.', o05)


# ------------------------------------------------------------------------------------------- matrices
def m01(t):
    L = [C('all-cap4', 'm01.c', cap=4, mmax=4, nmax=4), C('special', 'm01.c', spec=1, cap=3), C('m3n2', 'm01.c', cap=6, mmax=2, nmax=3)]
    L += [C('m5n7', 'm01.c', mmax=5, nmax=7, fix=1, free=5, cap=99), C('m9n4', 'm01.c', mmax=9, nmax=4, fix=1, free=4, cap=99)]
    L += [C('m%dn%d' % (a, b), 'm01.c', fix=1, mmax=a, nmax=b, free=3, cap=9999, _cflags=['-DMX=290'], _maxsteps=30000000) for a, b in ((3, 280), (280, 3))]
    L += [C('m40n55', 'm01.c', fix=1, mmax=40, nmax=55, free=3, cap=9999, _cflags=['-DMX=80'], _maxsteps=30000000)]
    if t == 'thorough':
        L += [C('all-cap6', 'm01.c', cap=6, mmax=6, nmax=6), C('special-cap4', 'm01.c', spec=1, cap=4), C('cap8', 'm01.c', cap=8, mmax=4, nmax=4)]
    if t == 'thorough':
        L += [C('m11n10', 'm01.c', mmax=11, nmax=10, fix=1, free=6, cap=128)]
    return L


prop('M01', 'Every shape with at most 6 entries (thorough 8) including single rows and columns, arbitrary real contents, both orders; NaN, infinities and -0 at any one position (<= 4 entries). Larger: 5x7 and 9x4 (thorough 11x10) with 4 to 6 arbitrary entries, 40x55, 3x280 and 280x3 with 3.', m01)


def m02(t):
    L = [C('values', 'm02.c', cap=6), C('index', 'm02.c', idx=1, cap=6)]
    L += [C('%sm%dn%d' % ('index-' if x else '', a, b), 'm02.c', fix=1, idx=x, wide=1, mmax=a, nmax=b, free=3, cap=9999, _cflags=['-DMX=290'], _maxsteps=30000000) for a, b in ((4, 280), (280, 4)) for x in (0, 1)]
    L += [C('m70n40', 'm02.c', fix=1, mmax=70, nmax=40, free=3, cap=9999, _cflags=['-DMX=80'], _maxsteps=30000000), C('index-m70n40', 'm02.c', fix=1, idx=1, mmax=70, nmax=40, free=3, cap=9999, _cflags=['-DMX=80'], _maxsteps=30000000)]
    L += [C('m6n7', 'm02.c', mmax=6, nmax=7, fix=1, free=4, cap=99), C('index-m9n5', 'm02.c', mmax=9, nmax=5, fix=1, free=4, idx=1, cap=99)]
    if t == 'thorough':
        L += [C('values-9', 'm02.c', cap=9), C('index-9', 'm02.c', idx=1, cap=9), C('values-w', 'm02.c', cap=8, mmax=2, nmax=4), C('index-w', 'm02.c', idx=1, cap=8, mmax=4, nmax=2)]
    if t == 'thorough':
        L += [C('m10n9', 'm02.c', mmax=10, nmax=9, fix=1, free=6, cap=99), C('index-m8n12', 'm02.c', mmax=8, nmax=12, fix=1, free=5, idx=1, cap=99)]
    return L


prop('M02', 'Every pattern of every shape up to 3x3 (2x4, 4x2) with at most 6 (thorough 9) positions, arbitrary values, columns ascending or descending. Larger: 6x7 and 9x5 (thorough 10x9, 8x12) with 4 to 6 free positions, 70x40, 4x280 and 280x4 with 3.', m02)


def m03(t):
    L = [C('kernel-n2m2p1', 'm03b.c', n=2, m=2, p=1, mA=-1, mG=-1, sP=1, sA=1, sG=1), C('setup-n2m1p1', 'm03.c', n=2, m=1, p=1, mP=-1, mA=-1, mG=-1),
         C('setup-n2m2', 'm03.c', n=2, m=2, p=0, mP=-1, mG=-1, perm=0), C('setup-n2m2p1-row', 'm03.c', n=2, m=2, p=1, mA=-1, mG=-1, entry=1, perm=1, centre=1),
         C('setup-n1m2p1-col', 'm03.c', n=1, m=2, p=1, mP=-1, mA=-1, mG=-1, entry=2)]
    L += [C('upper-n2m2', 'm03u.c', n=2, m=2, p=0, mP=-1, mG=-1, sP=1, sG=1), C('upper-n6m8', 'm03u.c', n=6, m=8, p=0, mP=-3, mG=-3)]
    L += [C('kernel-n6m7p3', 'm03b.c', n=6, m=7, p=3, **BIG), C('setup-n6m7p3', 'm03.c', n=6, m=7, p=3, **BIG), C('setup-n6m7p3-row', 'm03.c', n=6, m=7, p=3, entry=1, perm=1, **BIG)]
    L += [C('kernel-xxl', 'm03b.c', **XL(64, 110, 14)), C('setup-xl', 'm03.c', **XL())]
    L += [C('setup-jumbled', 'm03.c', n=2, m=2, p=1, mA=-1, mG=-1, perm=0, jumble=1), C('kernel-jumbled', 'm03b.c', n=3, m=2, p=2, sP=1, sA=1, sG=1, jumble=1)]
    if t == 'thorough':
        L += [C('setup-n2m2p1', 'm03.c', n=2, m=2, p=1, mP=-1, mA=-1, mG=-1), C('kernel-n3m2p1', 'm03b.c', n=3, m=2, p=1, mA=-1, mG=-1, sP=1, sA=1, sG=1),
              C('kernel-n2m3p2', 'm03b.c', n=2, m=3, p=2, mA=-1, mG=-1, sP=1, sA=1, sG=1), C('setup-n3m2p1', 'm03.c', n=3, m=2, p=1, mA=-1, mG=-1, it=0, perm=0),
              C('setup-n2m3p1', 'm03.c', n=2, m=3, p=1, mA=-1, mG=-1, centre=1, perm=0), C('kernel-n3m3', 'm03b.c', n=3, m=3, p=0, mP=-1, mG=-1, sP=1, sG=1), C('upper-n3m2', 'm03u.c', n=3, m=2, p=0, mP=-1, mG=-1, sP=1, sG=1)]
    if t == 'thorough':
        L += [C('setup-n8m11p4-col', 'm03.c', n=8, m=11, p=4, entry=2, perm=2, **BIG), C('kernel-n8m11p4', 'm03b.c', n=8, m=11, p=4, **BIG)]
    return L


prop('M03', 'Every pattern of P (upper triangle), A and G for n<=2 m<=2 p<=1 (thorough n<=3 m<=3 p<=2), assembly with arbitrary values, whole setups and two refreshing iterations with concrete values. Larger: concrete sparse problems n=6 m=7 p=3 and n=40 m=66 p=10 (assembly n=64 m=110 p=14; thorough n=8 m=11 p=4). Also with the rows of every column in descending order.', m03)


def m04(t):
    L = [C('vec%d' % k, 'm04.c', what=k, nmax=5 if k != 6 else 3) for k in (0, 1, 3, 4, 6, 7)]
    L += [C('rhs', 'm04.c', what=5), C('matvec', 'm04b.c', m=2, n=2), C('matvec-32', 'm04b.c', m=3, n=1), C('matvec-23', 'm04b.c', m=1, n=3), C('obj', 'm04b.c', m=2, n=2, obj=1), C('norm', 'm04c.c')]
    L += [C('vec%d-70' % k, 'm04.c', what=k, nmin=70, nmax=70, _cflags=['-DMX=80'], _maxsteps=30000000) for k in (0, 1, 3, 4, 6, 7)]
    L += [C('rhs-40', 'm04.c', what=5, nmin=40, nmax=40, _cflags=['-DMX=80'], _maxsteps=30000000), C('matvec-m40n70', 'm04b.c', m=40, n=70, free=2, _cflags=['-DMX=80'], _maxsteps=30000000), C('obj-70', 'm04b.c', m=70, n=70, free=2, obj=1, _cflags=['-DMX=80'], _maxsteps=30000000)]
    L += [C('matvec-67', 'm04b.c', m=6, n=7, free=3), C('matvec-94', 'm04b.c', m=9, n=4, free=2), C('obj-6', 'm04b.c', m=6, n=6, free=2, obj=1)]
    if t == 'thorough':
        L += [C('matvec-m2n3', 'm04b.c', m=2, n=3), C('matvec-m3n2', 'm04b.c', m=3, n=2), C('obj-3', 'm04b.c', m=3, n=3, obj=1), C('norm-5', 'm04c.c', nmax=5)]
        L += [C('vec%d-9' % k, 'm04.c', what=k, nmin=6, nmax=9) for k in (0, 1, 3, 4, 6, 7)]
    return L


prop('M04', 'Vectors of length <= 5 (thorough 9), matrices up to 2x2, 3x1 and 1x3 (thorough 2x3, 3x2) with every pattern, all real values, blocks of exactly the stated size. Larger: 6x7, 9x4, 6x6, 40x70 and 70x70 with 2 or 3 free positions, vectors of length 70 (40 for the right-hand side).', m04)


# ------------------------------------------------------------------------------------------- the rest of the solver
WR = ['kktsolve_1', 'kktsolve_2']


def s05(t):
    L = [C('step-n1m1', 's05b.c', ['cap', 'floor', 'end'], n=1, m=1, _wrap=WR), C('step-n1m2', 's05b.c', n=1, m=2, sz=0, nf=1, sdc=1, _wrap=WR),
         C('dir-m2', 's05b.c', n=1, m=2, what=1, merge=1, _wrap=WR), C('dir-m3-centre', 's05b.c', m=3, what=1, merge=1, centre=1, _wrap=WR),
         C('dir-m3', 's05b.c', m=3, what=1, merge=1, _wrap=WR),
         C('len-n1m1', 's05b.c', n=1, m=1, what=2, _wrap=WR), C('len-n1m3', 's05b.c', n=1, m=3, what=2, sz=0, nf=2, _wrap=WR),
         C('len-p1-centre', 's05b.c', n=1, m=2, p=1, what=2, centre=1, _wrap=WR),
         C('iter-n2m2p1', 's05.c', n=2, m=2, p=1, rho=0, merge=1, len=0, sz=1, sx=1, **EX), C('iter-centre', 's05.c', n=2, m=2, p=1, rho=0, merge=1, len=0, sz=1, sx=1, centre=1, **EX),
         C('iter-n2m3', 's05.c', n=2, m=3, p=1, rho=0, merge=1, len=0, perm=3, **EX)]
    if t == 'thorough':
        L += [C('whole-n1m1', 's05.c', n=1, m=1, **EX), C('step-n1m2-all', 's05b.c', n=1, m=2, _wrap=WR), C('len-m2', 's05b.c', m=2, what=2, _wrap=WR),
              C('len-m3-centre', 's05b.c', m=3, what=2, centre=1, sz=0, _wrap=WR)]
    L += [C('late-70', 's05b.c', ['cap', 'floor', 'end'], n=1, m=1, skip=70, _wrap=WR), C('late-dir', 's05b.c', n=1, m=2, what=1, merge=1, skip=70, sz=0, _wrap=WR), C('late-len', 's05b.c', n=1, m=1, what=2, skip=70, _wrap=WR),
          C('late-110', 's05b.c', n=1, m=2, p=1, what=2, sz=0, nf=2, skip=110, centre=1, _wrap=WR)]
    L += [C('slide-len', 's05b.c', n=1, m=34, what=2, sz=0, nf=1, slide=1, _multi=1, _wrap=WR, _cflags=['-DMX=80'], _maxsteps=30000000), C('slide-dir', 's05b.c', n=1, m=34, what=1, sz=0, nf=1, sdc=1, slide=1, merge=1, _multi=1, _wrap=WR, _cflags=['-DMX=80'], _maxsteps=30000000)]
    if t == 'thorough': L += [C('slide-sigma', 's05b.c', n=1, m=34, sz=0, nf=1, sdc=1, slide=1, _multi=1, _wrap=WR, _cflags=['-DMX=80'], _maxsteps=30000000)]
    L += long(4, t)
    return L


prop('S05', 'One iteration from an arbitrary iterate with s, z > 0; the two linear solves either executed exactly (n=2 m<=3 p<=1) or replaced by arbitrary directions (m<=3); '
     'also as the 71st and 111th iteration of a solve (m<=2), and m=34 with an arbitrary direction in any one row; steps that would exceed 1e9 are only required to be positive. Larger: every iteration of concrete solves of up to 9 (thorough 12) iterations against a dense reference iteration, up to n=12 m=17 p=3 (thorough n=20 m=30 p=6), two iterations (thorough four) of one with n=34 m=46, single iterations up to the 129th (thorough 257th) of a slowly converging one, to 1e-6 relative.', s05, wall={'quick': 60, 'thorough': 800})


def s06(t):
    L = [C('iter-n2m2p1', 's06.c', n=2, m=2, p=1), C('iter-n3m2-symP', 's06.c', n=3, m=2, symP=1), C('iter-n3m2p1-col', 's06.c', n=3, m=2, entry=2, p=1),
         C('iter-n4m2p1-row', 's06.c', n=4, m=2, entry=1, p=1), C('solve-n2m2p1', 's06.c', ['optimal'], n=2, m=2, p=1, mode=1),
         C('solve-n2m3-centre-row', 's06.c', n=2, m=3, mode=1, centre=1, entry=1)]
    if t == 'thorough':
        L += [C('iter-n4m3p1-symP', 's06.c', n=4, m=3, p=1, symP=1), C('solve-n3m4p1', 's06.c', n=3, m=4, p=1, mode=1, entry=2), C('solve-n4m4p2-row', 's06.c', n=4, m=4, p=2, mode=1, entry=1)]
    L += long(8, t)
    return L


prop('S06', 'One iteration from an arbitrary iterate and arbitrary c (and, n<=4, an arbitrary symmetric P), and whole solves of concrete problems under arbitrary tolerances and limits. Larger: every iterate of concrete solves of up to 9 (thorough 12) iterations, up to n=12 m=17 p=3 (thorough n=20 m=30 p=6), two iterations (thorough four) of one with n=34 m=46, single iterations up to the 129th (thorough 257th) of a slowly converging one.', s06)


def s07(t):
    R = ['s-plain', 's-shift', 'z-plain', 'z-shift']
    K = dict(_exact=1)
    L = [C('n2m2p1', 's07.c', R, n=2, m=2, p=1, **K), C('n2m3', 's07.c', R, n=2, m=3, perm=3, **K), C('n3m3p1-row', 's07.c', R, n=3, m=3, p=1, perm=3, entry=1, **K),
         C('n3m3p2', 's07.c', R, n=3, m=3, p=2, **K), C('n3m3-col-sparse', 's07.c', R, n=3, m=3, p=0, perm=2, entry=2, mG=235, **K), C('n2m2p1-sparse', 's07.c', R, n=2, m=2, p=1, mG=9, mP=5, **K)]
    L += [C('n3m3p1-jumbled', 's07.c', R, n=3, m=3, p=1, perm=0, jumble=1, **K)]
    if t == 'thorough':
        L += [C('n4m4p1', 's07.c', R, n=4, m=4, p=1, **K), C('n4m5p2-row', 's07.c', R, n=4, m=5, p=2, entry=1, **K), C('n3m5-col', 's07.c', R, n=3, m=5, entry=2, kk=4, **K)]
    L += [C('start-m34', 'traj.c', n=2, m=34, p=1, what=64, kfix=0, _cflags=['-DMX=80'], _maxsteps=30000000)]
    L += long(32, t)
    return L


prop('S07', 'Setup with arbitrary c, h, b and concrete matrices, n<=4 m<=5 p<=2, exact over the rationals, in the regime where no pivot is regularised; n=2 m=34 p=1 with one arbitrary entry of h. Larger: concrete problems of up to n=12 m=17 p=3 (thorough n=20 m=30 p=6), two iterations (thorough four) of one with n=34 m=46, single iterations up to the 129th (thorough 257th) of a slowly converging one, to 1e-6 relative. Also with the rows of every column in descending order.', s07)


def s08(t):
    L = [C('iter-n2m2p1', 's08.c', ['optimal', 'stepped'], n=2, m=2, p=1), C('iter-row', 's08.c', ['optimal', 'stepped'], n=2, m=2, entry=1),
         C('resolve-K2', 's08.c', ['optimal', 'idem'], n=2, m=2, p=1, mode=1, K=2), C('resolve-col-centre', 's08.c', n=2, m=3, p=1, mode=1, K=2, entry=2, centre=1), C('history', 's08.c', ['optimal'], n=2, m=3, p=1, mode=2, **MANY),
         C('history-row', 's08.c', ['optimal'], n=3, m=3, p=2, mode=2, entry=1, perm=1, **MANY), C('history-xl', 's08.c', ['optimal'], mode=2, K=4, **XL(34, 40, 8)), C('iter-n3m3p2', 's08.c', ['optimal', 'stepped'], n=3, m=3, p=2)]
    L += [C('resolve-jumbled', 's08.c', ['optimal', 'idem'], n=2, m=3, p=1, mode=1, K=2, jumble=1)]
    if t == 'thorough':
        L += [C('iter-n3m3p1-col', 's08.c', ['optimal', 'stepped'], n=3, m=3, entry=2, p=1, kk=4), C('resolve-K3', 's08.c', ['optimal', 'idem'], n=2, m=2, p=0, mode=1, K=3), C('resolve-xl', 's08.c', mode=1, K=2, **XL(34, 40, 0))]
    return L


prop('S08', 'Solves split at an arbitrary iteration limit and whole re-solves of concrete problems under arbitrary tolerances (up to 3 solves), one iteration from an arbitrary iterate, and histories of 12 changes of all of c, h or b (4 with n=34 m=40 p=8), each solved twice. Also with the rows of every column in descending order.', s08)


# ------------------------------------------------------------------------------------------- interface
def a01(t):
    L = [C('pat-GA', 'a01.c', n=2, m=2, p=1, mP=-2, mG=-1, mA=-1), C('pat-P', 'a01.c', n=2, m=2, p=1, mP=-1, mG=9), C('options', 'a01.c', n=2, m=2, p=1, opt=1, its=4),
         C('vec-perm', 'a01.c', n=2, m=2, p=1, vec=1, its=0, perm=1)]
    L += [C('square', 'a01.c', n=2, m=2, p=2), C('square-3', 'a01.c', n=3, m=3, p=3, feas=1, mA=-3, its=6), C('large', 'a01.c', n=8, m=12, p=3, its=12, feas=1, dec=1, **BIG)]
    L += [C('xl', 'a01.c', its=2, dec=1, **XL())]
    if t == 'thorough': L += [C('xxl', 'a01.c', its=2, **XL(64, 110, 14))]
    if t == 'thorough':
        L += [C('pat-all', 'a01.c', n=2, m=2, p=1, mP=-1, mG=-1, mA=-1), C('pat-n3', 'a01.c', n=3, m=2, p=1, mG=-1), C('pat-p2', 'a01.c', n=2, m=3, p=2, mA=-1, mG=-1),
              C('opt-n3', 'a01.c', n=3, m=4, p=1, opt=1, its=8)]
    return L


prop('A01', 'Every zero pattern of A, G and P with n=2 m=2 p=1 (thorough up to n=3 m=3 p=2), concrete values; arbitrary tolerances and iteration limits; arbitrary c, h, b at setup. Square A. Larger: a concrete sparse problem n=8 m=12 p=3, 12 iterations, and n=40 m=66 p=10 (thorough n=64 m=110 p=14), 2 iterations.', a01)


def a02(t):
    L = [C('n2m2p1', 'a02.c', n=2, m=2, p=1), C('row-perm', 'a02.c', n=2, m=2, p=1, perm=1, entry=1), C('col-miss', 'a02.c', n=2, m=2, p=1, entry=2, miss=8),
         C('centre-verbose', 'a02.c', n=2, m=2, p=1, centre=1, verbose=1), C('perm', 'a02.c', n=2, m=2, p=1, perm=2, mG=6), C('tol', 'a02.c', n=2, m=2, p=1, tol=1)]
    L += [C('large', 'a02.c', n=8, m=12, p=3, lim=5, K=2, feas=1, **BIG), C('large-row', 'a02.c', n=6, m=9, p=2, lim=5, K=1, perm=2, entry=1, feas=1, **BIG), C('large-col', 'a02.c', n=6, m=9, p=2, lim=5, K=1, entry=2, miss=8, feas=1, **BIG)]
    L += [C('xl', 'a02.c', lim=2, K=1, **XL()), C('xl-dense', 'a02.c', lim=1, K=1, entry=1, **XL())]
    L += [C('jumbled', 'a02.c', n=3, m=3, p=2, jumble=1), C('large-jumbled', 'a02.c', n=6, m=9, p=2, lim=3, K=1, perm=2, feas=1, jumble=1, **BIG)]
    if t == 'thorough': L += [C('xxl', 'a02.c', lim=2, K=1, entry=2, **XL(64, 110, 14))]
    if t == 'thorough':
        L += [C('n3m3p2-%d' % e, 'a02.c', n=3, m=3, p=2, entry=e, perm=e) for e in (0, 1, 2)]
    return L


prop('A02', 'Arbitrary vectors, tolerances and limits over concrete matrices, n<=3 m<=3 p<=2, the three entry points, with or without a permutation and with missing arrays; the contents of every array are tracked. From the start of setup to the end of cleanup any store into one of the arrays is reported, also one that is undone. Larger: n=8 m=12 p=3 and n=40 m=66 p=10 (thorough n=64 m=110 p=14). Also with the rows of every column in descending order.', a02)


def a03(t):
    L = [C('pat-GA', 'a03.c', n=2, m=2, p=1, mG=-1, mA=-1), C('pat-P', 'a03.c', n=2, m=2, p=1, mP=-1, mG=0), C('missing', 'a03.c', miss=1, p0=1, anylim=1, K=1),
         C('row', 'a03.c', n=2, m=2, p=1, entry=1, mG=-1, mA=-1), C('col-perm', 'a03.c', n=2, m=2, p=1, entry=2, perm=1, mP=-1, mA=0), C('centre-verbose', 'a03.c', n=2, m=2, p=1, centre=1, verbose=1, K=2)]
    L += [C('large', 'a03.c', n=8, m=12, p=3, feas=1, lim=10, **BIG), C('large-col-perm', 'a03.c', n=7, m=10, p=2, entry=2, perm=2, feas=1, **BIG)]
    L += [C('xl', 'a03.c', lim=3, **XL()), C('xxl-row', 'a03.c', lim=3, entry=1, **XL(64, 110, 14))]
    L += [C('jumbled', 'a03.c', n=2, m=2, p=1, mG=-1, mA=-1, jumble=1), C('large-jumbled', 'a03.c', n=8, m=12, p=3, feas=1, lim=4, jumble=1, **BIG)]
    if t == 'thorough':
        L += [C('pat-all', 'a03.c', n=2, m=2, p=1, mP=-1, mG=-1, mA=-1), C('missing-K2', 'a03.c', miss=1, p0=1, anylim=1, K=2), C('pat-n3', 'a03.c', n=3, m=2, p=2, mA=-1, mG=5),
              C('pat-all-row', 'a03.c', n=2, m=2, p=1, mP=-1, mG=-1, mA=-1, entry=1), C('two', 'a03.c', n=2, m=2, p=1, two=1, K=2)]
    return L


prop('A03', 'Every zero pattern of P, A and G with n=2 m=2 p=1 (including zero matrices and empty rows and columns), every combination of missing arrays, up to 2 solves with arbitrary limits; memory is tracked per byte range with initialisation. Larger: concrete sparse problems of up to n=8 m=12 p=3, 10 iterations, and up to n=64 m=110 p=14, 3 iterations. Also with the rows of every column in descending order.', a03)


def a04(t):
    L = [C('sparse', 'a04.c', n=2, m=2, p=1), C('row-opt', 'a04.c', n=2, m=2, p=1, entry=1, opt=1), C('col-vec', 'a04.c', n=2, m=2, p=1, entry=2, vec=1, its=0),
         C('verbose-2', 'a04.c', n=2, m=2, p=1, verbose=1, solves=2, its=1)]
    L += [C('large', 'a04.c', n=7, m=9, p=3, its=8, feas=1, **BIG), C('large-row', 'a04.c', n=6, m=8, p=2, its=8, entry=1, feas=1, **BIG)]
    L += [C('xl', 'a04.c', its=1, **XL(34, 40, 8))]
    if t == 'thorough':
        L += [C('sparse-opt', 'a04.c', n=2, m=2, p=1, opt=1), C('n3m3p2', 'a04.c', n=3, m=3, p=2), C('n3m3p2-col', 'a04.c', n=3, m=3, p=2, entry=2, opt=1)]
    return L


prop('A04', 'Every subset of {Ajc, Air, Apr, b} missing and p given or 0 (dense: A, b), concrete matrices n<=3 m<=3 p<=2, arbitrary tolerances, arbitrary vectors at setup. Larger: n=7 m=9 p=3, 8 iterations, and n=34 m=40 p=8, 1 iteration.', a04)


def a05(t):
    L = [C('n2m2p1', 'a05.c', ['optimal', 'maxit'], n=2, m=2, p=1, dflt=1), C('tol-perm-row', 'a05.c', ['optimal', 'maxit'], n=2, m=2, p=1, tol=1, perm=1, entry=1),
         C('failed', 'a05.c', n=2, m=2, fail=1), C('tol-centre', 'a05.c', ['optimal', 'maxit'], n=2, m=2, p=1, tol=1, centre=1), C('vec', 'a05.c', n=2, m=2, vec=1, lim=0, K=1),
         C('n2m3-col', 'a05.c', ['maxit'], n=2, m=3, lim=2, entry=2)]
    L += [C('large', 'a05.c', ['maxit'], n=8, m=12, p=3, lim=6, K=1, feas=1, **BIG)]
    L += [C('xl', 'a05.c', lim=2, K=1, **XL())]
    if t == 'thorough':
        L += [C('n3m4p1', 'a05.c', n=3, m=4, p=1, lim=8, tol=1), C('n3m3p2-row', 'a05.c', n=3, m=3, p=2, lim=4, K=3, entry=1), C('iter', 'a05.c', n=2, m=2, p=1, iter=1, lim=1, K=1)]
    return L


prop('A05', 'Any verbosity in 1..2^31-1, up to 3 solves with arbitrary limits and tolerances over concrete matrices (n<=3 m<=4 p<=2), all statuses; printf and puts are intercepted and their arguments checked for initialisation. Larger: n=8 m=12 p=3, 6 iterations, and n=40 m=66 p=10, 2 iterations.', a05)


def a06(t):
    L = [C('interleave', 'a06.c', n=2, m=2, p=1, max=2), C('interleave-row-opt', 'a06.c', n=2, m=2, p=0, K=1, max=3, entry=1, opt=1, its=2), C('other-dense', 'a06.c', n=2, m=3, p=1, K=1, max=3, oentry=2, other=1, centre=1),
         C('same-size-perm', 'a06.c', n=2, m=3, p=1, K=1, max=3, perm=1)]
    L += [C('large', 'a06.c', n=8, m=12, p=3, K=1, its=4, feas=1, max=1, **BIG)]
    L += [C('xl', 'a06.c', K=1, its=1, max=1, **XL(34, 40, 8))]
    if t == 'thorough':
        L += [C('interleave-4', 'a06.c', n=2, m=2, p=1, max=4), C('opt-4', 'a06.c', n=2, m=2, p=1, K=1, max=4, entry=1, oentry=1, opt=1), C('col-3', 'a06.c', n=3, m=2, p=1, max=3, entry=2, oentry=1, other=1, opt=1, its=2)]
    return L


prop('A06', 'Every placement of the four lifecycle steps of a second instance between the steps of the first (up to 4 steps per gap), up to 2 solves, arbitrary tolerances; any store into a mutable global of the library is reported, also one that is undone. Threads are not interleaved: that nothing shared is written is what is decided. Larger: n=8 m=12 p=3, 4 iterations, and n=34 m=40 p=8, 1 iteration.', a06)


def a07(t):
    W = dict(_wrap=['amd_l_order'])
    X = dict(_wrap=['amd_l_order'], _exact=1)
    L = [C('anyperm-p1', 'a07.c', ['compared'], n=2, m=2, p=1, K=1, **W), C('anyperm-kk4', 'a07.c', ['compared'], n=2, m=2, p=1, K=2, kk=4, entry=1, **W), C('anyperm-K4', 'a07.c', ['compared'], n=2, m=2, p=0, K=4, **W),
         C('anyvec', 'a07.c', ['compared'], n=2, m=2, p=0, mode=1, perm=-1, **X), C('anyvec-p1-col', 'a07.c', ['compared'], n=2, m=2, p=1, mode=1, perm=3, entry=2, **X),
         C('iter-anyc', 'a07.c', ['compared'], n=2, m=2, p=1, mode=2, perm=3, centre=1, **X)]
    L += [C('large-perm2', 'a07.c', ['compared'], n=8, m=12, K=5, perm=2, feas=1, **BIG, **W), C('large-perm1', 'a07.c', ['compared'], n=8, m=12, K=5, perm=1, kk=3, entry=1, feas=1, **BIG, **W), C('large-p2', 'a07.c', ['compared'], n=6, m=9, p=2, K=5, perm=3, kk=2, entry=2, feas=1, mP=-3, mG=-3, **W)]
    L += [C('xl-perm2', 'a07.c', ['compared'], K=2, perm=2, **XL(40, 66, 0), **W)]
    L += [C('anyperm-jumbled', 'a07.c', ['compared'], n=2, m=2, p=1, K=1, jumble=1, **W)]
    if t == 'thorough': L += [C('xxl-perm1', 'a07.c', ['compared'], K=2, perm=1, entry=1, **XL(64, 110, 0), **W)]
    if t == 'thorough':
        L += [C('anyvec-p1', 'a07.c', ['compared'], n=2, m=2, p=1, mode=1, perm=-1, **X), C('iter-anyc-anyperm', 'a07.c', ['compared'], n=2, m=2, p=0, mode=2, perm=-1, centre=1, **X),
              C('anyperm-m3', 'a07.c', ['compared'], n=2, m=3, p=0, K=4, entry=1, **W), C('anyperm-centre', 'a07.c', ['compared'], n=2, m=2, p=1, K=3, kk=5, centre=1, **W),
              C('anyperm-n3', 'a07.c', n=3, m=2, p=1, K=1, **W), C('iter-predictor', 'a07.c', ['compared'], n=2, m=2, p=1, mode=2, perm=3, **X)]
    return L


prop('A07', 'Every permutation of up to 5 (thorough 6) elements over concrete problems, up to 4 iterations (agreement within 1e-6 relative on problems whose iterations are well conditioned), and arbitrary c, h, b at setup or arbitrary c in one iteration, '
     'exactly over the rationals; compared only where no pivot was regularised. Larger: concrete sparse problems n=8 m=12 and n=6 m=9 p=2, 5 iterations, and n=40 m=66 (thorough n=64 m=110), 2 iterations, one permutation each. Also with the rows of every column in descending order.', a07)


def a08(t):
    L = [C('sparse', 'a08.c', n=2, m=2, p=1), C('missing', 'a08.c', n=2, m=2, p=1, miss=1), C('missing-row', 'a08.c', n=2, m=2, p=1, miss=1, entry=1), C('twice-col', 'a08.c', n=2, m=2, p=1, entry=2, anyp=1, twice=1),
         C('twice', 'a08.c', n=1, m=2, p=1, anyp=1, twice=1), C('anyvec', 'a08.c', n=2, m=2, p=1, vec=1, anyp=1), C('pat-row', 'a08.c', n=2, m=2, p=1, mG=-1, mA=-1, entry=1), C('n3m1p2', 'a08.c', n=3, m=1, p=2, anyp=1),
         C('n1m3', 'a08.c', n=1, m=3, p=0, entry=2)]
    L += [C('large', 'a08.c', n=8, m=12, p=3, anyp=1, feas=1, **BIG), C('large-missing', 'a08.c', n=7, m=9, p=3, miss=1, entry=2, **BIG)]
    L += [C('xl', 'a08.c', anyp=1, **XL()), C('xxl-col', 'a08.c', entry=2, **XL(64, 110, 14))]
    if t == 'thorough':
        L += [C('pat', 'a08.c', n=2, m=2, p=1, mG=-1, mA=-1, mP=-1, anyp=1), C('anyvec-n3', 'a08.c', n=3, m=3, p=1, vec=1, anyp=1, entry=1), C('n4m4p2', 'a08.c', n=4, m=4, p=2, anyp=1, miss=1)]
    return L


prop('A08', 'Any sigma_d, every subset of missing equality arrays, every pattern of A and G (n=2 m=2 p=1), arbitrary vectors, n<=4 m<=4 p<=2, after no or one previous instance with changed options; the three entry points. Larger: n=8 m=12 p=3, n=40 m=66 p=10 and n=64 m=110 p=14.', a08)


def a09(t):
    L = [C('n2m2p1', 'a09.c', ['line', 'step', 'maxit'], n=2, m=2, p=1), C('tol-perm-row', 'a09.c', ['optimal', 'maxit', 'line', 'step'], n=2, m=2, p=1, tol=1, perm=1, entry=1), C('failed', 'a09.c', ['failed'], n=2, m=2, fail=1),
         C('tol-centre', 'a09.c', ['optimal', 'maxit'], n=2, m=2, p=1, tol=1, centre=1), C('n2m3-col', 'a09.c', ['maxit'], n=2, m=3, lim=2, entry=2, K=3),
         C('to-optimal', 'a09.c', ['optimal', 'maxit'], n=2, m=2, p=1, feas=1, lim=15, K=1, tol=1)]
    L += [C('large', 'a09.c', ['maxit'], n=8, m=12, p=3, lim=6, K=1, feas=1, **BIG)]
    L += [C('xl', 'a09.c', ['maxit'], lim=2, K=1, **XL())]
    if t == 'thorough':
        L += [C('n3m4p1', 'a09.c', n=3, m=4, p=1, lim=8, tol=1), C('n3m3p2-row', 'a09.c', n=3, m=3, p=2, lim=4, K=3, entry=1), C('n3m5-feas', 'a09.c', n=3, m=5, p=1, feas=1, lim=20, tol=1, K=2, entry=2)]
    return L


prop('A09', 'Any verbosity in 1..2^31-1, up to 3 solves with arbitrary limits and tolerances over concrete matrices (n<=3 m<=5 p<=2), up to 20 iterations, every clock reading arbitrary; printf and puts are intercepted and the arguments matched with the labels before them. Larger: n=8 m=12 p=3, 6 iterations, and n=40 m=66 p=10, 2 iterations.', a09)


def t01(t):
    W = dict(_wrap=['clock_gettime', 'kktsolve_1', 'kktsolve_2', 'LDL_numeric'])
    L = [C('timer', 't01.c', ['borrow'], **W), C('timer-rounding', 't01.c', mode=2, _round=1, **W), C('solve', 't01.c', ['kkt'], mode=1, n=2, m=2, p=1, K=2, its=-2, **W), C('solve-centre-row', 't01.c', ['kkt'], mode=1, n=2, m=2, p=1, K=2, centre=1, entry=1, **W),
         C('solve-loose', 't01.c', ['kkt'], mode=1, n=2, m=2, p=1, K=3, its=2, loose=1, **W), C('solve-verbose-col', 't01.c', ['kkt'], mode=1, n=2, m=2, p=1, K=2, its=2, verbose=1, entry=2, **W)]
    L += [C('solve-xl', 't01.c', ['kkt'], mode=1, K=2, its=2, **XL(), **W)]
    if t == 'thorough':
        L += [C('solve-5', 't01.c', ['kkt'], mode=1, n=2, m=3, p=1, K=2, its=5, **W), C('solve-K3', 't01.c', ['kkt'], mode=1, n=2, m=2, p=1, K=3, its=-3, centre=1, **W)]
    return L


prop('T01', 'All pairs of readings with 0 <= sec <= 2^40 and 0 <= nsec < 1e9 in nondecreasing order; during setup and up to 3 solves of up to 3 (thorough 5) iterations every reading of the clock is arbitrary; the conversion of one difference also with every floating operation rounding arbitrarily within 2^-53 relative. '
     'POSIX branch only: the Windows and macOS timers are not compiled here.', t01)


# ------------------------------------------------------------------------------------------- Python module
PYM = dict(_sources=['CORE', 'python/pyqpSWIFT.c'], _ncflags=['-DNATIVE'], _ldflags=['-Wl,--unresolved-symbols=ignore-all'],
           _cflags=['-I/usr/include/python3.12', '-I/usr/lib/python3/dist-packages/numpy/core/include'],
           _wrap=['QP_SETUP_dense', 'QP_SOLVE', 'QP_CLEANUP_dense'])
PYA = ['CPython and NumPy are modelled (harness/pystub.h: objects with reference counts, error indicator, interpreter lock, arrays with shape, '
       'strides and element type); the module itself is compiled against their real headers.']


def p01(t):
    L = [C('which', 'p01.c', ['valid', 'rejected'], merge=1, **PYM), C('ndims', 'p01.c', ['valid', 'rejected'], allnd=1, which=0, anytype=0, **PYM),
         C('keywords-notarray', 'p01.c', ['valid', 'rejected'], kw=1, notarr=1, anytype=0, which=1, merge=1, **PYM)]
    if t == 'thorough':
        L += [C('alltypes-%d' % i, 'p01.c', ['valid', 'rejected'], anytype=2, which=i, merge=1, **PYM) for i in range(6)]
        L += [C('keywords-%d' % i, 'p01.c', ['valid', 'rejected'], kw=1, notarr=1, which=i, merge=1, **PYM) for i in range(6)]
    return L


prop('P01', 'All sizes 1..2^40 (consistent ones up to 2) of all arrays, 0..4 dimensions of one array or 1..2 of every array, every NumPy element type of one (thorough: every) array, '
     'A and b each present or not, any number of positional arguments, one argument of another type.', p01, {'quick': 90, 'thorough': 780}, PYA)


def p02(t):
    L = [C('one', 'p02.c', ['solved', 'rejected'], **PYM)]
    if t == 'thorough':
        L += [C('one-p1', 'p02.c', ['solved', 'rejected'], n=2, m=2, p=1, optpos=1, **PYM), C('all', 'p02.c', ['solved', 'rejected'], all=1, merge=1, **PYM)]
    return L


prop('P02', 'Each option absent, an integer in (-2^62,2^62), one beyond a C long on either side, any float, NaN, either infinity or a string, with the others all absent or all of the right type and any value '
     '(thorough: every combination of absent, integer, too large, float); warnings as errors or not.', p02, {'quick': 90, 'thorough': 780}, PYA)


def p03(t):
    L = [C('fake', 'p03.c', ['basic', 'adv'], n=2, m=3, p=1, **PYM), C('fake-p0', 'p03.c', ['basic', 'adv'], n=2, m=1, p=0, kw=1, **PYM), C('real', 'p03.c', ['basic', 'adv'], n=2, m=2, p=1, real=1, **PYM)]
    L += [C('fake-xl', 'p03.c', n=34, m=40, p=33, maxdim=64, which=6, level=2, _maxsteps=30000000, **PYM)]
    L += [C('fake-n7', 'p03.c', ['basic', 'adv'], n=7, m=9, p=2, maxdim=9, **PYM)]
    if t == 'thorough':
        L += [C('fake-n3', 'p03.c', ['basic', 'adv'], n=3, m=4, p=2, kw=1, **PYM), C('real-n3', 'p03.c', ['basic', 'adv'], n=3, m=4, p=2, real=1, **PYM), C('fake-n1m4', 'p03.c', ['basic', 'adv'], n=1, m=4, p=1, **PYM)]
    return L


prop('P03', 'Arbitrary elements and arbitrary results (a recorder in place of the solver), and the real solver on concrete data; n<=3 m<=4 p<=2, n=7 m=9 p=2 and n=34 m=40 p=33; one or all arrays C-ordered, Fortran-ordered, strided, float32, strided float32, long double or half; '
     'no options or OUTPUT 1, 2, 3.', p03, {'quick': 60, 'thorough': 780}, PYA)


def p04(t):
    L = [C('fake', 'p04.c', ['result', 'exception'], **PYM), C('bad', 'p04.c', ['result', 'exception'], bad=1, layouts=1, **PYM), C('real', 'p04.c', ['result', 'exception'], real=1, layouts=1, **PYM)]
    if t == 'thorough':
        L += [C('bad-all', 'p04.c', ['result', 'exception'], bad=1, **PYM), C('real-all', 'p04.c', ['result', 'exception'], real=1, n=2, m=3, **PYM), C('twice', 'p04.c', ['result', 'exception'], K=2, layouts=2, **PYM)]
    return L


prop('P04', 'Every layout of one or all arrays, every output level, every rejected option and inconsistent size, warnings as errors; n=2 m<=3 p<=1; one (thorough two) calls; allocation always succeeds.', p04, {'quick': 60, 'thorough': 780}, PYA)
for _p in ('P01', 'P02', 'P03', 'P04'):
    NA.pop(_p, None)


# ------------------------------------------------------------------------------------------- MATLAB and Simulink
MXM = dict(_sources=['CORE', 'matlab/qpSWIFT_mex.c'], _cflags=['-DMATLAB_MEX_FILE', '-I$HAR/mex'], _ncflags=['-DNATIVE'],
           _ldflags=['-Wl,--unresolved-symbols=ignore-all'], _wrap=['QP_SETUP', 'QP_SOLVE', 'QP_CLEANUP'])
MXA = ['The MATLAB API is modelled (harness/mexstub.h: arrays with class, storage, two dimensions, data and fields; an error ends the call); MATLAB itself is not here.']


def x01(t):
    L = [C('arguments', 'x01.c', ['valid', 'rejected', 'help'], **MXM), C('permutation', 'x01.c', ['valid', 'rejected', 'perm'], perm=1, **MXM)]
    if t == 'thorough':
        L += [C('arguments-split', 'x01.c', ['valid', 'rejected', 'help'], merge=0, **MXM)]
    return L


prop('X01', '0..9 inputs, 0..4 outputs, arbitrary class, storage, complexity and two dimensions 0..2^40 of every array at once (consistent ones up to 2); or a permutation of arbitrary class, storage and size with up to 3 entries out of '
     '1, 2, 3, 0, 4, 1.5, NaN, in the three spellings of its name. Options are a scalar structure.', x01, {'quick': 90, 'thorough': 780}, MXA)


def x02(t):
    L = [C('one', 'x02.c', ['solved', 'rejected', 'perm'], **MXM), C('real', 'x02.c', ['solved', 'rejected'], n=1, m=2, p=1, real=1, few=1, **MXM),
         C('xl', 'x02.c', ['solved', 'perm'], n=34, m=40, p=33, fnr=3, few=1, kinds=2, fwhich=5, offs=2, _maxsteps=30000000, **MXM)]
    if t == 'thorough':
        L += [C('n3m3p2', 'x02.c', ['solved', 'rejected', 'perm'], n=3, m=3, p=2, **MXM), C('n1m3p1', 'x02.c', ['solved', 'rejected', 'perm'], n=1, m=3, p=1, merge=0, **MXM)]
    return L


prop('X02', 'Arbitrary data and option values; one option an arbitrary double, NaN, infinite, empty, int32, logical, a string or a cell, in upper or lower case, the others absent or arbitrary doubles; '
     'rotated and reversed permutations; n<=3 m<=3 p<=2 and n=34 m=40 p=33; 4 to 7 arguments, row and column vectors. VERBOSE beyond 2^31-1 may be rejected; MAXITER and VERBOSE are truncated to integers.', x02, {'quick': 90, 'thorough': 780}, MXA)


def x03(t):
    L = [C('fake', 'x03.c', ['basic', 'adv'], **MXM), C('real', 'x03.c', ['basic', 'adv'], real=1, n=2, m=2, **MXM), C('twice', 'x03.c', ['basic', 'adv'], K=2, n=2, m=2, **MXM), C('fake-n1m1', 'x03.c', ['basic', 'adv'], n=1, m=1, p=2, **MXM)]
    L += [C('fake-xl', 'x03.c', n=34, m=40, p=33, fnr=3, _maxsteps=30000000, **MXM)]
    L += [C('fake-n7', 'x03.c', ['basic', 'adv'], n=7, m=9, p=2, **MXM)]
    if t == 'thorough':
        L += [C('fake-n3', 'x03.c', ['basic', 'adv'], n=3, m=4, p=2, **MXM), C('real-n3', 'x03.c', ['basic', 'adv'], real=1, n=3, m=4, p=2, **MXM), C('real-thrice', 'x03.c', ['basic', 'adv'], K=3, n=1, m=2, real=1, **MXM)]
    return L


prop('X03', 'Arbitrary results (a recorder in place of the solver) and the real solver on concrete data; n<=3 m<=4 p<=2, n=7 m=9 p=2 and n=34 m=40 p=33; 1 to 3 outputs, with and without a permutation and printing, up to two (thorough three) calls. '
     'Memory is checked on calls that return; what an error leaves behind is released by MATLAB.', x03, {'quick': 60, 'thorough': 780}, MXA)


def x04(t):
    W = dict(_cflags=['-DMATLAB_MEX_FILE', '-I$HAR/mex'], _ncflags=['-DNATIVE'], _ldflags=['-Wl,--unresolved-symbols=ignore-all'], _wrap=['QP_SETUP_dense', 'QP_SOLVE', 'QP_CLEANUP_dense'])
    L = []
    for k, f in ((0, 'simulink/qpSWIFT_sfunc.c'), (1, 'simulink/qpSWIFT_sfunc_e.c')):
        X = dict(_sources=['CORE', f], eq=k, **W)
        s = '-e' if k else ''
        L += [C('fake' + s, 'x04.c', n=3, m=2, K=2, **X), C('fake-n4' + s, 'x04.c', n=4, m=3, p=2, **X), C('fake-m1' + s, 'x04.c', n=3, m=1, p=3, **X), C('real' + s, 'x04.c', n=3, m=2, K=2, real=1, **X), C('fake-xl' + s, 'x04.c', n=34, m=40, p=33, _maxsteps=30000000, **X)]
        if t == 'thorough':
            L += [C('fake-n5' + s, 'x04.c', n=5, m=6, p=2, K=3, **X), C('real-n4' + s, 'x04.c', n=4, m=5, p=2, K=3, real=1, **X)]
    return L


prop('X04', 'Arbitrary port contents and results; n 3..5, m<=6, p<=3 and n=34 m=40 p=33, up to 2 (thorough 3) steps; signals contiguous or scattered unless the block requires contiguous ones. The solution port has a fixed width (3) and needs at least as many variables.', x04,
     {'quick': 40, 'thorough': 300}, ['The Simulink API is modelled (harness/mex/simstruc.h); the blocks are compiled for MATLAB.'])
