"""What each property's check runs: harness, configurations (bounds) and budget."""
TR = ['clang-18 -O1 lowering and the instrumentation pass/runtime in /verif/engine', 'Z3 4.8.12 (QF_LIRA)', 'g++ native replay of the same harness']
EXACT_ARITH = 'weights are arbitrary reals on each path; double rounding is excluded here (the concrete run of every path is exact), it is what C09 looks at'


def H(src, **kw):
    d = {'src': src}
    d.update(kw)
    return d


def J(name, harness, configs, deadline, bounds='', **kw):
    d = {'name': name, 'harness': harness, 'configs': configs, 'deadline': deadline, 'bounds': bounds}
    d.update(kw)
    return d


EX = H('h_exact')
LG = H('h_large', mock=['mpi', 'tbb'])
# larger graphs: optimality decided at the vertices of each path condition
LGQ = ('rnd:40:80:1 w=r:1', 'rnd:30:60:2 w=r:1', 'rnd:20:40:5 w=r:2', 'torus:6:6 w=r:1', 'torus:4:5 w=r:2', 'ladder:25 w=r:2', 'cliques:6:5 w=r:1', 'hyper:5 w=r:1', 'rnd:60:130:3 w=r:1 fhi=9', 'rnd:30:150:5 w=r:1 fhi=20', 'torus:4:5 w=c:ab',
       'torus:5:5 w=c:aab perm=2', 'rnd:25:50:4 w=i:1:3:3 split=1', 'cliques:4:6 w=i:1:2:6 split=1', 'hubs:4:4 w=p:9a256,16a257,64b')
LGT = ('rnd:100:220:1 w=r:1', 'rnd:80:160:2 w=r:1', 'rnd:30:60:1 w=r:2', 'torus:5:6 w=r:2', 'torus:5:5 w=c:abcb', 'rnd:20:40:7 w=c:abc', 'rnd:25:50:7 w=r:3', 'hyper:4 w=c:abc', 'hyper:6 w=r:1', 'torus:8:9 w=r:1', 'cliques:8:6 w=r:1', 'rnd:150:260:6 w=r:1 fhi=50',
       'rnd:25:45:9 w=r:2 fhi=30', 'rnd:64:128:8 w=r:1 fhi=2', 'ladder:60 w=r:1', 'hubs:6:3 w=p:13a16,36a17,72b', 'rnd:40:90:11 w=i:1:9:2 split=1')
LGB = 'random graphs, tori, ladders, rings of cliques, hypercubes and hub graphs with up to %s, one or two symbolic weights and a symbolic unit, or symbolic weight classes; the total of a path is linear and the optimum concave, so the bound is decided at the vertices of the path condition'


# isolated or pendant vertices in front or at the end of a dense graph: whole shares of the vertices lie on no cycle
LGP = ('rnd:18:150:7 pad=7', 'rnd:18:150:8 padend=7', 'rnd:18:150:9 pend=7')


def pads(prop, algs, tier):
    return ['g=%s a=%s w=r:1 fhi=9 k=0 prop=%d ws=%d base=%d P=%d' % (g, a, prop, 1 + i, i, P) for i, g in enumerate(LGP) for a in algs for P in ((4, 3, 5) if tier == 'thorough' else (4,))]


def large_job(prop, algs, tier, ks=(0,), extra=(), name='large', deadline=70):
    t = tier == 'thorough'
    c = []
    for i, g in enumerate(LGQ + LGT if t else LGQ):
        for j, a in enumerate(algs):
            if not t and len(algs) > 3 and (i + j) % 3:
                continue
            for q, k in enumerate(ks):
                if not t and len(ks) > 1 and (i + j + q) % 2:
                    continue
                c.append('g=%s a=%s k=%d prop=%d ws=%d base=%d P=%d' % (g, a, k, prop, 1 + (i + j) % 4, (i + j) % 4, 2 + (i + j) % (5 if t else 3)))
    c += list(extra)
    return J(name, LG, c, 300 if t else deadline, LGB % ('150 vertices and 260 edges' if t else '60 vertices and 150 edges'), path_timeout=100)
ALGS = ('signed', 'fvs', 'iso')


def exact_jobs(prop):
    def f(tier):
        t = tier == 'thorough'
        c = []
        small = ['g=all:3', 'g=bowtie', 'g=house', 'g=theta', 'g=2K3', 'g=theta5', 'g=K4p']
        js = []
        p = ' prop=%d' % prop
        # every topology on up to 4 labelled vertices, all weights symbolic (signed, fvs); iso with fewer symbolic weights
        c = [g + ' a=%s w=r' % a + p for a in ('signed', 'fvs') for g in ('g=all:3', 'g=all:4', 'g=bowtie', 'g=house', 'g=theta', 'g=2K3')]
        c += ['g=all:3 a=iso w=r' + p, 'g=2K3 a=iso w=r' + p, 'g=all:4 a=iso w=r:3' + p, 'g=K4 a=iso w=r:4' + p] + ['g=%s a=iso w=r:%d' % (g, 4 if t else 3) + p for g in ('house', 'theta', 'bowtie')]
        js.append(J('all-weights', EX, c, 240 if t else 60, 'all labelled graphs with <= 4 vertices and bowtie, house, theta, 2K3; every weight a symbolic positive real (iso: 3-4 symbolic on the larger ones)'))
        c = []
        for a in ALGS:
            for g in ('K5', 'K33', 'W5', 'prism', 'grid23', 'cube', 'petersen', 'mobius', 'K4K3', 'C6d', 'grid33', '2C4d', 'K24'):
                for perm in ((0, 1, 2, 3) if t else (1,)):
                    c.append('g=%s a=%s w=r:%d perm=%d ws=%d' % (g, a, 3 if t or g not in ('K5', 'K33', 'cube', 'petersen', 'grid23', 'C6d', 'prism', 'W5') else 2, perm, perm + 1) + p)
        js.append(J('few-weights', EX, c, 400 if t else 60, 'named graphs with 5-10 vertices, three symbolic weights, the others multiples of a symbolic unit'))
        c = []
        for a in ALGS:
            for g in ('K5', 'K33', 'W5', 'prism', 'cube', 'petersen', 'grid33', 'mobius'):
                c.append('g=%s a=%s w=i:1:2:%d perm=%d' % (g, a, 13 if t else 9, 2) + p)
            c.append('g=sub:K5 a=%s w=i:1:2:2' % a + p)
        js.append(J('ties', EX, c, 300 if t else 60, 'tie-heavy integer weights in {1,2}; every labelled graph on 5 vertices with two symbolic weights'))
        js.append(large_job(prop, ALGS, tier))
        return js
    return f


BG, BGSPY = H('h_big'), H('h_big', flags=['-DSPY'])


def big_job(prop, tier):
    t = tier == 'thorough'
    p = ' prop=%d' % prop
    if prop in (13, 16):
        c = ['g=%s tog=%d ws=%d%s' % (g, 10 if t else 8, i, ' t=list' if i % 3 == 2 else '') + p for i, g in enumerate(['rnd:%d:%d:%d' % (n, m, q) for n, m in ((20, 19), (30, 33), (40, 80), (60, 70), (150, 300), (25, 200), (100, 99)) for q in ((1, 2, 3, 4) if t else (1, 2))] + ['torus:6:7', 'ladder:30', 'cliques:7:5', 'hyper:6', 'P70', 'C70', 'W40', 'hubs:5:3', 'rnd:400:500:3', 'bip:9'])]
        return J('large', BG, c, 200 if t else 40, 'random graphs, tori, ladders, rings of cliques, hypercubes, paths, wheels with up to 400 vertices or 500 edges, %d of the edges optional' % (10 if t else 8))
    if prop == 15:
        c = []
        for i, g in enumerate(('rnd:25:120:1 w=r:2', 'rnd:40:120:1 w=r:1', 'rnd:30:200:2 w=r:1 fhi=30', 'hyper:5 w=i:1:3:4 split=1', 'cliques:5:7 w=r:2', 'hubs:5:4 w=p:11a256,25a257,100b', 'torus:6:6 w=r:1', 'rnd:60:200:4 w=r:1 fhi=9', 'ladder:25 w=r:1', 'rnd:20:60:6 w=c:abcb', 'bip:8 w=r:2 fhi=8', 'hub:12 w=r:2 fhi=8') + (('rnd:100:400:2 w=r:2', 'torus:6:6 w=r:2', 'rnd:30:100:7 w=c:abc', 'hyper:6 w=r:2', 'hub:20 w=r:2 fhi=9') if t else ())):
            c += ['g=%s k=%d a=%s ws=%d' % (g, k, ALGS[(i + k) % 3], 1 + i % 4) + p for k in (1, 2, 3, 4)]
        return J('large', BGSPY, c, 200 if t else 70, 'random graphs, tori, rings of cliques, hypercubes, complete and hub graphs with up to %s; one or two symbolic weights or weight classes; k = 1..4' % ('100 vertices and 400 edges' if t else '60 vertices and 200 edges'), path_timeout=60)
    c = []
    for i, g in enumerate(('rnd:40:80:3 w=r:1', 'rnd:20:40:3 w=r:1', 'rnd:12:22:2 w=r:2', 'torus:4:5 w=r:1', 'torus:4:4 w=c:ab', 'hyper:4 w=c:ab', 'cliques:4:5 w=i:1:2:5 split=1', 'ladder:12 w=r:1', 'rnd:30:60:5 w=r:1 fhi=9', 'rnd:20:60:6 w=r:1 fhi=20', 'hyper:4 w=i:1:2:6 split=1', 'hubs:3:3 w=p:7a16,9a17,27b', 'torus:5:5 w=c:aab perm=1', 'rnd:25:45:8 w=c:abb', 'cliques:3:6 w=r:1', 'rnd:18:30:4 w=i:1:2:7 split=1', 'e:n30,0-1,1-2,2-0,7-8,8-9,9-7,9-10,10-11,11-9 w=r:2')
                          + (('rnd:60:110:3 w=r:1', 'rnd:20:40:3 w=r:2', 'torus:5:5 w=c:abc', 'torus:4:4 w=c:abc', 'rnd:80:120:3 w=r:1', 'hyper:5 w=r:1', 'rnd:15:26:2 w=r:3', 'torus:6:6 w=r:2') if t else ())):
        c += ['g=%s ws=%d' % (g, 1 + (i + q) % 5) + p + (' perm=%d' % (q + 1) if q and 'p:' not in g and 'perm' not in g else '') for q in ((0, 1, 2) if t else (0, 1))]
    return J('large', BG, c, 300 if t else 60, 'random graphs, tori, ladders, hypercubes, rings of cliques with up to %s; one or two symbolic weights and a symbolic unit, or weight classes%s' % ('80 vertices' if t else '40 vertices', '; the greedy basis among the candidates is compared with the optimum at the vertices of the path condition' if prop == 14 else ''), path_timeout=60)


# k around half the length of the cycles of the graph; k for which 2k - 1 does not fit a type
LARGEK = (('C40 w=r:2', (4, 19, 20, 21)), ('C300 w=r:1', (127, 128, 129, 149, 150, 151, 200)), ('rnd:60:70:1 w=r:1', (4, 5, 6, 8, 10)), ('ladder:20 w=r:1', (5, 7, 10)), ('e:n48,%s w=r:1' % ','.join('%d-%d' % (i, (i + 1) % 48) for i in range(48)), (23, 24)),
          ('e:n40,%s,0-20,10-30 w=r:2' % ','.join('%d-%d' % (i, (i + 1) % 40) for i in range(40)), (9, 10, 11, 12, 20, 21)), ('torus:4:9 w=r:1', (4, 5, 9)),
          ('rnd:12:20:1 w=r:2', (1 << 7, 1 << 8, 1 << 15, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 1 << 32, 1 << 62, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 63) + 2, (1 << 64) - 1)))


AP, APSPY = H('h_approx'), H('h_approx', flags=['-DSPY'])


def approx_jobs(prop):
    def f(tier):
        t = tier == 'thorough'
        h = APSPY if prop == 15 else AP
        js, p = [], ' prop=%d' % prop
        algs = ALGS if prop != 15 else ALGS
        c = []
        for k in (1, 2, 3):
            for a in algs:
                c += ['g=%s a=%s k=%d w=r' % (g, a, k) + p for g in ('all:3', 'house', 'bowtie')]
                c.append('g=all:4 a=%s k=%d w=r%s' % (a, k, '' if t and a != 'iso' else ':3') + p)
        if prop == 6:
            c += ['g=%s a=%s k=0 w=r:2' % (g, a) for a in algs for g in ('all:3', 'K4', 'one', 'empty', 'petersen')]
        js.append(J('small', h, c, 240 if t else 50, 'all labelled graphs with <= 4 vertices (3 symbolic weights + unit), house, bowtie with all weights symbolic; k = 1..3'))
        c = []
        for k in (1, 2, 3, 4) if t else (1, 2, 3):
            for a in algs:
                for g in ('K5', 'K33', 'W5', 'prism', 'grid23', 'cube', 'petersen', 'theta', 'C6d', 'grid33', 'K4K3', '2K3', 'e:n8,0-1,1-2,2-3,3-4,4-5,5-6,6-7,7-0,0-4,2-6'):
                    c.append('g=%s a=%s k=%d w=r:2 perm=%d ws=%d' % (g, a, k, k, k + 3) + p)
        js.append(J('named', h, c, 400 if t else 60, 'named graphs with 5-10 vertices, two symbolic weights, the others multiples of a symbolic unit; k = 1..%d' % (4 if t else 3)))
        c = []
        for k in (1, 2, 3):
            for a in algs:
                for g in ('K5', 'K33', 'W5', 'prism', 'cube', 'petersen', 'grid33', 'mobius'):
                    c.append('g=%s a=%s k=%d w=i:1:4:%d perm=%d' % (g, a, k, 6 if t else 4, 2 + k) + p)
                c.append('g=sub:K5 a=%s k=%d w=i:1:3:1' % (a, k) + p)
        js.append(J('ties', h, c, 300 if t else 60, 'integer weights in 1..4 (4 symbolic); every labelled graph on 5 vertices'))
        if prop == 15:
            js.append(big_job(15, tier))
        js.append(J('large-k', BGSPY if prop == 15 else LG, ['g=%s k=%d a=%s ws=%d' % (g, k, a, 1 + i % 4) + p for i, (g, ks) in enumerate(LARGEK) for q, k in enumerate(ks) for a in (ALGS if t else (ALGS[(i + q) % 3],))], 120 if t else 40, 'k = 4..2^64-1 on graphs with up to 300 vertices and girth around 2k', path_timeout=60))
        if prop in (5, 6):
            js.append(large_job(prop, ALGS, tier, (2, 3) if prop == 5 else (1, 2, 3), ['g=hubs:9:4 k=2 a=fvs w=p:19a256,81a257,324b lo=1 hi=1024 prop=%d' % prop] + (['g=hubs:9:4 k=2 a=%s w=p:19a256,81a257,324b lo=1 hi=1024 prop=%d' % (a, prop) for a in ('signed', 'iso')] if t else [])))
        return js
    return f


ST = H('h_struct')


def struct_jobs(prop):
    def f(tier):
        t = tier == 'thorough'
        p = ' prop=%d' % prop
        js = []
        c = ['g=sym:%d:%d' % (n, m) + p for n in range(0, 7) for m in range(0, n * (n - 1) // 2 + 1)]
        js.append(J('all-topologies', ST, c, 200 if t else 60, 'every simple graph on at most 6 labelled vertices (endpoints symbolic, canonical insertion order)'))
        c = ['g=sym:%d:%d:f' % (n, m) + p + ' t=' + ty for n in (2, 3, 4) for m in range(1, n * (n - 1) // 2 + 1) for ty in (('vec', 'list') if t else ('vec',))]
        c += ['g=sym:%d:%d:f' % (n, m) + p for n, m in ((5, 3), (6, 2)) + (((5, 4), (6, 3)) if t else ())]
        js.append(J('any-order', ST, c, 300 if t else 70, 'every simple graph on at most 4 vertices with every insertion order and orientation of its edges'))
        c = ['g=sym:5:%d perm=%d t=%s' % (m, q, ty) + p for m in range(3, 11) for q in (1, 2) for ty in ('list', 'set')]
        c += ['g=sub:%s perm=%d' % (g, q) + p for g in ('prism', 'grid33') + (('cube', 'mobius', 'petersen') if t else ('cube',)) for q in (0, 3)]
        if t:
            c += ['g=sym:7:%d perm=%d' % (m, q) + p for m in (6, 7, 8, 9, 19, 20, 21) for q in (0, 5)]
        js.append(J('containers', ST, c, 300 if t else 70, 'list/set based adjacency lists; every subgraph of prism, 3x3 grid, cube' + (', Moebius ladder, Petersen; 7 vertices with 6-9 and 19-21 edges' if t else '')))
        js.append(big_job(prop, tier))
        return js
    return f


TRE = H('h_trees')


def tree_jobs(prop):
    def f(tier):
        t = tier == 'thorough'
        p = ' prop=%d' % prop
        js = []
        c = ['g=all:3 w=r' + p, 'g=all:4 w=r:3' + p, 'g=all:4 w=r:3 perm=2 ws=4' + p, 'g=theta5 w=r:4' + p, 'g=house w=r:4' + p, 'g=bowtie w=r:5' + p, 'g=2K3 w=r' + p, 'g=K4 w=r:4 ws=2' + p]
        if t:
            c += ['g=K4 w=r' + p, 'g=C5 w=r' + p, 'g=C6 w=r' + p, 'g=all:4 w=r:4' + p, 'g=K23 w=r:5' + p, 'g=theta w=r:5' + p, 'g=house w=r:5 perm=1' + p]
        js.append(J('weights', TRE, c, 400 if t else 60, 'all labelled graphs with <= 4 vertices, house, bowtie, theta, 2K3: 3 to 7 symbolic positive real weights, the others multiples of a symbolic unit'))
        c = []
        for g in ('K5', 'K33', 'W5', 'prism', 'grid23', 'cube', 'petersen', 'mobius', 'K4K3', 'C6d', 'grid33', '2C4d', 'K24'):
            for q in ((0, 1, 2) if t else (1,)):
                c.append('g=%s w=r:%d perm=%d ws=%d' % (g, 3 if t or g in ('K24', 'C6d', 'K4K3', '2C4d') else 2, q, q + 5) + p)
        js.append(J('named', TRE, c, 400 if t else 60, 'named graphs with 5-10 vertices, %s symbolic weights' % ('three' if t else 'two or three')))
        c = ['g=sym:%d:%d w=1' % (n, m) + p for n in range(1, 6) for m in range(n * (n - 1) // 2 + 1)]
        if t:
            c += ['g=sym:6:%d w=1' % m + p for m in range(5, 16)]
        c += ['g=%s w=i:1:2:%d perm=%d' % (g, 10 if t else 8, q) + p for g in ('K5', 'K33', 'W5', 'prism', 'cube', 'petersen', 'grid33', 'mobius', 'K24') for q in ((0, 2, 3) if t else (2,))]
        c += ['g=sub:K5 w=i:1:2:2' + p, 'g=sub:K33 w=i:1:2:3 perm=1' + p]
        js.append(J('ties', TRE, c, 400 if t else 60, 'tie-heavy: every graph on <= %d vertices with unit weights; integer weights in {1,2} (8-10 symbolic) on named graphs; all subgraphs of K5 and K33 with 2-3 symbolic weights' % (6 if t else 5)))
        js.append(big_job(prop, tier))
        return js
    return f


AR = H('h_arith')


def c17_jobs(tier):
    t = tier == 'thorough'
    js = [J('one-step', AR, ['prop=17 m=%d steps=1 regs=2' % m for m in ((1, 2, 3, 4, 5) if t else (1, 2, 3, 4))], 200 if t else 60, 'all pairs of vectors over up to %d coordinates of any (symbolic, 40 bit) value, built by any of three constructions, then any one of nine operations' % (5 if t else 4)),
          J('two-steps', AR, ['prop=17 m=%d steps=2 regs=2' % m for m in ((1, 2, 3) if t else (1, 2))], 300 if t else 60, 'any two operations in sequence over up to %d coordinates' % (3 if t else 2))]
    if t:
        js.append(J('three-steps', AR, ['prop=17 m=1 steps=3 regs=2', 'prop=17 m=2 steps=2 regs=3'], 300, 'three operations over one coordinate; two operations on three vectors over two coordinates'))
    return js


def c18_jobs(tier):
    t = tier == 'thorough'
    p = 'prop=18 '
    N = 90 if t else 40
    c = [p + 'f=gcd N=%d t=%s' % (n, ty) for ty, n in (('long', N), ('int', 30), ('big', 40 if t else 16))]
    c += [p + 'f=inv N=%d t=%s' % (n, ty) for ty, n in (('long', N), ('int', 30), ('big', 40 if t else 16))]
    c += [p + 'f=gcd alo=999999998 ahi=1000000003 blo=123456787 bhi=123456789 lim=1000000010', p + 'f=gcd alo=-1000003 ahi=-999999 blo=-3 bhi=3 lim=1000010',
          p + 'f=inv alo=-1000004 ahi=-1000002 blo=1299709 bhi=1299711 lim=1300000']
    js = [J('gcd-inverse', AR, c, 300 if t else 60, 'ext_gcd and get_mult_inverse for all pairs in [-%d,%d] (int64), [-30,30] (int), smaller for cpp_int, and windows around 10^6 and 10^9' % (N, N))]
    c = [p + 'f=prime lo=2 hi=%d t=long' % (3000 if t else 1000), p + 'f=prime lo=2 hi=%d t=int' % (3000 if t else 1000), p + 'f=prime lo=2 hi=%d t=big' % (1000 if t else 300)]
    c += [p + 'f=prime lo=%d hi=%d t=long' % (q * q - d, q * q + d) for q, d in (((53, 12), (61, 12), (67, 12), (71, 12), (73, 12), (97, 20), (101, 12), (211, 4)) if t else ((53, 4), (61, 4), (71, 4), (97, 3)))]
    js.append(J('primes', AR, c, 300 if t else 60, 'is_prime for every p in [2,%d] and around the squares of primes up to %d' % (3000 if t else 1000, 211 if t else 97)))
    c = []
    for q in (2, 3, 5, 7, 11, 13, 101) if t else (2, 3, 5, 7, 11, 101):
        c += [p + 'f=sp op=scale m=%d p=%d A=%d' % (m, q, 1000000) for m in ((1, 2, 3) if t else (1, 2))]
        c += [p + 'f=sp op=add m=%d p=%d A=1000000' % (m, q) for m in (1, 2)]
        if q > 11:
            continue
        c += [p + 'f=sp op=dot m=%d p=%d A=%d' % (m, q, 100 if m == 1 else 5) for m in ((1, 2) if q <= 3 else (1,))]
    c += [p + 'f=sp op=%s m=1 p=%d A=8 klo=-2 khi=2 t=big' % (o, q) for o in ('add', 'scale', 'dot') for q in (2, 3)]
    c += [p + 'f=sp op=%s m=1 p=%d A=1000 t=int' % (o, q) for o in ('add', 'scale', 'dot') for q in (2, 3, 7)]
    w = [p + 'f=wide t=long sh=0 alo=8589934588 ahi=8589934596 blo=995 bhi=1003', p + 'f=wide t=long sh=0 alo=4294967288 ahi=4294967299 blo=2147483640 bhi=2147483649', p + 'f=wide t=long sh=0 alo=-4294967299 ahi=-4294967293 blo=65533 bhi=65539']
    w += [p + 'f=wide t=big sh=%d alo=%d ahi=%d blo=%d bhi=%d' % x for x in ((70, -6, 6, -6, 6), (31, 1, 12, 1, 12), (32, -3, 9, 2, 8), (63, 1, 6, 1, 6), (64, 1, 9, 1, 9), (130, 5, 11, 6, 12))] + [p + 'f=wide t=big small=1 sh=%d alo=-9 ahi=9 blo=2 bhi=23' % x for x in (31, 64, 100)]
    w += [p + 'f=primewin t=long mid=%d d=%d' % x for x in ((65537 ** 2, 6), (2 ** 32, 8), (2 ** 31, 8), (99991 ** 2, 3), (46337 * 46349, 3), (10 ** 9 + 7, 6), (10 ** 12 + 39, 3))] + [p + 'f=primewin t=int mid=%d d=%d' % x for x in ((46337 ** 2, 6), (2 ** 31 - 10, 9), (10 ** 9 + 7, 6), (2 ** 24, 9))] + [p + 'f=primewin t=big mid=%d d=3' % x for x in (1009 ** 2, 10007 ** 2, 65537 * 3)]
    w += [p + 'f=sp op=add m=1 p=2147483647 A=2000000000', p + 'f=sp op=scale m=1 p=2147483647 A=2000000000'] + [p + 'f=sp op=%s m=1 p=65537 A=2000000' % o for o in ('add', 'scale')] + [p + 'f=sp op=%s m=1 p=46337 A=10000 t=int' % o for o in ('add', 'scale')]
    js.append(J('wide', AR, w, 300 if t else 60, 'gcd and inverse around 2^32, 2^33 (int64) and of multiples of 2^31..2^130 (cpp_int); is_prime in windows around 2^31, 2^32, 65537^2, 10^12 and other squares; vectors with the modulus 2^31-1'))
    w = [p + 'f=hist m=%d p=%d steps=%d ws=%d A=%d%s' % x for x in [(3, 2, 2, 1, 100, ''), (3, 5, 2, 2, 1000, ''), (4, 3, 2, 3, 10, ''), (2, 7, 3, 4, 6, ''), (12, 11, 2, 5, 100, ''), (40, 5, 2, 6, 4, ''), (5, 3, 2, 7, 4, ' t=int'), (3, 5, 2, 8, 2, ' t=big')] + ([(3, 3, 3, 9, 4, ''), (6, 13, 3, 1, 30, ''), (2, 5, 4, 6, 3, ''), (4, 2, 3, 2, 2, ' t=int')] if t else [])]
    js.append(J('histories', AR, w, 300 if t else 60, 'every sequence of 2 (some: %d) operations on three vectors over 2-40 coordinates, one symbolic coefficient' % (4 if t else 3)))
    js.append(J('vectors', AR, c, 400 if t else 100, 'F_p vectors over up to %s symbolic coordinates with symbolic integer coefficients (|coef| <= 10^6, products 100 or 5), scalars -7..7, p <= 101 (products: p <= 11)' % ('three' if t else 'two')))
    return js


TB = H('h_tbb', mock=['tbb'])
TBR = H('h_tbb', mock=['tbb'], passenv=['SYMX_RACE'], flags=['-DRACE'], san='tsan')


def c03_jobs(tier):
    t = tier == 'thorough'
    js = []
    # (entry point, k): exact and approximate
    eps = [(a, 0) for a in ALGS] + [(a, k) for a in ALGS for k in (1, 2)]
    c = []
    for a, k in eps:
        for g in ('K4', 'bowtie', 'theta5', 'house', 'K23', '2K3'):
            c.append('g=%s a=%s k=%d w=r:2 base=any ws=%d' % (g, a, k, len(g)))
        c.append('g=all:4 a=%s k=%d w=r:1 base=any' % (a, k))
        c.append('g=all:3 a=%s k=%d w=r base=any' % (a, k))
    for a, k in eps:
        for g in ('K5', 'K33', 'W5', 'prism', 'cube', 'petersen', 'grid33'):
            c.append('g=%s a=%s k=%d w=%s base=any perm=%d' % (g, a, k, 'r:2' if t else 'i:1:3:2', 1 + k))
    js.append(J('base-schedules', TB, c, 300 if t else 70, 'four base schedules (one chunk, singletons in order / in reverse, halves swapped) for every parallel region; all labelled graphs with <= 4 vertices and named graphs with 5-10 vertices, 1-2 symbolic weights'))
    c = []
    for a, k in eps:
        for g in ('K4', 'bowtie', 'theta5', 'C5', 'K23'):
            c.append('g=%s a=%s k=%d w=%s dev=1 cuts=%d' % (g, a, k, 'r:1', 3 if t else 2))
            c.append('g=%s a=%s k=%d w=i:1:2:2 dev=1 cuts=2 base=any' % (g, a, k))
        if t:
            c += ['g=%s a=%s k=%d w=1 dev=2 cuts=2' % (g, a, k) for g in ('K4', 'bowtie', 'theta5')] + ['g=%s a=%s k=%d w=i:1:3:2 dev=1 cuts=2 base=any perm=1' % (g, a, k) for g in ('W4', 'prism', 'K33')]
    js.append(J('deviations', TB, c, 400 if t else 90, 'any %s parallel region(s) run with an arbitrary partition (<= %d cut points), execution order, accumulation runs and join tree; the others by a base schedule' % ('one or two' if t else 'one', 3 if t else 2)))
    c = []
    for a, k in eps:
        c += ['g=%s a=%s k=%d w=r:2 race=1' % (g, a, k) for g in ('K4', 'bowtie', 'house', 'theta')] + ['g=%s a=%s k=%d w=i:1:3:%d race=1' % (g, a, k, 4 if t else 2) for g in ('K5', 'K33', 'prism', 'W5', 'petersen')] + ['g=all:4 a=%s k=%d w=1 race=1' % (a, k)]
    js.append(large_job(2, ('signed_tbb', 'fvs_tbb', 'iso_tbb'), tier, extra=pads(2, ('signed_tbb', 'fvs_tbb'), tier)))
    js.append(large_job(6, ('signed_tbb', 'fvs_tbb', 'iso_tbb'), tier, (1, 2, 3), name='large-approx', deadline=40))
    js.append(J('races', TBR, c, 300 if t else 70, 'every element of every range a task of its own; conflicting accesses of two tasks of one region', engine=['--race']))
    return js


MP = H('h_mpi', mock=['mpi', 'tbb'])
MPALG = ('signed', 'fvs', 'fvst', 'iso', 'isot')


def c04_jobs(tier):
    t = tier == 'thorough'
    js = []
    c = []
    for a in MPALG:
        for P in (1, 2, 3):
            c += ['g=all:3 a=%s w=r P=%d' % (a, P), 'g=all:4 a=%s w=r:1 P=%d' % (a, P)]
            c += ['g=%s a=%s w=r:%d P=%d ws=%d' % (g, a, 3 if t else 2, P, P) for g in ('K4', 'house', 'bowtie', 'theta', 'K23', '2K3', 'one', 'empty', 'P3')]
    js.append(J('small', MP, c, 300 if t else 60, 'all labelled graphs with <= 4 vertices and named small graphs, 1-3 ranks, 1-3 symbolic weights; edge storage ascending or descending per rank, any of four reduction orders'))
    c = []
    for a in MPALG:
        for g in ('K5', 'K33', 'W5', 'prism', 'petersen', 'grid33', 'C6d', 'cube', 'K4K3', '2C4d'):
            for P in ((2, 3, 4, 5, 7) if t else (2, 3, 5)):
                c.append('g=%s a=%s w=%s P=%d perm=%d lay=%s base=any' % (g, a, 'r:2' if t else 'r:1', P, P, 'any' if P < 3 or t else 'mix'))
            c.append('g=%s a=%s w=i:1:2:%d P=3 perm=4 lay=mix mode=%d' % (g, a, 8 if t else 5, len(g) % 4))
            c.append('g=%s a=%s w=r:1 P=%d lay=mix' % (g, a, 13))
    js.append(J('ranks', MP, c, 400 if t else 80, 'named graphs with 5-10 vertices on 2-5 and 13 ranks, 1-2 symbolic weights or tie-heavy integers'))
    c = []
    for a in MPALG:
        c += ['g=%s a=%s w=r:1 P=2 lay=sym mode=0' % (g, a) for g in ('K4', 'house', 'bowtie', 'theta', 'K23')] + ['g=%s a=%s w=1 P=2 lay=sym mode=0' % (g, a) for g in ('K5', 'prism', 'W4', 'K33', 'C6d')]
        c += ['g=K4 a=%s w=1 P=3 lay=sym mode=0' % a, 'g=sub:K4 a=%s w=i:1:2:2 P=2 lay=sym mode=0' % a]
        if t:
            c += ['g=%s a=%s w=r:2 P=2 lay=sym mode=1' % (g, a) for g in ('K4', 'K5', 'prism', 'W4', 'C6d')] + ['g=%s a=%s w=i:1:2:4 P=2 lay=sym mode=2' % (g, a) for g in ('K4', 'house', 'K5', 'theta')]
    js.append(large_job(2, ALLV[6:], tier, extra=pads(2, ALLV[6:8], tier)))
    js.append(J('layouts', MP, c, 400 if t else 80, 'every edge of rank 1 (and 2) placed below or above all earlier ones, symbolically'))
    return js


DI = H('h_dimacs')


def c10_jobs(tier):
    t = tier == 'thorough'
    r = 'f=read '
    c = [r + x for x in ('n=3 m=0 nl=any', 'n=0 m=0', 'n=0 m=1 hi=2', 'n=3 m=1 symn=1', 'n=4 m=1 wt=mix symn=1', 'n=3 m=2 wt=mix', 'n=2 m=3 wt=none', 'n=3 m=2 wt=int wd=1 nc=1', 'n=2 m=2 nc=2 csy=1 wt=none', 'n=2 m=3 wt=none nc=1 csy=1',
                         'n=3 m=1 p=col wt=mix', 'n=3 m=1 p=sp wt=mix', 'n=2 m=1 seps=1 trail=1 neg=1', 'n=2 m=1 seps=1 wt=none trail=1', 'n=12 m=1 dig=2', 'n=101 m=1 dig=3 hi=1 wt=none', 'n=3 m=1 wd=4', 'n=2 m=1 wd=9', 'n=3 m=2 wt=mix t=list')]
    c += [r + 'n=3 m=1 wt=dec', r + 'n=2 m=2 wt=dec', r + 'n=2 m=1 wt=frac', r + 'n=2 m=1 wt=dec seps=1 trail=1 nc=1']
    if t:
        c += [r + x for x in ('n=3 m=3 wt=mix', 'n=2 m=4 wt=none nc=1 csy=1', 'n=4 m=2 nc=1', 'n=2 m=2 wt=frac', 'n=2 m=2 seps=1 trail=1 wd=1', 'n=120 m=1 dig=3 hi=1', 'n=2 m=3 wt=none nc=2 csy=1')]
    js = [J('reader', DI, c, 300 if t else 60, 'files with a problem line, up to %d edge lines and up to 2 comment lines anywhere, every digit, comment character, separator and the presence of the final newline symbolic' % (4 if t else 3))]
    c = [r + 'n=2 m=1 nc=1 clen=%d csy=1 wt=mix' % l for l in ((200, 254, 255, 256, 510, 511, 512, 1000, 1019, 1020, 1021) + (tuple(range(1005, 1019)) if t else ()))]
    c += [r + 'n=2 m=1 pad=%d wt=int' % l for l in ((60, 126, 127, 128, 254, 255, 256, 511, 512, 1000, 1021, 1022) + (tuple(range(1008, 1021)) if t else ()))]
    c += [r + 'n=2 m=2 pad=1022 wt=none nc=1 clen=1021 csy=1 ']
    c += [r + 'n=2 m=1 nc=1 clen=%d csy=1 wt=mix%s' % (l, p) for l in (1022, 1023, 1024, 1500, 2046, 2047, 3000) for p in ('', ' pat=edge', ' pat=problem')] + [r + 'n=2 m=1 nc=1 clen=%d csy=0 wt=mix pat=%s' % (l, p) for l in range(1022, 1034) for p in ('edge', 'problem')]
    c += [r + 'n=2 m=2 tpad=%d wt=mix' % l for l in (100, 1013, 1014, 1015, 1016, 1017, 1018, 1100, 2040, 2500)]
    js.append(J('long-lines', DI, c, 200 if t else 40, 'comment lines of up to 3000 bytes, edge lines with their fields in the first 1023 bytes and up to 2500 bytes of trailing blanks'))
    c = [r + 'n=%d m=1 far=%d wt=mix' % x for x in ((3, 1), (12, 2), (100, 1), (128, 1), (256, 1), (300, 2), (1000, 1))] + [r + 'n=70000 m=1 far=1 wt=none']
    c += [r + 'n=%d m=1 many=%d seed=%d %s' % x for x in ((5, 30, 1, 'wt=mix'), (40, 60, 2, 'wt=mix dig=2 hi=4'), (100, 130, 3, 'far=1 wt=mix'), (300, 300, 4, 'far=1 wt=none'), (1000, 600, 5, 'far=1 wt=dec'), (9, 70, 6, 'wt=dec'), (3, 260, 7, 'wt=int nc=1 csy=1'))]
    js.append(J('many-lines', DI, c, 200 if t else 60, 'files with up to 600 lines and 1000 (70000) vertices, one of the edge lines symbolic and anywhere; vertex numbers of up to ten digits, negative ones among them', path_timeout=30))
    c = ['f=large q=%s g=%s ws=%d t=%s' % (q, g, i, ('vec', 'list', 'mset', 'int')[(i + k) % 4]) for k, q in enumerate(('loops', 'multi', 'weights')) for i, g in enumerate(('rnd:30:40:1', 'rnd:80:60:2', 'hub:12', 'W40', 'P70', 'hubs:5:3', 'rnd:150:300:3', 'hyper:5', 'bip:9', 'hub:33', 'rnd:300:330:4') + (('rnd:400:500:3', 'torus:10:12', 'cliques:7:8') if t else ()))]
    js.append(J('large-predicates', DI, c, 200 if t else 60, 'graphs with up to 300 vertices and 528 edges with any one edge duplicated, a loop at any vertex or an arbitrary weight on any edge'))
    # vertices without an index: a harness of its own, should an implementation need one
    lv = [x for j in js for x in j['configs'] if x.startswith('f=pred') and 't=list' in x] + [x for x in js[-1]['configs'] if 't=list' in x]
    for j in js:
        j['configs'] = [x for x in j['configs'] if x not in lv]
    js.append(J('list-predicates', H('h_dimacs', flags=['-DLISTV']), lv, 100 if t else 40, 'the same on adjacency lists without a vertex index'))
    c = ['f=pred q=loops n=%d m=%d t=%s' % (n, m, ty) for n, m in ((1, 0), (1, 1), (1, 2), (2, 3), (3, 3)) + (((4, 3), (3, 4)) if t else ()) for ty in ('vec', 'list', 'mset')]
    c += ['f=pred q=multi n=%d m=%d t=%s' % (n, m, ty) for n, m in ((1, 0), (2, 2), (3, 3), (4, 3)) + (((3, 4), (5, 3), (4, 4)) if t else ((3, 4),)) for ty in ('vec', 'list', 'mset')]
    c += ['f=pred q=weights n=%d m=%d t=%s' % (n, m, ty) for n, m in ((1, 0), (1, 1), (2, 2), (2, 3), (3, 2)) + (((2, 4), (3, 3)) if t else ()) for ty in ('vec', 'list', 'mset', 'int')]
    js.append(J('predicates', DI, c, 300 if t else 60, 'every multigraph with up to 4 vertices and 3-4 edges (endpoints symbolic, any order), weights any multiple of 2^-40 in [-4,4] or any small integer'))
    return js


def DM(n, real):
    return H('h_demo', mock=['mpi', 'tbb'], flags=['-DDEMO=%d' % n] + (['-DREAL'] if real else []), libs=['-lboost_thread'])


def c11_jobs(tier):
    t = tier == 'thorough'
    js = []
    for d, name in ((1, 'mcb'), (2, 'approx'), (3, 'stats'), (4, 'mpi')):
        procs = [''] if d != 4 else [' P=%d' % p for p in ((1, 2, 3, 4, 5, 8) if t else (1, 2, 3, 5))]
        c = ['n=%d m=%d opts=none%s' % (n, m, p) for n, m in ((1, 0), (1, 1), (2, 1), (2, 2), (3, 2), (4, 2)) for p in procs]
        c += ['n=3 m=3 opts=none sy=2' + p for p in (procs if t else procs[1:2] or procs)]
        c += ['g=K3 fw=dig opts=few' + p for p in procs] + ['g=K3 fw=dig sy=1 opts=all comment=1' + p for p in procs[:2]]
        c += ['g=house fw=dec sy=2 opts=none' + p for p in (procs if t else procs[-1:])] + ['n=2 m=2 opts=few fw=dec' + p for p in procs[:2]] + ['n=3 m=1 opts=all' + p for p in procs[-2:]]
        c += ['g=%s big=1 opts=%s ws=%d%s' % (g, o, i, p) for i, (g, o) in enumerate((('rnd:12:20:1', 'none'), ('rnd:40:60:2', 'few'), ('rnd:150:200:3', 'none'), ('hubs:5:3', 'none'), ('W40', 'none'))) for p in procs[1:3] or procs]
        js.append(J(name + '-gate', DM(d, False), c, 200 if t else 40, 'graphs with up to 150 vertices and 200 edges with at most one defect; files over <= 4 vertices and <= 3 edges with any endpoints and one-digit (signed) or decimal weights, K3 and house; %sfew or all option combinations; algorithm entry points replaced by recorders returning an arbitrary weight' % ('%s processes, any reduction order; ' % ', '.join(p[3:] for p in procs) if d == 4 else '')))
        if d == 3:
            js.append(J('stats-valid', DM(3, False), ['g=%s fw=pos sy=%d opts=few' % (g, 3 if t else 2) for g in ('K3', 'K4', 'bowtie', 'house', 'theta', 'K23', '2K3', 'K5', 'prism', 'P3', 'one', 'empty', 'W5')], 200 if t else 30, 'valid named graphs, two or three symbolic weights'))
            continue
        c = ['g=K3 fw=pos opts=all' + p for p in procs[-2:]]
        c += ['g=%s fw=pos sy=%d opts=few' % (g, 3 if t else 2) + p for g in ('K4', 'bowtie', 'house', 'theta', 'K23', '2K3', 'P3', 'one', 'empty') for p in procs[-2:]]
        c += ['g=%s fw=pos sy=1 opts=few' % g + p for g in ('K5', 'prism', 'W5', 'K33', 'petersen') for p in procs[1:2] or procs]
        js.append(J(name + '-result', DM(d, True), c, 300 if t else 50, 'valid named graphs with symbolic one-digit weights, the real algorithms, option combinations; printed weight against the optimum'))
    return js


KN = H('h_knob', mock=['tbb'], realnat=True, natflags=['-DREALTBB'])


def c20_jobs(tier):
    t = tier == 'thorough'
    js = []
    c = ['n=3 g=P3 len=%d' % l for l in ((1, 2, 3, 4, 5, 6) if t else (1, 2, 3, 4))]
    c += ['g=%s a=%s k=%d len=2 hi=200 w=1' % (g, a, k) for a in ALGS for k in (0, 2) for g in ('K4', 'bowtie', 'prism')]
    c += ['g=K4 a=%s len=3 hi=200 w=1' % a for a in ALGS]
    js.append(J('setter', KN, c, 200 if t else 60, 'every sequence of up to %d calls with any n in [1,4096] (interleaved with library calls: [1,200])' % (6 if t else 4)))
    c = ['g=%s fw=pos sy=1 opts=%s prop=20' % (g, o) for g in ('K3', 'K4', 'P3') for o in ('few', 'all')]
    for d, name in ((1, 'mcb'), (2, 'approx')):
        js.append(J(name + '-cores', DM(d, False), c, 200 if t else 60, 'every option combination, --cores absent, 0, 1, 2, 3 or 7'))
        js.append(J(name + '-cores-real', DM(d, True), ['g=%s fw=pos sy=1 opts=few prop=20' % g for g in ('K3', 'K4', 'bowtie')], 200 if t else 60, 'the same with the real algorithms: limit in force while parallel regions run'))
    return js


ME = H('h_meta', mock=['mpi', 'tbb'])
ALLV = ('signed', 'fvs', 'iso', 'signed_tbb', 'fvs_tbb', 'iso_tbb', 'signed_mpi', 'fvs_mpi', 'fvs_tbb_mpi', 'iso_mpi', 'iso_tbb_mpi')


def c08_jobs(tier):
    t = tier == 'thorough'
    js, c = [], []
    for i, v in enumerate(ALLV[1:]):
        c += ['g=%s w=%s v1=signed v2=%s t=id' % (g, w, v) for g, w in (('all:3', 'r'), ('all:4', 'r:2'), ('K4', 'r:3'), ('house', 'r:3'), ('theta', 'r:2'), ('K5', 'r:2' if t else 'r:1'), ('prism', 'r:2'), ('petersen', 'i:1:2:5'), ('K33', 'i:1:2:5'), ('W5', 'i:1:3:3'))]
        c += ['g=sub:K5 w=i:1:2:1 v1=%s v2=%s t=id' % (ALLV[i], v)]
    js.append(J('variants', ME, c, 300 if t else 50, 'all 11 exact variants and backends against each other: all labelled graphs with <= 4 vertices, named graphs up to 10 vertices, 1-3 symbolic real weights or tie-heavy integers'))
    c = []
    for i, v in enumerate(ALLV):
        v2 = ALLV[(i * 4 + 3) % 11] if t else v
        p = ' v1=%s v2=%s' % (v, v2)
        c += ['g=all:3 w=r t=renum' + p, 'g=K4 w=r:2 t=renum' + p, 'g=all:4 w=i:1:2:1 t=renum pm=2' + p, 'g=house w=r:2 t=renum+order pm=2' + p, 'g=theta w=i:1:2:3 t=renum+order pm=3' + p]
        c += ['g=K5 w=i:1:2:4 t=renum pm=3 salt=%d' % i + p, 'g=petersen w=i:1:2:3 t=renum+order pm=2 salt=%d' % i + p, 'g=prism w=r:1 t=order pm=3' + p, 'g=K33 w=i:1:3:3 t=renum+order pm=2' + p]
        c += ['g=all:3 w=r t=order' + p, 'g=C4 w=r t=order ty1=set' + p]
    js.append(J('presentation', ME, c, 300 if t else 50, 'every renumbering of graphs with <= 4 vertices, several of larger ones; every edge order of graphs with <= 4 edges, several of larger ones; endpoints flipped'))
    c = []
    for i, v in enumerate(ALLV):
        v2 = ALLV[(i * 3 + 5) % 11]
        p = ' v1=%s v2=%s' % (v, v2)
        c += ['g=%s w=r:2 t=%s' % (g, k) + p for g in ('2K3', 'house') for k in ('isolated', 'scale')] + ['g=%s w=r:1 t=%s' % (g, k) + p for g in ('K4', 'bowtie') for k in ('pendant', 'bridge', 'scale')]
        c += ['g=2K3 w=i:1:3:2 t=bridge ats=7' + p, 'g=%s w=r:1 t=%s bsym=1' % (('C4', 'bridge'), ('2K3', 'bridge'), ('theta5', 'pendant'))[i % 3] + p, 'g=K4 w=r:1 t=subdiv' + p, 'g=house w=i:1:3:2 t=subdiv edges=6' + p, 'g=all:3 w=r t=subdiv' + p, 'g=prism w=i:2:3:1 t=subdiv' + p]
        c += ['g=K3 w=r:2 g2=K3 t=union' + p, 'g=K4 w=r:1 g2=C4 t=union' + p, 'g=W4 w=i:1:2:3 g2=K4 t=union' + p, 'g=K4 w=i:1:2:2 g2=petersen t=union+order+bridge pm=1' + p]
        c += ['g=K5 w=i:1:2:3 t=pendant+isolated+renum pm=1' + p, 'g=K33 w=i:1:2:3 t=subdiv+renum+scale pm=1' + p, 'g=W5 w=i:1:2:3 t=id ty1=list ty2=set' + p, 'g=W5 w=i:1:2:3 t=renum pm=1 ty1=vec ty2=hash' + p]
    js.append(J('growth', ME, c, 300 if t else 60, 'isolated vertices, pendant trees, bridges, disjoint unions, subdivision at a symbolic point of an edge, scaling by 2^-8..2^32, and compositions; other adjacency-list containers; the two runs use different variants'))
    c = []
    for i, (g, w) in enumerate((('rnd:40:80:1', 'r:1'), ('rnd:60:100:2', 'r:1'), ('torus:6:6', 'r:1'), ('ladder:25', 'r:1'), ('cliques:6:5', 'r:1'), ('hyper:5', 'i:1:3:2'), ('rnd:100:180:4', 'i:1:3:2'), ('torus:7:9', 'i:1:2:2'), ('rnd:30:150:5', 'i:1:9:1'), ('rnd:200:300:6', 'i:1:4:1')) + ((('rnd:150:350:7', 'r:1'), ('torus:12:12', 'r:1'), ('rnd:300:450:8', 'i:1:9:1'), ('rnd:60:400:9', 'i:1:5:2'), ('cliques:20:6', 'r:1'), ('hyper:7', 'i:1:2:3')) if t else ())):
        for k in range(6 if t else 3):
            v1, v2 = ALLV[(i + 3 * k) % 11], ALLV[(3 * i + 5 * k + 1) % 11]
            c.append('g=%s w=%s v1=%s v2=%s t=%s pm=-%d salt=%d ws=%d fhi=9' % (g, w, v1, v2, ('renum+order', 'id', 'renum+pendant+isolated', 'subdiv', 'order+scale', 'union+renum')[k % 6], 1 + (i + k) % 3, i + k, i + 1))
    js.append(J('large', ME, c, 400 if t else 120, 'random graphs, tori, ladders, rings of cliques, hypercubes with up to %s vertices and cycle-space dimension up to %s; one or two symbolic weights' % (('300', '341') if t else ('200', '121')), path_timeout=60))
    return js


RO = H('h_round', mock=['mpi', 'tbb'])


def c09_jobs(tier):
    t = tier == 'thorough'
    R = {'engine': ['--round']}
    js = []
    G = ('C6d', 'prism', 'W5', 'theta', 'e:n5,0-1,0-3,1-4,0-4,2-4,1-3,1-2', 'house', 'K5', 'K33', 'W4', '2C4d', 'K4')
    c = []
    for ws in range(1, 31 if t else 13):
        for g in G + ('cube', 'petersen', 'grid33', 'mobius', 'K4K3', 'W6', 'K6'):
            for a in ALGS:
                for Jx in ((3, 5, 9) if a == 'iso' or t else (5,)):
                    c.append('g=%s a=%s u=%s J=%d k=%d D=2 ws=%d perm=%d' % (g, a, ('0.1', '0.1', '0.3333333333333333', '0.01')[ws % 4] if Jx != 3 else '0.1', Jx, (3 if t else 2) if ws % 3 else 1, ws + Jx, ws % 3))
    js.append(J('decimals', RO, c, 400 if t else 75, 'multiples of 0.1, 1/3 or 0.01 as rounded by the compiler, one to three of the weights moved by up to two units in the last place (symbolic); graphs with 4-10 vertices', **R))
    c = []
    for a in ALGS:
        for g in ('K4', 'house', 'theta5', 'C4', 'K23', 'bowtie', 'e:n5,0-1,0-3,1-4,0-4,2-4,1-3,1-2') + (('C6d', 'W4', 'theta', 'prism') if t else ()):
            for ws in (1, 2, 3):
                c.append('g=%s a=%s u=0.125 J=%d D=3 k=%d ws=%d' % (g, a, ws + 1, (5 if t else 3), ws))
        c.append('g=all:4 a=%s u=0.125 J=2 D=3 k=%d ws=4' % (a, 2 if t else 1))
        c.append('g=K4 a=%s u=0.125 J=1 D=7 k=%d' % (a, 6 if t else 4))
    js.append(J('last-places', RO, c, 300 if t else 60, 'weights j/8 plus up to 3 or 7 units in the last place, 3-4 of them symbolic; all labelled graphs with 4 vertices, small named graphs', **R))
    c = []
    for i, a in enumerate(ALLV):
        for q, g in enumerate(('C6d', 'prism', 'K4', 'W5', 'theta')):
            c.append('g=%s a=%s u=0.1 J=5 k=1 D=2 ws=%d perm=%d P=%d base=%d' % (g, a, 1 + (i + q) % 5, q % 3, 2 + q % 2, i % 4))
            if t:
                c += ['g=%s a=%s u=0.1 J=%d k=1 D=2 ws=%d perm=%d P=%d base=%d' % (g, a, 3 + 2 * z, 5 + z + i, (q + z) % 3, 2 + z % 2, (i + z) % 4) for z in range(4)]
        c += ['g=%s a=%s u=0.0009765625 big=512.25 J=3 D=3 k=2 ws=%d perm=%d' % (g, a, 1 + i % 4, i % 3) for g in ('K4', 'house', 'C6d', 'prism')]
    js.append(J('parallel-range', RO, c, 300 if t else 60, 'all eleven variants (TBB and MPI on the models); weights that mix 2^-10 with 512', **R))
    return js


UBF = ['-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift,bounds,null,alignment,bool,enum,float-cast-overflow,return,unreachable', '-fsanitize-trap=all']


def UB(part, early):
    return H('h_ub', mock=['tbb'], passenv=['SYMX_MEMCHECK'] + (['SYMX_EARLY'] if early else []), flags=['-D' + part], symflags=UBF + ['-D_GLIBCXX_ASSERTIONS'], san=True)


MPM = H('h_mpi', mock=['mpi', 'tbb'], passenv=['SYMX_MEMCHECK'], symflags=UBF + ['-D_GLIBCXX_ASSERTIONS'], san=True, leaks=False)
MEMKEYS = r'memory:|ub:|uninitialised|leak|crash|exception|native$'


def c07_jobs(tier):
    t = tier == 'thorough'
    js = []
    edge = ('empty', 'one', 'P3', 'C3', '2K3', 'e:n4', 'e:n5,0-1,2-3', 'e:n7,0-1,1-2,2-0,3-4,5-6', 'e:n6,5-4,4-3,3-5')
    E = {'engine': ['--memcheck'], 'native_timeout': 40}
    eps = [('exact', a, 0) for a in ALGS] + [('tbb', a, 0) for a in ALGS] + [(f, a, k) for f in ('approx', 'atbb') for a in ALGS for k in (1, 2)]
    c = []
    for f, a, k in eps:
        p = 'f=%s a=%s k=%d ' % (f, a, k)
        base = '' if f in ('exact', 'approx') else 'base=%d ' % (len(a) % 4)
        c += [p + base + 'g=%s w=1' % g for g in edge]
        c += [p + base + 'g=all:3 w=r:1', p + base + 'g=K4 w=r:1', p + base + 'g=house w=i:1:2:2 t=int', p + base + 'g=bowtie w=r:1', p + base + 'g=all:4 w=1']
        if f == 'exact':
            c.append(p + 'g=K4 w=r:1 wm=iter')
        if t:
            c += [p + base + 'g=K4 w=r:2', p + base + 'g=theta w=r:2', p + base + 'g=house w=r:2 ws=3']
    js.append(J('entries-unoptimised', UB('UB_ENTRY', True), c, 400 if t else 90, 'every sequential and parallel exact and approximate entry point, instrumented before optimisation: degenerate graphs, all labelled graphs with 3-4 vertices, K4, house, bowtie; one or two symbolic weights', **E))
    c = []
    for f, a, k in eps:
        p = 'f=%s a=%s k=%d ' % (f, a, k)
        base = '' if f in ('exact', 'approx') else 'base=%d ' % (len(a) % 4)
        c += [p + base + 'g=%s w=r:%d perm=%d' % (g, 2 if t or n < 7 else 1, k + 1) for g, n in (('K4', 6), ('house', 6), ('K5', 10), ('K33', 9), ('prism', 9), ('W5', 10), ('petersen', 15), ('grid33', 12), ('2C4d', 10), ('K4p', 8))]
        c += [p + base + 'g=%s w=i:1:2:%d t=int' % (g, 6 if t else 3) for g in ('K5', 'cube', 'mobius')]
        if f in ('tbb', 'atbb'):
            c += [p + 'dev=1 g=%s w=1' % g for g in ('K4', 'bowtie', '2K3')]
        if f == 'exact':
            c += [p + 'g=K5 w=r:1 wm=iter', p + 'g=petersen w=i:1:2:3 wm=iter t=int']
    js.append(J('entries', UB('UB_ENTRY', False), c, 400 if t else 70, 'the same entry points on named graphs with 4-10 vertices, one or two symbolic weights or tie-heavy integers, schedules of the parallel ones', **E))
    comp = ['f=horton', 'f=fvsb', 'f=isob', 'f=index', 'f=fvs', 'f=search a=dij', 'f=search a=lex', 'f=search a=bfs', 'f=pred']
    c = []
    for x in comp:
        c += [x + ' g=%s w=1' % g for g in edge] + [x + ' g=%s w=r:1' % g for g in ('all:3', 'K4', 'house')] + [x + ' g=bowtie w=r:1 t=%s' % ty for ty in ('list', 'set')] + [x + ' g=K4 w=i:1:3:2 t=int', x + ' g=house w=r:1 wm=iter']
    js.append(J('components-unoptimised', UB('UB_COMP', True), c, 400 if t else 70, 'candidate builders, trees, candidate cycles and lookup, forest index, serialisable cycles, FVS, searches, predicates: degenerate graphs, K4, house, bowtie, three container types', **E))
    c = []
    for x in comp:
        c += [x + ' g=%s w=r:%d perm=2' % (g, 2 if t else 1) for g in ('K4', 'K5', 'K33', 'prism', 'W5', 'petersen', '2C4d')] + [x + ' g=all:4 w=%s' % ('r:1' if t else '1')] + [x + ' g=%s w=i:1:2:%d t=int' % (g, 5 if t else 3) for g in ('K5', 'cube')] + [x + ' g=theta w=r:2 t=set wm=iter']
    js.append(J('components', UB('UB_COMP', False), c, 400 if t else 60, 'the same components on named graphs with 4-10 vertices', **E))
    c = ['f=gf2 m=%d steps=1' % m for m in (0, 1, 2, 3)] + ['f=gf2 m=2 steps=2'] + (['f=gf2 m=4 steps=1', 'f=gf2 m=3 steps=2'] if t else [])
    c += ['f=arith q=%s t=%s lim=%d P=%d' % (q, ty, 12 if ty == 'big' else 25, 13 if ty == 'big' else 29) for q in ('gcd', 'inv', 'prime') for ty in ('int', 'long', 'big')]
    c += ['f=arith q=vec t=%s lim=%d P=%d' % (ty, 3 if ty == 'big' else 6, 5) for ty in ('int', 'long', 'big')]
    c += ['f=dimacs n=3 m=1 com=1 csy=2 wd=1', 'f=dimacs n=0 m=0 com=1 csy=1', 'f=dimacs n=2 m=2 wd=1 csy=1']
    c += ['f=dimacs n=2 m=1 wd=1 com=1 csy=0 len=%d' % l for l in (100, 253, 254, 255, 256, 510, 1019, 1020, 1021)] + ['f=dimacs n=2 m=1 wd=1 pad=%d' % l for l in (100, 250, 505, 1000, 1010, 1014)] + ['f=dimacs n=2 m=1 wd=1 csy=1 plen=%d' % l for l in (2, 8, 20, 40, 80, 150, 300, 600, 900, 1015)]
    js.append(J('arithmetic-reader', UB('UB_MISC', True), c, 400 if t else 70, 'GF(2) vectors (assignment, move, self-operations), number theory and F_p vectors over int, long and cpp_int, the DIMACS reader on symbolic files with lines up to the buffer size', **E))
    EPF = ('f=exact', 'f=tbb', 'f=approx', 'f=atbb')
    big = ('wheel:70', 'star:75:20', 'tri:12:40', 'fan:66:20', 'rnd:80:95:3', 'star:70')
    c = []
    for x in comp:
        c += ['%s g=%s w=i:1:2:1 perm=%d%s' % (x, g, q % 2, ' t=int' if q % 3 == 0 else '') for q, g in enumerate(big) if not (x.split()[0] in ('f=horton', 'f=isob') and g in ('wheel:70', 'fan:66:20'))]
    for f, a, k in eps:
        c += ['f=%s a=%s k=%d g=%s w=i:1:2:1 t=int' % (f, a, k, g) for g in (('tri:12:40', 'star:75:20') if k != 2 else ('rnd:70:85:2',))]
    js.append(J('large-components', UB('UB_COMP', False), [x for x in c if x.split()[0] not in EPF], 300 if t else 60, 'graphs with 36-95 vertices (wheel, stars, fan, triangles among isolated vertices, sparse random): components; one symbolic weight', **E))
    js.append(J('large-entries', UB('UB_ENTRY', False), [x for x in c if x.split()[0] in EPF], 300 if t else 60, 'graphs with 70-80 vertices: entry points; one symbolic weight', **E))
    c = ['g=%s a=%s w=r:1 P=%d' % (g, a, P) for a in MPALG for g, P in (('empty', 2), ('one', 3), ('2K3', 2), ('K4', 2), ('house', 3), ('bowtie', 2), ('e:n4', 2))] + ['g=%s a=%s w=i:1:2:2 P=%d lay=mix perm=1' % (g, a, P) for a in MPALG for g in ('K5', 'prism', 'petersen') for P in ((2, 3, 5) if t else (3,))]
    js.append(J('mpi', MPM, c, 300 if t else 40, 'the MPI entry points on 2-3 modelled ranks', only=MEMKEYS, **E))
    c = ['g=%s a=%s k=%d w=i:1:3:1 race=1' % (g, a, k) for a in ALGS for k in (0, 2) for g in ('K4', 'bowtie', 'K5')]
    js.append(J('races', TBR, c, 100 if t else 40, 'data races between the tasks of a parallel region (the C03 race model on fewer graphs)', engine=['--race'], only='race'))
    return js


SPEC = {
    'C09': {'jobs': c09_jobs, 'bounds': 'see jobs', 'outside': 'topologies other than those listed (all labelled graphs only up to 4 vertices, all subgraphs of K5; larger ones are named or random); weights whose high parts are symbolic; more than the stated number of symbolic low parts; relative errors between 1e-9 and 1.005e-9 (1.9e-9 where 2^-10 and 512 are mixed)', 'assumptions': TR + ['round-to-nearest-even addition and subtraction of doubles is encoded in integer arithmetic (binade by decision, last bit by an integer variable); every path is executed on the hardware and must agree with the encoding', 'optimality is decided in exact arithmetic by matroid exchange over all simple cycles', 'oneTBB and boost::mpi are the models of harness/mock']},
    'C07': {'jobs': c07_jobs, 'bounds': 'see jobs', 'outside': 'topologies other than those listed (all labelled graphs only up to 4 vertices, all subgraphs of K5; larger ones are named or random); boost::mpi and oneTBB internals; misaligned or type-punned accesses that no check of -fsanitize=alignment,bool,enum,null,bounds sees; strict aliasing; unsequenced modification', 'assumptions': TR + ['every load, store and library memory operation of the instrumented code is checked against a shadow of live heap and stack objects (byte granular, freed blocks are never reused); undefined bytes are tracked through loads, copies, casts and arithmetic and reported when a branch, address or the caller depends on them', 'clang -fsanitize checks trap and are reported as violations on the path', 'a report counts only when AddressSanitizer/UBSan/LeakSanitizer or memcheck confirms it on the native replay of the same input', 'valid inputs only: DIMACS lines fit the buffer, vectors are used within their preconditions']},
    'C08': {'jobs': c08_jobs, 'bounds': 'see jobs', 'outside': 'larger graphs; more than one or two independent symbolic weights on the large ones; more than 2 MPI ranks (C04 varies those)', 'assumptions': TR + [EXACT_ARITH, 'oneTBB and boost::mpi are the models of harness/mock', 'both runs are on the same symbolic path; what is decided is equality of the two returned weights for every weight of the path']},
    'C11': {'jobs': c11_jobs, 'bounds': 'see jobs', 'outside': 'larger files; option spellings other than those enumerated; process counts above 8; the text of diagnostics', 'assumptions': TR + [EXACT_ARITH, 'each program is compiled with main renamed; option parsing is the real boost::program_options on concrete arguments; the file is an in-memory one; exit() unwinds', 'MPI is the coroutine model of harness/mock/mpi: a rank that waits in a collective nobody else enters is reported as a hang']},
    'C20': {'jobs': c20_jobs, 'bounds': 'see jobs', 'outside': 'longer call sequences; calls from several threads', 'assumptions': TR + ['global_control of the model: the smallest limit among live control objects is in force; the native replay of the setter sequences asks the installed oneTBB']},
    'C04': {'jobs': c04_jobs, 'bounds': 'see jobs', 'outside': 'topologies other than those listed (all labelled graphs only up to 4 vertices, all subgraphs of K5; larger ones are named or random), more than 13 ranks; layouts that no sequence of low/high placements produces; message schedules outside collectives', 'assumptions': TR + [EXACT_ARITH, 'boost::mpi and oneTBB are replaced by models (harness/mock): ranks are coroutines meeting in collectives, values travel through the types own serialize()', 'different memory layouts are modelled by placing edge nodes at rank-specific addresses']},
    'C10': {'jobs': c10_jobs, 'bounds': 'see jobs', 'outside': 'edge lines with fields beyond byte 1023; files with several symbolic lines among many; bytes outside printable ASCII in comments; malformed lines', 'assumptions': TR + ['fgets/sscanf/strtod and friends are re-implemented over an in-memory file (harness/hx_stdio.hpp) for the symbolic run; the replay and the sampled paths use the C library itself', 'decimal fractions and exponents are enumerated by solver-decided case splits, not symbolic']},
    'C03': {'jobs': c03_jobs, 'bounds': 'see jobs', 'outside': 'topologies other than those listed (all labelled graphs only up to 4 vertices, all subgraphs of K5; larger ones are named or random); more than one (thorough: two) regions deviating from the base schedule at once; more cut points per region', 'assumptions': TR + [EXACT_ARITH, 'oneTBB is replaced by a model (harness/mock/tbb) whose scheduling decisions are symbolic; concurrent containers are atomic per operation', 'races are conflicting accesses by two tasks of one region outside locks and concurrent containers; a reported race is confirmed by ThreadSanitizer on the native build with one thread per task']},
    'C17': {'jobs': c17_jobs, 'bounds': 'see jobs', 'outside': 'longer histories, more coordinates', 'assumptions': TR + ['moved-from vectors are only cleared or reassigned']},
    'C18': {'jobs': c18_jobs, 'bounds': 'see jobs', 'outside': 'larger magnitudes (in particular overflow of built-in types), larger primes, longer histories', 'assumptions': TR + ['integer arithmetic over mathematical integers with explicit wrap-around at the type width; division and square roots by solver-decided quotient splitting']},
    'C01': {'jobs': exact_jobs(1), 'bounds': 'see jobs', 'outside': 'topologies other than those listed (all labelled graphs only up to 4 vertices, all subgraphs of K5; larger ones are named or random); more than the stated number of independent symbolic weights', 'assumptions': TR + [EXACT_ARITH]},
    'C02': {'jobs': exact_jobs(2), 'bounds': 'see jobs', 'outside': 'topologies other than those listed (all labelled graphs only up to 4 vertices, all subgraphs of K5; larger ones are named or random); more than the stated number of independent symbolic weights', 'assumptions': TR + [EXACT_ARITH]},
    'C05': {'jobs': approx_jobs(5), 'bounds': 'see jobs', 'outside': 'topologies other than those listed', 'assumptions': TR + [EXACT_ARITH]},
    'C06': {'jobs': approx_jobs(6), 'bounds': 'see jobs', 'outside': 'topologies other than those listed', 'assumptions': TR + [EXACT_ARITH, 'the optimum is characterised by matroid exchange over all simple cycles']},
    'C15': {'jobs': approx_jobs(15), 'bounds': 'see jobs', 'outside': 'topologies other than those listed', 'assumptions': TR + [EXACT_ARITH, 'the spanner is observed as the argument of the exact phase; its vertex i stands for vertex i of the input']},
    'C13': {'jobs': struct_jobs(13), 'bounds': 'see jobs', 'outside': 'larger graphs; multigraphs', 'assumptions': TR},
    'C12': {'jobs': tree_jobs(12), 'bounds': 'see jobs', 'outside': 'topologies other than those listed (all labelled graphs only up to 4 vertices, all subgraphs of K5; larger ones are named or random); more than the stated number of independent symbolic weights', 'assumptions': TR + [EXACT_ARITH, 'trees are built with an index map and weight map that outlive them']},
    'C14': {'jobs': tree_jobs(14), 'bounds': 'see jobs', 'outside': 'topologies other than those listed (all labelled graphs only up to 4 vertices, all subgraphs of K5; larger ones are named or random); more than the stated number of independent symbolic weights', 'assumptions': TR + [EXACT_ARITH, 'sufficiency is decided per region of the weight space on which one greedy choice among the candidates stays optimal (matroid exchange over all simple cycles)']},
    'C16': {'jobs': struct_jobs(16), 'bounds': 'see jobs', 'outside': 'larger graphs; multigraphs', 'assumptions': TR},
}
NOTE = 'Bounded: holds for every value of the symbolic inputs within the bounds (path tree exhausted, every assertion query unsat); evidence says when a run was incomplete.'
for _s in SPEC.values():
    _s.setdefault('note', NOTE)
HOOKS = None
NA = {'C19': 'A statement about compiling and linking every header on its own: there is no execution, hence no inputs, interleavings or states to make symbolic; the compiler/linker decides it, not a solver.'}
