#!/usr/bin/env python3
"""Writes src/algs.rs: the algebra declarations the drivers are instantiated with."""
import itertools, os
small = []
for n in range(1, 5):
    for s in range(0, n + 1):
        for h in itertools.product('+-', repeat=n - s):
            small.append(''.join(h) + '0' * s)
mid5 = ['+++++', '-----', '+-+-+', '--+++', '++--0', '-+-+0', '+++00', '+-000', '-0000', '00000']
mid6 = ['++++++', '------', '+-+-+-', '-+-+-+', '+++--0', '-++-00', '++-000', '+-0000', '000000']
mid7 = ['+++++++', '-+-+-+-', '++++---', '+++++-0', '+-+--00', '+-+0000', '0000000']
mid8 = ['++++++++', '--------', '+-+-+-+-', '++++--00', '-+++-000', '+-000000']
big = ['+-+-+-++0', '---+++---', '++++++++++', '+-+-+-+-+-', '-++-+-++-00', '++++++++----']
def pat(n, p, z):
    return ''.join(p[i % len(p)] for i in range(n - z)) + '0' * z
wide = [pat(13, '+', 0), pat(16, '+-', 2), pat(20, '--+', 5), pat(31, '+-', 1), pat(32, '-++', 0), pat(33, '+', 3),
        pat(48, '+--', 8), pat(62, '-', 1), pat(63, '+-', 0), pat(63, '++-', 9)]
# the next dimensions are only used where a single operation is cheap
fbig = ['+0000000', '-+00000', '++-00000', '+-+-+-++0', '-+-+-+000', '++-+--+-000', '+++++++++', '--+-+-++-+', '-++-+-+0000']
# representations of twelve and more generators
fwide = ['++-+--+-+000', '-+-++-+-0000', '+--+-0000000', '+-+0000000000', '-++-+-+++-+00']
# non-degenerate, with representations of sides 32 and 64
side = ['+++++++++', '--+-+-++-+', '+-+-+-+-+-', '++-+--+-+-+', '++++++++----']
split = ['+-', '+-+-', '+-+-+-', '+-+-+-+-']
pga = ['+' * k + '0' for k in range(1, 8)]
def name(s):
    r = ''.join({'+': 'p', '-': 'm', '0': 'z'}[c] for c in s)
    return 'S' + (r if len(r) <= 12 else f"w{len(r)}_" + str(sum(ord(c) * (i + 1) for i, c in enumerate(r))))
allsigs = []
groups = dict(small=small, mid5=mid5, mid6=mid6, mid7=mid7, mid8=mid8, big=big, wide=wide, split=split, side=side, fbig=fbig, fwide=fwide, pga=pga,
              nondeg=[s for s in small + mid5 + mid6 + mid7[:3] + mid8[:3] if '0' not in s],
              small3=[s for s in small if len(s) <= 3],
              pick=['+', '-', '0', '+-', '--', '-0', '++-', '+--', '+-0', '-00', '000', '++++', '+--+', '-+-0', '+-00', '-----', '+-+-0'],
              pick6=['++++++', '+-+-0', '-++-00', '000000', '+++++-0'])
for g in groups.values():
    for s in g:
        if s not in allsigs:
            allsigs.append(s)
o = ["// Written by gen_algs.py", "use tclifford::declare_algebra;"]
for s in allsigs:
    o.append(f"declare_algebra!(pub {name(s)}, [{','.join(s)}]);")
for g, l in groups.items():
    o.append("#[macro_export]\nmacro_rules! for_%s {\n    ($m:ident $($a:tt)*) => {" % g)
    for s in l:
        o.append(f"        $m!($crate::algs::{name(s)}, \"{s}\", {len(s)} $($a)*);")
    o.append("    };\n}")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'src', 'algs.rs')
open(out, 'w').write('\n'.join(o) + '\n')
print(len(allsigs))
