"""Values rounded to a narrower floating type on the way to where a property speaks of them."""

BOTH = ('float32', 'float16')


def drawn(t):
    """an element of a drawn sample, as drawn"""
    if t.op == 'ite':
        return drawn(t.args[1]) and drawn(t.args[2])
    return t.op == 'at' and t.args[0].op == 'call' and t.args[0].args[0] == 'draw'


def derived(t):
    return not drawn(t)


def every(t):
    return True


# the neighbour libraries work in single precision
PRECISE = {'A01': (('float16',), every), 'A02': (('float16',), every), 'R02': (BOTH, derived), 'R06': (BOTH, drawn)}
PRECISE.update({p: (BOTH, every) for p in ('E02', 'E03', 'E04', 'E05', 'B01', 'B02', 'B03', 'B04', 'B05', 'T05')})


def precise(rep, pid):
    if pid not in PRECISE or not rep.seen:
        return
    kinds, about = PRECISE[pid]
    rep.rule('precise', 'no value is rounded to less than %s precision' % ('single' if 'float32' not in kinds else 'double'))
    bad = {}
    for I in rep.seen:
        for e in getattr(I, 'events', ()):
            if e.name == 'narrow' and e.args[0].args[1] in kinds and about(e.args[1]):
                bad.setdefault((e.where(), e.args[0].args[1]), e)
    for (w, k) in sorted(bad):
        rep.ob('precise', w, False, w, 'rounded to %s' % k)
    if not bad:
        rep.ob('precise', pid, True, '', '')
