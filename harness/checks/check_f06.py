"""F06: what a FiniteDPP call does depends on the kernel and the call, not on earlier calls."""
import vp
import objects as ob


def rejection_histories(c):
    """vfx and alpha calls after one another: each keeps its own precomputation."""
    out = []

    def a(op, mode, k=0):
        return dict(op=op, mode=mode, k=k)

    for name, F, mp, firsts, lasts in (
        ('two', [[1, 1], [0, 2]], 3e-6,
         [a('exact', 'vfx'), a('exact', 'alpha'), a('kdpp', 'vfx', 1), a('kdpp', 'GS', 2)],
         [a('exact', 'vfx'), a('exact', 'alpha'), a('kdpp', 'vfx', 1)]),
        ('strong3', ob.STRONG, 2e-5,
         [a('kdpp', 'vfx', 1), a('kdpp', 'vfx', 2), a('kdpp', 'alpha', 2), a('exact', 'alpha'),
          a('exact', 'vfx')],
         [a('kdpp', 'vfx', 1), a('kdpp', 'vfx', 2), a('kdpp', 'alpha', 2)])):
        for f in firsts:
            for z in lasts:
                if f == z:
                    continue
                out.append(ob.rejection_case(name, F, [f], z, c.seed, mp))
                if name == 'two' and f['mode'] != 'GS':
                    out.append(ob.rejection_case(name, F, [z, f], z, c.seed, mp))
    return out


def run(c):
    hs = ob.histories(c, 'hist2.cfg', [('Depth', '= 2'), ('Alphabet', '= "small"'),
                                       ('RepSet', '<- Reps')])
    if c.thorough:
        hs += ob.histories(c, 'hist3.cfg', [('Depth', '= 3'), ('Alphabet', '= "core"'),
                                            ('RepSet', '<- Reps')])
    cases = [ob.history_case(h, c.seed) for h in hs]
    cases = rejection_histories(c) + cases
    c.conform_traces(cases, 'MC_ObjectTrace', 'MC_ObjectTrace.cfg', limit=200)
