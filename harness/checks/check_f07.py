"""F07: the record of samples of a FiniteDPP object."""
import objects as ob


def run(c):
    n = 4000 if c.thorough else 400
    hs = ob.histories(c, 'walks.cfg', [('Depth', '= 8'), ('Alphabet', '= "wide"'),
                                       ('RepSet', '<- Reps')], simulate=n, depth=9)
    cases = [ob.walk_case(h, c.seed + j, j) for j, h in enumerate(hs)]
    c.conform_traces(cases, 'MC_ObjectTrace', 'MC_ObjectTrace.cfg', limit=60)
