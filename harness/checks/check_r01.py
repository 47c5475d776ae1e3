"""R01: every sampling call reads the stream it is given, and nothing else."""
import streams


def run(c):
    c.model('MC_Streams', 'MC_Streams.cfg')
    streams.run(c, streams.R01, 60 if c.thorough else 3, 12 if c.thorough else 7)
