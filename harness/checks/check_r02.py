"""R02: no call changes what its caller owns, and calls that draw nothing draw nothing."""
import streams


def run(c):
    c.model('MC_Streams', 'MC_Streams.cfg')
    streams.run(c, streams.R02, 20 if c.thorough else 2, 8 if c.thorough else 4)
    streams.run_plain(c, streams.R02 + streams.PLAIN, 20 if c.thorough else 1)
