"""C02: the primitive cell describes the same crystal and contains exactly one lattice point."""

from mc.props import c01

INFO = dict(c01.INFO)
jobs = c01.jobs
final = c01.final


def run(job):
    return c01.run(job, getter="get_primitive")
