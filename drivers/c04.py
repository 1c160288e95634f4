"""C04: cell and leg numbering"""
from legs import *
MC = "MCLegs"
TRACE = "TraceLegs"
ASSUMPTIONS = ["mapped positions are multiples of a quarter cell"]

def scenarios(mc, rng, tier):
    return all_scenarios(mc, rng, tier, 500 if tier == "quick" else 6000, 729, big=50000)

def execute(sc):
    return [record("num", sc, W.calculate_parallel_map_operators(make(sc)), csr=False)]
