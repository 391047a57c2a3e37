from mc.env import dreimac
from mc.copies import LARGE, SIZES, copies
from mc.engine import Scenario
from mc.props import c04
from mc.props.c04 import ASSUMPTIONS  # noqa: F401

K = "LensCoords"
P = [3, 2, 5, 7]


def scenarios(tier):
    q = tier == "quick"
    return [
        Scenario("graphs4", c04.graphs(K, 4, [0.6875, 0.75, 0.9375], 1, primes=P), bound=2 if q else 4),
        Scenario("graphs5", c04.graphs(K, 5, [0.6875, 0.875], 1, primes=P), bound=1 if q else 3, want=128),
        Scenario("graphs6", c04.graphs(K, 6, [0.75], 2, prime=3), bound=0 if q else 1, want=256),
        Scenario("graphs6p5", c04.graphs(K, 6, [0.75], 1, prime=5), bound=0 if q else 1, want=256),
        Scenario("weighted4", c04.weighted(K, 4, [2.0, 3.0, 4.0], primes=P), bound=1 if q else 3, want=128),
        Scenario("weighted5", c04.weighted(K, 5, [2.0, 3.0], primes=P) if q else
                 c04.weighted(K, 5, [2.0, 3.0, 4.0], primes=P), bound=1, want=256),
        Scenario("circle", c04.circle(K, 8 if q else 10, [2.0, 3.0], 2, primes=P), bound=1 if q else 2, want=128),
        Scenario("shapes", c04.shapes(K, primes=P), bound=1 if q else 3, want=256),
        Scenario("clouds", c04.clouds(K, (3, 3), 6, primes=P), bound=1 if q else 2, want=128),
        Scenario("represented", c04.represented(K, [11, 3, 2, 5, 41]), bound=1 if q else 2, want=128),
        Scenario("copies", copies(dreimac, ["LensCoords"], SIZES if q else LARGE), want=64),
        Scenario("compiled", c04.shapes(K, primes=P, n_orders=5), "jit", bound=1 if q else 2),
    ]
