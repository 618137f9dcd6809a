"""C06: DRGEP direct interaction coefficients."""

from lib import coeffcheck, graphref

PROPERTY = "C06"
RULE = coeffcheck.RULE
ASSUMPTIONS = coeffcheck.ASSUMPTIONS
SUITES = coeffcheck.suites("create_drgep_matrix", "drgep", graphref.drgep, 1.0 + 1e-12)
