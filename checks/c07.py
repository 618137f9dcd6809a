"""C07: PFA direct interaction coefficients."""

from lib import coeffcheck, graphref

PROPERTY = "C07"
RULE = coeffcheck.RULE
ASSUMPTIONS = coeffcheck.ASSUMPTIONS
SUITES = coeffcheck.suites("create_pfa_matrix", "pfa", graphref.pfa, None)
