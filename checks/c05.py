"""C05: DRG direct interaction coefficients."""

from lib import coeffcheck, graphref

PROPERTY = "C05"
RULE = coeffcheck.RULE
ASSUMPTIONS = coeffcheck.ASSUMPTIONS
SUITES = coeffcheck.suites("create_drg_matrix", "drg", graphref.drg, 1.0 + 1e-12)
