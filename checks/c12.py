"""C12: Alternative frequencies against the reference decoder."""
from checks.base import *


class C(ModelCheck):
    ID = 'C12'
    KEYS = ['alt_frequencies_a', 'alt_frequencies_b', 'partial_alt_frequencies']
    WEIGHTS = {'ps': 8, 'eon': 1}
    RULE = 'AF lists of method A and B with 1 to 25 entries, LF/MF entries, fillers, duplicates, wrong counts, invalid codes, restarts and lost blocks; oracle: reference decoder. Non-trivial: a complete list is due'
    NEED = ['alt_frequencies_a', 'alt_frequencies_b']
    OPTS = {'partial': 0.35}
    RUN = (4, 40, 200)


CHECK = C()
