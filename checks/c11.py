"""C11: RT+ against the reference decoder."""
from checks.base import *


class C(ModelCheck):
    ID = 'C11'
    KEYS = ['radiotext_plus', 'ert_plus']
    WEIGHTS = {'rtp': 4, 'rt': 6, 'ert': 2, 'ertp': 1.5, 'ps': 0.5}
    RULE = 'RT+ and eRT+ tags (also at the limits of the text, of the dummy class and beyond the end) on random open data group types together with RadioText/eRT in all encodings and item toggle/running changes; oracle: reference decoder working on characters. Non-trivial: a record with tags is due'
    OPTS = {'partial': 0.1}
    RUN = (4, 20, 40, 80)
    N = (150, 400, 800)
    DROP = (0.0, 0.0, 0.0, 0.01, 0.05)


CHECK = C()
