"""C17: Long PS, PTYN, eRT against the reference decoder."""
from checks.base import *


class C(ModelCheck):
    ID = 'C17'
    KEYS = ['long_ps', 'partial_long_ps', 'pty_name', 'enhanced_radiotext']
    WEIGHTS = {'lps': 3, 'ptyn': 3, 'ert': 5, 'random': 0.3}
    RULE = 'long PS (UTF-8), PTY names with A/B changes and eRT in UTF-8 and UCS-2 with all lengths up to the limit, 1-4 byte characters, invalid encodings and terminators; oracle: reference decoder. Non-trivial: one of the texts is due'
    NEED = ['long_ps', 'pty_name', 'enhanced_radiotext']
    OPTS = {'partial': 0.2}
    RUN = (4, 40, 100)
    N = (100, 300, 600)


CHECK = C()
