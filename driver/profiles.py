"""One recording profile per property: what kind of histories are recorded."""
from prof_sets import C01          # noqa
from prof_events import C02, C03, C04   # noqa
from prof_spe import FIXED, C05, C06, C07, C09, C11, C12, C13, C14, C15, C16, C17, C19   # noqa
from prof_dist import C18, EACH    # noqa
from prof_prog import C08          # noqa
from prof_text import C10          # noqa
from prof_session import C20       # noqa

FIXED['C18'] = EACH
PROFILES = {k: f for k, f in list(globals().items()) if k[0] == 'C' and k[1:].isdigit()}
