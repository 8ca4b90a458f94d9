"""Load mo_parsing from /repo's current working tree, quietly and without bytecode."""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO in sys.path:
    sys.path.remove(REPO)
sys.path.insert(0, REPO)

import warnings

warnings.filterwarnings("ignore")

# profile.py and mo_logs write notices to stdout/stderr; they are not evidence
import mo_parsing
import mo_parsing.results
import mo_parsing.whitespaces as whitespaces
import mo_parsing.helpers as helpers
import mo_parsing.utils as utils
from mo_parsing import *
from mo_parsing.core import ParserElement, Parser
from mo_parsing.results import ParseResults, Annotation, ForwardResults
from mo_parsing.exceptions import ParseException, ParseSyntaxException, RecursiveGrammarException
from mo_parsing.enhancement import OpenDict
from mo_parsing.helpers import QuotedString
from mo_parsing.debug import Debugger

assert os.path.realpath(mo_parsing.__file__).startswith(os.path.realpath(REPO) + os.sep), mo_parsing.__file__


def quiet_log():
    """library notices go to a sink: they are neither verdict nor evidence"""

    def sink(*a, **k):
        return None

    logs = [utils.Log]
    try:
        from mo_logs import Log

        logs.append(Log)
    except Exception:
        pass
    for log in logs:
        log.note = staticmethod(sink) if isinstance(log, type) else sink
        log.warning = staticmethod(sink) if isinstance(log, type) else sink


quiet_log()
