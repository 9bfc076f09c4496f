"""C03: the fixed prefix of an event line is decoded exactly."""
from units.populate import *
LINE = (r'[ \t]*(?P<comm>(?:[^\s][^\n]*)?)-(?P<pid>[0-9]+)(?: +\([^()\n\[\]]*\))? +\[(?P<cpu>[0-9]+)\](?: [^\n][^\n][^\n][^\n])? +'
        r'(?P<ts>[0-9]+(?P<us>\.[0-9]+)?): [A-Za-z_]\w*: +(?P<data>[^\s](?:[^\n]*[^\s])?)')
PREFIX = r'\[\d+\](?:\s+....)?\s+[0-9]+(\.[0-9]+)?: \w+:\s'      # what only another prefix looks like
class Format(Unit):
    name = 'SPECIAL_FIELDS_RE'
    functions = ('trappy.ftrace.SPECIAL_FIELDS_RE',)
    assumes = ('the regular expression matcher has the documented semantics (leftmost, greedy, ordered alternatives); cross-checked against re by the self test',)
    def setup(self, ex): install_re(ex)
    def script(self, ex):
        pat = pattern(ex)
        rxprove(ex, 'every rendered line is recognised and decoded into the rendered fields', pat, 'match', LINE,
                groups={'comm': 'comm', 'pid': 'pid', 'cpu': 'cpu', 'timestamp': 'ts', 'us': 'us', 'data': 'data'}, forbid={'data': PREFIX + r'|^\w+:\s'})
UNITS = [Format(), Populate('C03')]
