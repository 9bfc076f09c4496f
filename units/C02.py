"""C02: timestamps are unique, ordered and faithful."""
from units.populate import *
UNITS = [Populate('C02'), Timeline()]
