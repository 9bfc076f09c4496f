from units.opening import *
from units.populate import Populate
UNITS = [CalcMax(), Windowify(), ApplyUser('C07'), DoParse('C07'), LoadCache('C07'), LoadCache('C07', 'SysTrace'), Populate('C07')]
