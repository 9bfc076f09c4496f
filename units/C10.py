from units.opening import *
UNITS = [UpdateCache('C10'), UpdateCache('C10', 'SysTrace'), DoParse('C10'), LoadCache('C10'), LoadCache('C10', 'SysTrace')]
BOUNDED_ONLY = ['Base.write_csv followed by Base.read_csv (what a CSV file keeps): bounded, refute/C10.py']
