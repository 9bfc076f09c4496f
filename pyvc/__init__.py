from .lib import *
from .lib import lib, uf
