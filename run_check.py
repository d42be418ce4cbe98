import sys
sys.dont_write_bytecode = True
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from pbt import core
sys.exit(core.main(sys.argv[1:]))
