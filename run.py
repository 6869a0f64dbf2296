import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import core

def main():
    pid = sys.argv[1]
    mod = importlib.import_module("props." + pid.lower())
    sys.exit(core.main(mod, sys.argv[2:]))

main()
