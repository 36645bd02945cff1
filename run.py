"""python3-vt run.py <property> [--case KEY] ; VERIF_TIER / VERIF_SEED from the environment."""
import importlib, json, os, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pyv import driver
if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
