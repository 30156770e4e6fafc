"""usage: check.py PROPERTY [quick|thorough]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.main import main  # noqa: E402

tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
sys.exit(main(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1'))))
