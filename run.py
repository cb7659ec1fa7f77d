import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.runner import main  # noqa: E402

main()
