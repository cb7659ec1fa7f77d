"""Build a cache and end the process without any clean-up."""
import json
import os
import sys

from vlib import runner

runner.setup_imports()
from vlib import tasks  # noqa: E402

job = json.load(open(sys.argv[1]))
keep = tasks.evaluator(job["task"], job["ds"], job["store"], job["fin"], job["splits"])
os._exit(77)
