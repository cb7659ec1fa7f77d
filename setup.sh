#!/bin/bash
# Nothing to build: the checks import /repo/src directly. Confirm that they can.
cd "$(dirname "$0")" || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1
exec "${PY:-/opt/venv/bin/python}" -c "import numpy, pyarrow, shapely, valor_lite.object_detection, valor_lite.classification, valor_lite.semantic_segmentation, valor_lite.text_generation; print('setup ok')"
