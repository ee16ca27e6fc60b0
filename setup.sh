#!/bin/bash
# nothing to compile: the checks import the package from /repo's working tree
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -c "import torch, torchaudio, yaml, numpy, scipy; print('ok')"
