#!/bin/bash
# Nothing to compile: check that the interpreters and the package are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
python3-vt -c 'import hypothesis, sys; sys.path.insert(0, "."); from harness import core; import tempfile, shutil
d = tempfile.mkdtemp(); w = core.Worker(d); w.start(); w.stop(); shutil.rmtree(d); print("setup ok, hypothesis", hypothesis.__version__)'
