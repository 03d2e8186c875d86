#!/bin/bash
# Nothing to build: the explorer is Python and imports otpod from /repo.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
mkdir -p evidence replays
exec /opt/venv/bin/python -c "import openturns, numpy, scipy, statsmodels, sklearn, matplotlib; print('ok')"
