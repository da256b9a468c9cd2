#!/bin/bash
# builds what the checks share (they build it themselves when it is missing)
cd "$(dirname "$0")/.." || exit 1
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export PYTHONDONTWRITEBYTECODE=1
python3-vt - <<'P'
import sys
sys.path.insert(0, '.')
from checks.ctx import Ctx
c = Ctx('setup', 'quick', 1)
print(c.che)
print(c.mir)
c.close()
P
