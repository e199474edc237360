#!/bin/bash
# Builds once what the checks build again (warms the Go build cache).
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, "lib"); sys.dont_write_bytecode = True
from core import Ctx
c = Ctx("setup"); c.build(); c.cli()
P
