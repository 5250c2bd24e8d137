#!/bin/bash
# Warms nothing that a check needs: every check rebuilds from /repo itself.
cd "$(dirname "$0")/.." && python3-vt -c "import sys; sys.path.insert(0,'.'); from mirv import core; core.build_mirdump()"
