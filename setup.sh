#!/bin/bash
# nothing to build: checks symbolically execute /repo's current source
. /opt/vp/env.sh
cd "$(dirname "$0")" && PYTHONPATH=/verif python -c "import vsym.z3load, vsym.scalars; print('solver ok')"
