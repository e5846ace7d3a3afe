#!/bin/bash
# usage: run.sh <PROPERTY> <quick|thorough> | run.sh --replay <file>
# VSYM_REPO (development only) points the check at a scratch copy; default /repo
. /opt/vp/env.sh
export PYTHONPATH=/verif:${VSYM_REPO:-/repo}
exec python /verif/run_check.py "$@"
