#!/bin/bash
# run.sh check|replay|determinism ... : runs the simulator from /verif against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:$PATH
exec /opt/venv/bin/python -m sim.main "$@"
