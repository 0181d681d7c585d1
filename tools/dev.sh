#!/bin/bash
# dev.sh ID: run only the driver against a scratch build, traces in /tmp/dev/ID.ndjson
D=/tmp/dev; mkdir -p $D/work; rm -rf $D/tree; mkdir -p $D/tree
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
/opt/venv/bin/python /verif/harness/scratch.py $D/tree || exit 1
PYTHONPATH=$D/tree:/verif/harness PV_TREE=$D/tree PV_SEED=${SEED:-1} PV_TIER=${TIER:-quick} PV_OUT=$D/$1.ndjson PV_WORK=$D/work PV_SPEC=/verif/spec TMPDIR=$D/work \
 timeout ${T:-300} /opt/venv/bin/python ${PYOPT} /verif/harness/run_driver.py $1
