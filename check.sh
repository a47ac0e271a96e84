#!/bin/bash
# check.sh <property> <quick|thorough> [case-substring]
cd "$(dirname "$0")"
export TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 FMK_LOG_FILE_PATH="${TMPDIR:-/tmp}/sx_fmk_$$.log"
/opt/venv/bin/python -m sx.run "$@"
rc=$?
/bin/rm -f "$FMK_LOG_FILE_PATH"
exit $rc
