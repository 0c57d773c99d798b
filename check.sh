#!/bin/bash
# usage: bash check.sh <property>       (tier from VERIF_TIER, seed from VERIF_SEED)
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
HERE=$PWD
export PYTHONPATH=$PYTHONPATH:$HERE
export TF_CPP_MIN_LOG_LEVEL=3
if ! ( build_ops ) >/tmp/verif_build_$$.log 2>&1; then
  echo "custom operations do not build from /repo's tree"; tail -5 /tmp/verif_build_$$.log
fi
rm -f /tmp/verif_build_$$.log
cd "$HERE"
exec python -m checks.$1 2> >(grep -v "cuda\|TensorRT\|oneDNN\|AVX\|rebuild TensorFlow" >&2)
