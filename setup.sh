#!/bin/bash
# builds the native operations from /repo's working tree (into folders git ignores)
. /opt/vp/env.sh
build_ops >/dev/null 2>&1 || true
exit 0
