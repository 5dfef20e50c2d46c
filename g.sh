#!/bin/bash
source /opt/vp/env.sh >/dev/null 2>&1
exec /verif/.build/govc "$@"
