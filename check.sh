#!/bin/bash
# check.sh PROPERTY   (run in /verif; VERIF_TIER=quick|thorough)
cd "$(dirname "$0")" && . /opt/vp/env.sh && exec python3 check.py "$@"
