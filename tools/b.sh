#!/bin/bash
. /opt/vp/env.sh; cd /verif/harness && cargo build --offline 2>&1 | grep -E "^error" -A9 | head -60
