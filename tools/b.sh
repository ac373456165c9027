#!/bin/bash
# build for development, errors only
. /opt/vp/env.sh; cd /verif/sim; CARGO_TARGET_DIR=/verif/target cargo build --release --offline "$@" 2>&1 | grep -E "^(error|warning: (unused|var|func|method|field))" -A9 
