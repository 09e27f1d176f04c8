#!/bin/sh
# workspace wrapper: lets the pinned stable compiler print MIR, without touching dependency fingerprints
export RUSTC_BOOTSTRAP=1
exec "$@"
