# Sourced by the scripts here: the project's own toolchain, offline.
. /opt/vp/env.sh
export CARGO_INCREMENTAL=${VH_INCREMENTAL:-0}
