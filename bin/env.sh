# Toolchain of the repository, used for everything the checks build.
. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG
export CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg dst"
export CARGO_TARGET_DIR=/verif/.build/target
cd /verif/sim || exit 2
