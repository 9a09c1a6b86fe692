# toolchain and build settings shared by setup and checks
__cwd=$(pwd)
. /opt/vp/env.sh
cd "$__cwd"
VCACHE=/verif/.cache
export CARGO_PROFILE_DEV_DEBUG=0
unset CARGO_PROFILE_NODEBUG_DEBUG
export CARGO_TARGET_DIR=$VCACHE/target
if [ -s $VCACHE/rocks/librocksdb.a ] && [ -s $VCACHE/rocks/libsnappy.a ]; then
  export ROCKSDB_LIB_DIR=$VCACHE/rocks SNAPPY_LIB_DIR=$VCACHE/rocks ROCKSDB_STATIC=1 SNAPPY_STATIC=1
fi
