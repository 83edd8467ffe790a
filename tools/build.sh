#!/bin/bash
# Builds, from /repo's current tree and this directory, under target/ (or $VTARGET):
#   engine/release/psym   the symbolic executor
#   bc/all.ll             harnesses + possum + std + rusqlite + SQLite as LLVM IR
#   replay/replay/pharness  the same harnesses, native, for replaying assignments
cd "$(dirname "$0")/.." || exit 2
V=$PWD
T=${VTARGET:-$V/target}
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset CARGO_TARGET_DIR
export RUSTFLAGS=-Awarnings
mkdir -p $T/bc $T/sqlite
# (possum's build script rewrites this tracked file)
H=/repo/go/cpossum/possum.h
cp -p $H $T/possum.h.saved 2>/dev/null
restore() { [ -f $T/possum.h.saved ] && ! cmp -s $T/possum.h.saved $H && cp -p $T/possum.h.saved $H; }
trap restore EXIT
S=$(ls -d ~/.cargo/registry/src/*/libsqlite3-sys-0.27.0/sqlite3)

engine() {
  cd $V/engine && CARGO_TARGET_DIR=$T/engine cargo build --release --offline -q
}
sqlite() {
  [ -f $T/sqlite/sqlite3.bc ] && [ $T/sqlite/sqlite3.bc -nt $S/sqlite3.c ] && return 0
  sed 's/^static void walChecksumBytes(/__attribute__((noinline)) void walChecksumBytes(/' $S/sqlite3.c > $T/sqlite/sqlite3.c
  clang -O2 -fno-vectorize -fno-slp-vectorize -fno-stack-protector -fPIC -emit-llvm -c $T/sqlite/sqlite3.c -o $T/sqlite/sqlite3.tmp -w -I$S \
    -DSQLITE_CORE -DSQLITE_DEFAULT_FOREIGN_KEYS=1 -DSQLITE_ENABLE_API_ARMOR -DSQLITE_ENABLE_COLUMN_METADATA -DSQLITE_ENABLE_LOAD_EXTENSION=1 -DSQLITE_ENABLE_MEMORY_MANAGEMENT -DSQLITE_ENABLE_STAT4 -DSQLITE_SOUNDEX -DSQLITE_THREADSAFE=1 -DSQLITE_USE_URI -DHAVE_USLEEP=1 -D_POSIX_THREAD_SAFE_FUNCTIONS -DHAVE_ISNAN -DHAVE_LOCALTIME_R -DLONGDOUBLE_TYPE=double &&
    mv $T/sqlite/sqlite3.tmp $T/sqlite/sqlite3.bc
}
symex() {
  # (h_tool.rs includes the source of the command-line tool: if that can't be done, C21 alone has no answer)
  cd $V/harness && symex_with symex,tool || symex_with symex
}
symex_with() {
  CARGO_TARGET_DIR=$T/symex cargo rustc -q --profile symex --offline --features $1 --bin pharness -- --emit=llvm-bc,link -C link-arg=-Wl,--unresolved-symbols=ignore-all
}
replay() {
  cd $V/harness && CARGO_TARGET_DIR=$T/replay cargo build -q --profile replay --offline --features tool --bin pharness || CARGO_TARGET_DIR=$T/replay cargo build -q --profile replay --offline --bin pharness
}
run() { # name
  local t0=$SECONDS
  "$1" > $T/$1.log 2>&1 || { echo "build of $1 failed:"; tail -40 $T/$1.log; return 1; }
  echo "built $1 in $((SECONDS-t0)) s"
}
run sqlite & P1=$!
run engine & P2=$!
run replay & P4=$!
run symex & P3=$!
R=0
for p in $P1 $P2 $P3 $P4; do wait $p || R=2; done
[ $R = 0 ] || exit $R
t0=$SECONDS
LB=$(ls -d ~/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin)
BC=$(ls -t $T/symex/symex/deps/pharness-*.bc | head -1)
if [ ! -f $T/bc/all.ll ] || [ $BC -nt $T/bc/all.ll ] || [ $T/sqlite/sqlite3.bc -nt $T/bc/all.ll ]; then
  cd $T/bc || exit 2
  $LB/llvm-link --suppress-warnings $BC $T/sqlite/sqlite3.bc -o linked.bc || exit 2
  E=$(cd $V/harness/src; grep -ho 'fn h_[a-z0-9_]*' *.rs | sed 's/fn //' | sort -u | paste -sd,)
  $LB/opt --strip-debug -passes='internalize,globaldce,function(lower-invoke,simplifycfg),globaldce' -internalize-public-api-list="$E,HARNESSES,walChecksumBytes" linked.bc -o all.bc || exit 2
  $LB/llvm-dis all.bc -o all.tmp || exit 2
  mv all.tmp all.ll
  echo "linked in $((SECONDS-t0)) s"
fi
exit 0
