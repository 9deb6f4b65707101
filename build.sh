#!/bin/bash
# Builds the shim, fakesh and the server under test (from /repo's working tree, hooks on) into /verif/build.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
mkdir -p build
exec 9>build/.lock; flock 9
[ build/vshim.so -nt shim/vshim.c ] || gcc -O2 -w -shared -fPIC -o build/vshim.so shim/vshim.c -ldl -lpthread
[ build/fakesh -nt shim/fakesh.c ] || gcc -O2 -w -static -o build/fakesh shim/fakesh.c
cd /repo
# cargo decides by modification times; make sure that it also rebuilds if contents differ from what was built last
H=$(find src build.rs Cargo.toml Cargo.lock -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$H" != "$(cat /verif/build/target/.hash 2>/dev/null)" ]; then rm -rf /verif/build/target/debug/.fingerprint/pizauth-*; fi
cargo rustc --quiet --bin pizauth --offline --target-dir /verif/build/target -- --cfg pizauth_verif -Awarnings
cp -f /verif/build/target/debug/pizauth /verif/build/pizauth.new && mv -f /verif/build/pizauth.new /verif/build/pizauth
echo "$H" > /verif/build/target/.hash
