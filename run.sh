#!/bin/sh
# usage: run.sh <property> <quick|thorough>   (seed from VERIF_SEED, default 1)
# Rebuilds the library from /repo's working tree and the harness, then runs one property.
cd "$(dirname "$0")" || exit 2
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
B=$PWD/build; X=
case $prop in
    P34) B=$PWD/build/tsan X="-fsanitize=thread -fno-omit-frame-pointer" ;;  # data races end the process
esac
mkdir -p "$B"
if ! make -s -f build.mk -j8 V="$PWD" B="$B" XFLAGS="$X" >"$B/make.log" 2>&1; then
    echo "build failed:"; tail -30 "$B/make.log"; exit 2
fi
export TSAN_OPTIONS="halt_on_error=1 exitcode=66"
exec "$B/check" "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --verif "$PWD"
