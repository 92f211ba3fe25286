#!/bin/sh
# builds the harness and the library, with and without the thread sanitizer
cd "$(dirname "$0")" || exit 2
make -f build.mk -j8 V="$PWD" B="$PWD/build" && make -f build.mk -j8 V="$PWD" B="$PWD/build/tsan" XFLAGS="-fsanitize=thread -fno-omit-frame-pointer"
