#!/bin/bash
# Compiles demo.c with the library's sources found under the current directory
# and runs it: exit 0 if the guarantee held. Writes only into a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
mode=$(sed -n 's/^.*MODE: *\([a-z]*\).*$/\1/p' "$here/demo.c" | head -1)
flags=$(sed -n 's/^.*CFLAGS: *\(.*[^ ]\) *\*\/ *$/\1/p' "$here/demo.c" | head -1)
flags=${flags//@HERE@/$here}
out=$(mktemp -d /tmp/small_demo.XXXXXX) || exit 2
trap 'rm -rf "$out"' EXIT
mkdir "$out/inc"
asan=0; [ "$mode" = asan ] && asan=1
sed -E -e 's/^ *# *cmakedefine +(TARANTOOL_SMALL_HAVE_MADVISE|TARANTOOL_SMALL_HAVE_MADV_DONTDUMP)( |$)/#define \1 1/' \
    -e "$([ $asan = 1 ] && echo 's/^ *# *cmakedefine +ENABLE_ASAN.*/#define ENABLE_ASAN 1/' || echo 's/^$//')" \
    -e 's/^ *# *cmakedefine .*//' "$repo/small/small_config.h.cmake" > "$out/inc/small_config.h"
src=
for f in "$repo"/small/*.c; do
	b=$(basename "$f" .c)
	if [ $asan = 1 ]; then
		case $b in *_asan) ;; *) [ -f "$repo/small/${b}_asan.c" ] && continue;; esac
	else
		case $b in *_asan) continue;; esac
	fi
	src="$src $f"
done
san=; [ $asan = 1 ] && san=-fsanitize=address
gcc -std=gnu11 -g -O1 -w -D_GNU_SOURCE $san $flags -I"$out/inc" -I"$repo/include/small" -I"$repo/include" \
	-I"$repo/third_party" -I"$repo/small" "$here/demo.c" $src -o "$out/demo" -lm -lpthread || exit 2
cd "$out" || exit 2
timeout 200 ./demo
