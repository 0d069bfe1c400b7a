#!/bin/bash
# build.sh VARIANT: mirrors $VERIF_REPO (default /repo) into /verif/build/VARIANT/src and builds it
# there.  Only changed files are rebuilt; any change to something that is not a .c file rebuilds all.
# Prints the directory with the products.  Variants: plain, asan.
set -e
V=$1
R=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$(cd "$(dirname "$0")/.." && pwd)/build}/$V
mkdir -p "$B"
exec 9>"$B/lock"; flock 9
case $V in
  plain) export CC=gcc CFLAGS="-O1 -g -w" LDFLAGS="-O1 -g -static $B/perturb.o"
         gcc -c -O1 -o "$B/perturb.o" "$(dirname "$0")/perturb.c";;
  dyn)   export CC=gcc CFLAGS="-O1 -g -w" LDFLAGS="-O1 -g";;
  asan)  export CC=gcc CFLAGS="-O1 -g -w -fsanitize=address -fno-omit-frame-pointer -DVERIF_ASAN"
         gcc -c -o "$B/asanopt.o" "$(dirname "$0")/asanopt.c"
         export LDFLAGS="-g -fsanitize=address -static-libasan $B/asanopt.o";;
  tsan)  export CC=gcc CFLAGS="-O1 -g -w -fsanitize=thread -fPIE" LDFLAGS="-g -fsanitize=thread";;
  *) echo "unknown variant $V" >&2; exit 2;;
esac
ready=; [ -f "$B/ready" ] && ready=1
rm -f "$B/ready"
mkdir -p "$B/src"
rsync -rlpc --delete --out-format='%o %n' \
  --exclude=/.git --exclude=/_build --exclude=/tests --exclude=/libcu8/test \
  --exclude='*.o' --exclude='*.a' --exclude='*.exe' --exclude=/bin \
  --exclude=/config.h --exclude=/config.c --exclude=/femto-subst \
  --exclude=femto-config.mk --exclude=femto-test.out \
  --exclude=/libcu8/config.h --exclude=/libcu8/config.c \
  --exclude=/pbat/pbat --exclude=/pbatize/pbatize --exclude=/tea/tea \
  --exclude=/dump/dump --exclude=/dump/dump_h_gen --exclude=/dump/dump.h \
  --exclude=/libfasteval/lib/parser.c --exclude=/libfasteval/lib/parser.h \
  --exclude=/libfasteval/lib/scanner.c --exclude='*.txt.out' \
  "$R/" "$B/src/" > "$B/changes"
sed -i '/\/$/d' "$B/changes"
cd "$B/src"
if [ -z "$ready" ] || grep -qvE '^send .*\.c$' "$B/changes" || grep -q '_gen\.c$' "$B/changes"; then
  find . -name '*.o' -delete; find . -name '*.a' -delete
  rm -f pbat/pbat pbatize/pbatize tea/tea dump/dump dump/dump_h_gen dump/dump.h
  rm -f libfasteval/lib/parser.c libfasteval/lib/parser.h libfasteval/lib/scanner.c
  LDFLAGS= CFLAGS=-w make CC=gcc config > "$B/log" 2>&1
else
  : > "$B/log"
  sed -n 's/^send //p' "$B/changes" | while read -r f; do touch "$f"; done
fi
if [ -n "$ready" ] && [ ! -s "$B/changes" ] && [ -x pbat/pbat ] && [ -x dump/dump ] && [ -x tea/tea ] && [ -x pbatize/pbatize ]; then
  touch "$B/ready"; echo "$B/src"; exit 0
fi
rm -f pbat/pbat pbatize/pbatize tea/tea dump/dump
export ASAN_OPTIONS=detect_leaks=0
for d in microgettext libpbat libfasteval pbat pbatize dump tea; do
  j=-j8; case $d in libfasteval|dump) j=-j1;; esac
  make $j -C $d >> "$B/log" 2>&1 || { echo "BUILD FAILED ($V, $d)" >&2; grep -E 'error|undefined' "$B/log" | head -20 >&2; exit 3; }
done
touch "$B/ready"
echo "$B/src"
