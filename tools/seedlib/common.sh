# Builds and runs demo.cpp against the sources of the podio tree in the current directory.
# usage: . common.sh; run_demo [yaml package [yaml package ...]] ; expects $D = folder of the demo
set -u
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1
CXX=${CXX:-g++}
FLAGS="-std=c++20 -O1 -g -w ${DEMO_FLAGS:-}"
mkdir -p "$W/inc/podio" "$W/obj"
sed -e 's/@podio_VERSION_MAJOR@/1/g' -e 's/@podio_VERSION_MINOR@/7/g' -e 's/@podio_VERSION_PATCH@/99/g' \
    -e 's/@podio_VERSION@/1.7.99/g' "$R/podioVersion.in.h" > "$W/inc/podio/podioVersion.h"
cp "$D"/*.h "$W/inc/" 2>/dev/null
INC="-I$W/inc -I$R/include -I$R/src"

gen() { # yaml package [generator options]
  local y=$1 p=$2; shift 2
  /usr/bin/python3 -B "$R/python/podio_class_generator.py" "$D/$y" "$W/gen_$p" "$p" -q "$@" || { echo "generator failed"; exit 3; }
  INC="$INC -I$W/gen_$p -I$W/gen_$p/$p"
  GENERATED="${GENERATED:-} $(ls "$W/gen_$p"/src/*.cc | grep -v SIOBlock)"
}

build_and_run() {
  local n=0 f
  for f in CollectionIDTable.cc GenericParameters.cc DatamodelRegistry.cc DatamodelRegistryIOHelpers.cc UserDataCollection.cc \
           CollectionBufferFactory.cc MurmurHash3.cpp SchemaEvolution.cc Glob.cc; do echo "$R/src/$f"; done > "$W/list"
  for f in ${GENERATED:-} "$D/demo.cpp"; do echo "$f"; done >> "$W/list"
  awk -v w="$W" '{print $0 " " w "/obj/" NR ".o"}' "$W/list" |
    xargs -P 8 -L 1 sh -c "$CXX $FLAGS $INC -c \$0 -o \$1" || { echo "does not compile"; exit 3; }
  $CXX $FLAGS "$W"/obj/*.o -o "$W/demo" -lpthread -ldl || exit 3
  timeout ${DEMO_TIMEOUT:-100} "$W/demo"
  local rc=$?
  [ $rc = 0 ] && echo "demo: fine" || echo "demo: FAILS ($rc)"
  exit $rc
}
