# Builds a shared library of /repo's current sources (run in /repo), with stand-ins for libgpkg and libpq, into $T.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXXXX)
trap 'rm -rf -- "$T"' EXIT
R=$(pwd)
mkdir "$T/inc" "$T/o" "$T/work" "$T/tmp"
cp "$D/gpkg.h" "$T/inc/"
printf '#define HAVE_POSTGRES\n' > "$T/inc/geodiff_config.hpp"
pids=()
for f in "$R"/geodiff/src/*.cpp "$R"/geodiff/src/3rdparty/*.cpp "$R"/geodiff/src/drivers/*.cpp; do
  case "$f" in */geodiffinfo.cpp) [ -n "$NEED_CLI" ] || continue;; esac
  g++ -std=c++11 -w -O0 ${SAN:+-fsanitize=$SAN -g1} -fPIC -DSQLITE_ENABLE_SESSION -DSQLITE_ENABLE_PREUPDATE_HOOK -I"$T/inc" -I/usr/include/postgresql \
    -I"$R/geodiff/src" -I"$R/geodiff/src/3rdparty" -I"$R/geodiff/src/drivers" -c "$f" -o "$T/o/$(basename "$f").o" &
  pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || { echo "build failed"; exit 1; }; done
gcc -w -O0 ${SAN:+-fsanitize=$SAN} -fPIC -I/usr/include/postgresql -c "$D/mock.c" -o "$T/o/mock.o"
if [ -n "$NEED_CLI" ]; then g++ ${SAN:+-fsanitize=$SAN} -o "$T/geodiff" "$T"/o/*.o -lsqlite3 -ldl -lpthread; rm -f -- "$T/o/geodiffinfo.cpp.o"; fi
g++ ${SAN:+-fsanitize=$SAN} -shared -o "$T/libgeodiff.so" "$T"/o/*.o -lsqlite3 -ldl -lpthread
export TMPDIR="$T/tmp/" GEODIFF_LIB="$T/libgeodiff.so" WORK="$T/work" PYTHONPATH="$D" PYTHONDONTWRITEBYTECODE=1
