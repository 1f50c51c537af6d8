# Builds the library of the repository in the current directory together with
# demo.cpp beside this file, in a scratch directory, and runs it there.
set -u
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
flags="-std=c++20 -O0 -w -fPIC -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -I$here/stubs -I$repo -I$repo/ThermoFun ${DEMO_FLAGS:-}"
run_demo() {
  srcs=$(cd "$repo" && find ThermoFun -name '*.cpp' -size +0 | xargs ls -S)
  ( for s in $srcs; do echo "$repo/$s"; done; echo "$here/stubs/chemicalfun.cpp"; echo "$here/demo.cpp" ) |
    xargs -P 8 -I{} sh -c 'o=$(echo "{}" | tr "/" "_"); g++ '"$flags"' -c "{}" -o "'"$tmp"'/$o.o" || exit 255' || { echo "demo: build failed"; exit 3; }
  g++ ${DEMO_FLAGS:-} "$tmp"/*.o -o "$tmp/demo" -lspdlog -lfmt -lpthread || { echo "demo: link failed"; exit 3; }
  mkdir "$tmp/run" && cd "$tmp/run" && timeout 100 "$tmp/demo"
}
run_demo; rc=$?
echo "demo: exit $rc"
exit $rc
