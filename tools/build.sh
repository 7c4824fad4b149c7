# Sourced by run.sh and setup.sh: build <variant> <target>...
mkdir -p "$root/build" "$root/out" "$root/evidence"

variant_of() {
  local v; v=$(sed -n 's,^// VARIANT ,,p' "$root/harness/checks/$1.cpp")
  echo "${v:-rel}"
}

build() {
  local variant=$1 dir=$root/build/$1 cxx=/usr/bin/clang++ log; shift
  # clang's -fopenmp has no runtime library here.
  [ "$variant" = omp ] && cxx=/usr/bin/g++
  log="$root/out/build-$variant-$1.log"
  (
    flock 9
    python3 "$root/tools/mirror.py" /repo "$root/build/repo" || exit 1
    { [ -f "$dir/build.ninja" ] || CXX= cmake -S "$root/harness" -B "$dir" -G Ninja \
        -DVARIANT=$variant -DREPO="$root/build/repo" -DCMAKE_CXX_COMPILER=$cxx; } >"$log" 2>&1 &&
    ninja -C "$dir" "$@" >>"$log" 2>&1
  ) 9>"$root/build/lock" || {
    grep -m3 -A6 -E 'error|FAILED' "$log"
    echo "build of $variant $* failed, see $log"
    return 1
  }
}

# The checks whose cases also run for a property: all those that run without
# threads of their own, for the one on memory errors.
others_of() {
  grep -q '^// WITH_CASES_OF_OTHERS' "$root/harness/checks/$1.cpp" || return 0
  local f o
  for f in "$root"/harness/checks/*.cpp; do
    o=$(basename "$f" .cpp)
    [ "$o" = "$1" ] || [ "$(variant_of "$o")" = omp ] || echo -n "$o "
  done
}
