#!/bin/bash
# run.sh <property id> quick|thorough|replay [replay file] [more options]
# Builds what the check needs from /repo's working tree, then runs it.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
id="$1"; mode="${2:-quick}"; shift; shift || true
. "$root/tools/build.sh"
src="$root/harness/checks/$id.cpp"
[ -f "$src" ] || { echo "no check $id"; exit 2; }
variant=$(variant_of "$id")
binary=$id
if [ "$mode" = replay ]; then
  # The cases of other checks are part of some properties.
  b=$(sed -n 's,^binary ,,p' "${1:-/dev/null}"); binary=${b:-$id}
fi
targets=$binary
[ "$mode" = replay ] || targets="$id $(others_of "$id")"
build "$variant" $targets || exit 2
dir="$root/build/$variant"
export VERIF_ROOT="$root"
# Threads that wait do not spin: several cases run at once.
export OMP_WAIT_POLICY=passive GOMP_SPINCOUNT=0
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:handle_abort=0
export UBSAN_OPTIONS=print_stacktrace=0:halt_on_error=1:exitcode=78
if [ "$mode" = replay ]; then
  [ "$binary" = "$id" ] || export VERIF_MEM=$id
  VERIF_STDERR=1 exec "$dir/$binary" --replay "$@"
fi
export VERIF_TIER="$mode"
others=$(others_of "$id")
[ -z "$others" ] && exec "$dir/$id" --tier "$mode" "$@"
# The cases of the other checks, in memory mode.
rm -f "$root/out/$id"-C*.json
"$dir/$id" --tier "$mode" "$@"; status=$?
[ "$mode" = thorough ] && cap=120 scale=1 || cap=10 scale=0.1
for o in $others; do
  # A slow machine gets through fewer of them in the time of a quick check.
  [ "$mode" = quick ] && [ $SECONDS -gt 540 ] && { echo "no time left for the cases of $o"; continue; }
  VERIF_MEM=$id VERIF_CAP=$cap "$dir/$o" --tier quick --scale $scale "$@"; s=$?
  [ $s -gt $status ] && status=$s
done
python3 "$root/tools/merge_evidence.py" "$root" "$id" || exit 2
exit $status
