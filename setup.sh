#!/bin/bash
# Builds the framework once; checks rebuild whatever changed since.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
. "$root/tools/build.sh"
declare -A ids
for f in "$root"/harness/checks/*.cpp; do
  id=$(basename "$f" .cpp); v=$(variant_of "$id"); ids[$v]="${ids[$v]:-} $id $(others_of "$id")"
done
for v in "${!ids[@]}"; do build "$v" $(printf '%s\n' ${ids[$v]} | sort -u) || exit 1; done
echo built
