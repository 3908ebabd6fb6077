#!/bin/bash
# run.sh CHECK... [-- options of the explorer]
# Builds each check from /repo's working tree and runs it; evidence goes to
# evidence/<id>.json. A property may be made of several check programs, run one
# after another: the first violation ends the run.
cd "$(dirname "$0")" || exit 2
V=$PWD
checks=(); opts=()
while [ $# -gt 0 ]; do
  if [ "$1" = "--" ]; then shift; opts=("$@"); break; fi
  checks+=("$1"); shift
done
[ "$VERIF_TIER" = thorough ] && opts+=(--thorough)
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_abort=0:allocator_may_return_null=1:quarantine_size_mb=16:print_legend=0:malloc_context_size=6:alloc_dealloc_mismatch=0
# Binding at first use takes a lot of the current stack, which may be a small one.
export LD_BIND_NOW=1
mkdir -p build evidence
parts=(); rc=0
for c in "${checks[@]}"; do
  bin=$(python3 mc/build.py "$c") || exit 3
  ev=evidence/${c%%_*}.json
  [ ${#checks[@]} -gt 1 ] && ev="build/$c.part.json"
  "$bin" --evidence "$ev" --known known_findings.txt --out build/out "${opts[@]}"
  rc=$?
  parts+=("$ev")
  [ $rc -ne 0 ] && break
done
if [ ${#checks[@]} -gt 1 ]; then
  python3 mc/merge.py "evidence/${checks[0]%%_*}.json" "${parts[@]}" || exit 3
fi
# Old binaries and objects are of no use after the sources have changed.
find build -maxdepth 2 -type f -mmin +600 \( -name '*.o' -o -name 'C??*-*' \) -delete 2>/dev/null
exit $rc
