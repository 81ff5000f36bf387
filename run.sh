#!/bin/bash
# ./run.sh ID [quick|thorough] [--family NAME] [--case FAMILY:IDX]: builds and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
if [ "$1" = --setup ]; then python3 -c "import sys; assert sys.version_info >= (3, 10)" && g++ --version >/dev/null && exit 0 || exit 1; fi
id=$1; shift
export MC_VERIF="$here" MC_REPO="${MC_REPO:-/repo}"
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:handle_abort=1:max_allocation_size_mb=4000:quarantine_size_mb=16:thread_local_quarantine_size_kb=256:malloc_context_size=5 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1
flag=
grep -q '^// sanitize' "$here/mc/checks/$id.cpp" && flag=--san
[ "${MC_SAN:-}" = 1 ] && flag=--san
exe=$(python3 "$here/mc/build.py" "$id" $flag) || exit 2
exec "$exe" "$@"
