#!/bin/bash
# check.sh <property> <quick|thorough> [extra harness arguments]
# Builds the harness of the property against /repo's working tree and runs it.
id=$1; tier=${2:-quick}; shift 2
cd "$(dirname "$0")" || exit 2
here=$(pwd)
case $id in
  C14|C15|C16) pkg=h-embassy ;;
  C18|C19) pkg=h-transport ;;
  C12|C13|C20|C22|C26) pkg=h-server ;;
  C23) pkg=h-webusb ;;
  C24) pkg=h-interop ;;
  C11|C21|C25) pkg=h-const ;;
  *) pkg=h-client ;;
esac
log=$(mktemp)
if ! bash "$here/build.sh" $pkg >"$log" 2>&1; then
  if grep -qE 'error\[E0080\]|evaluation panicked' "$log"; then
    # compile-time computation of the code under test (type lists, key lengths) fails on valid input
    mkdir -p "$here/replays"; tail -60 "$log" > "$here/replays/$id.replay"; tail -20 "$log"; rm -f "$log"
    echo "VIOLATION property=$id replay=$here/replays/$id.replay"; exit 1
  fi
  echo "the harness does not build:"; tail -40 "$log"; rm -f "$log"; exit 2
fi
rm -f "$log"
"$here/target/release/$pkg" --prop "$id" --tier "$tier" \
  --evidence "$here/evidence/$id.json" --replay-dir "$here/replays" "$@"
rc=$?
if [ $rc -gt 1 ]; then
  # an abort of the process (stack overflow, segfault, abort) in the code under test
  if [ $rc -ge 128 ]; then
    mkdir -p "$here/replays"; echo "process died with status $rc" > "$here/replays/$id.replay"
    echo "VIOLATION property=$id replay=$here/replays/$id.replay"; exit 1
  fi
fi
exit $rc
