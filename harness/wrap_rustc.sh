#!/bin/bash
# RUSTC_WRAPPER: compiles the crate under test, the lock shim and the harness against the
# scheduler-aware stand-in for std (see vstd/). VSTD names the stand-in's rlib.
name=""
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
case "$name" in
  measured) exec "$@" --extern "std=$VSTD" --extern "core=$VSTD" ;;
  parking_lot|conc) exec "$@" --extern "vstd=$VSTD" ;;
  *) exec "$@" ;;
esac
