#!/bin/bash
n=""
for a in "$@"; do [ "$p" = "--crate-name" ] && n="$a"; p="$a"; done
if [ "$n" = harness ]; then printf '%s\0' "$@" > "$MIRSYM_ARGS"; pwd > "$MIRSYM_ARGS.cwd"; fi
exec "$@"
