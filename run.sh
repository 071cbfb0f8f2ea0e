#!/bin/bash
# Runs a TypeScript file of /verif against the working tree of /repo: run.sh FILE ARGS...
export HOME=/root LANG=C.UTF-8 TZ=UTC NO_COLOR=1
export DENO_DIR=${VERIF_DENO_DIR:-/opt/deno/cache} DENO_NO_UPDATE_CHECK=1 DENO_NO_PROMPT=1 DENO_NO_PACKAGE_JSON=1
exec /opt/deno/deno run -A --no-check --cached-only --no-remote --no-npm --config /repo/deno.jsonc \
  --import-map "$(dirname "$(readlink -f "$0")")/lib/import_map.json" --unstable-kv --v8-flags=--max-old-space-size=3000 "$@" < /dev/null
