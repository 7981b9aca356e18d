#!/bin/sh
# Compiles the crate `stylist` with its browser-only code, which is selected by the target.
crate=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && crate=$a
  prev=$a
done
if [ "$crate" = stylist ]; then
  exec "$@" --cfg 'target_arch="wasm32"' -A explicit_builtin_cfgs_in_flags
fi
exec "$@"
