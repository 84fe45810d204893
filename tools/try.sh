#!/bin/bash
# try.sh CASES ID... : runs checks without rebuilding the whole set (development helper)
n=$1; shift
for c in "$@"; do
  for b in sim unit net; do
    [ -x /verif/target/debug/$b ] && timeout 300 /verif/target/debug/$b --property $c --cases $n 2>/dev/null | grep -v "^$" | cut -c1-500
  done
done
