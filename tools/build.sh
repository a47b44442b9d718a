#!/bin/bash
# builds tools/irx.cc into /verif/build/irx (ignored by git); a no-op when it is up to date.
set -eu
cd "$(dirname "$0")"
out=../build
mkdir -p $out
sum=$( (cat irx.cc build.sh; llvm-config-18 --version) | sha256sum | cut -c1-32)
[ "$(cat $out/irx.sum 2>/dev/null)" = "$sum" ] && [ -x $out/irx ] && exit 0
tmp=$out/irx.$$
clang++-18 -O1 -w $(llvm-config-18 --cxxflags) irx.cc -o $tmp $(llvm-config-18 --ldflags --libs --link-shared)
mv $tmp $out/irx
echo "$sum" > $out/irx.sum
