#!/bin/bash
# builds the analysers into /verif/build (git-ignored); does nothing when they are up to date
set -e
cd "$(dirname "$0")"; mkdir -p ../build
LC=/usr/lib/llvm-18/bin/llvm-config; [ -x $LC ] || LC=llvm-config-18
for t in ogmprove ogmflow ogmsame ogmpure "$@"; do
  [ -f $t.cpp ] || continue
  if [ ! -x ../build/$t ] || [ $t.cpp -nt ../build/$t ]; then
    clang++ -O1 $t.cpp $($LC --cxxflags) -std=c++17 -fexceptions -L$($LC --libdir) -lLLVM-18 -o ../build/$t.tmp.$$ && mv ../build/$t.tmp.$$ ../build/$t
  fi
done
