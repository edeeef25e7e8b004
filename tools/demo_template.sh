#!/bin/bash
# cwd: the built repository.  Compiles demo.cpp against it in a scratch directory.
d="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O1 -w -DBOOST_TIMER_ENABLE_DEPRECATED -DREQUIRE_IOSTREAM -I"$R" -I"$R/export" -I"$R/include" -I"$R/src" \
  -I/opt/vp/compat/include -I/opt/vp/compat/include/OpenEXR -I/usr/include/Imath -I/usr/include/hdf5/serial "$d/demo.cpp" -o "$T/demo" \
  -L"$R/_build" -lField3D -Wl,-rpath,"$R/_build:/usr/lib/x86_64-linux-gnu/hdf5/serial" -L/usr/lib/x86_64-linux-gnu/hdf5/serial \
  -lhdf5 -lImath -lIex -lIlmThread -lboost_regex -lboost_thread -lboost_system -lpthread -lz || exit 3
cd "$T" && ./demo
