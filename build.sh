#!/bin/bash
# builds the exporter plugin into /verif/build (idempotent)
set -e
cd "$(dirname "$0")"
mkdir -p build
h=$(sha256sum tool/sddx.cc | cut -c1-16)
if [ ! -f build/sddx-$h.so ]; then
  clang++ -std=c++17 -O1 -fPIC -shared -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-DNDEBUG//') tool/sddx.cc -o build/sddx-$h.so.$$
  mv build/sddx-$h.so.$$ build/sddx-$h.so
fi
echo build/sddx-$h.so
