#!/bin/bash
# Writes the per-property copies of the shared session drivers.
cd "$(dirname "$0")/../replay"
mk() { # source package props...
  src=$1; pkg=$2; shift 2
  for p in "$@"; do
    mkdir -p "$p/pkg/$pkg"
    sed "s/@PROP@/$p/" "src/$src" > "$p/pkg/$pkg/zz_verif_test.go"
  done
}
mk sign.go.txt frost/sign C01 C02 C06 C07 C15 C18 C22 C23
[ -f src/keygen.go.txt ] && mk keygen.go.txt frost/keygen C03 C04 C15 C18 C22 C23
mk frost.go.txt frost C01 C02 C03 C18
exit 0
