#!/bin/bash
# usage: mkseed.sh ID PROP NEEDS BREAKS   (takes the diff in /repo as patch, demo.cpp from stdin if none; then tests it)
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
[ -t 0 ] || cat > $d/demo.cpp
python3 - "$@" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]}))
P
cat > $d/demo.sh <<'P'
#!/bin/bash
# builds the demonstration beside this script against /repo and runs it
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d) || exit 99; trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -O1 -g -w -DXDISPATCH_MAKEDLL -I_build/include -I_build/include/xdispatch -Iinclude -Isrc -Isrc/naive "$here"/demo.cpp -o "$tmp"/demo -L_build/lib -lxdispatch -Wl,-rpath,"$PWD"/_build/lib -pthread || exit 98
timeout 120 "$tmp"/demo
P
/verif/tools/seed.sh $1
