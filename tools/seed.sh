#!/bin/bash
# tools/seed.sh NAME PROPERTY "needs" "what it breaks"   -- takes the change from /tmp/mut's working tree, demo.cc from stdin
# Confirms: builds, stable tests pass, the demonstration passes without and fails with the change.  Then reverts /tmp/mut.
set -u
d=/verif/seeded/$1; mkdir -p $d
cat > $d/demo.cc
cat > $d/demo.sh <<'X'
#!/bin/bash
# run with cwd at the repository root
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
extra=""; [ -f "$here/extra" ] && extra=$(cat "$here/extra")
clang++ -std=c++20 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -I. -Iutil $extra "$here/demo.cc" -o "$t/demo" || exit 3
timeout 100 "$t/demo"
X
chmod +x $d/demo.sh
[ -n "${EXTRA:-}" ] && echo "$EXTRA" > $d/extra
git -C /tmp/mut diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
P=$2 N=$3 B=$4 python3 -c 'import json,os;json.dump({"property":os.environ["P"],"needs":os.environ["N"],"what_it_breaks":os.environ["B"]},open("'$d'/meta.json","w"),indent=1)'
cd /repo; $d/demo.sh >/tmp/seed.0 2>&1; a=$?
cd /tmp/mut; $d/demo.sh >/tmp/seed.1 2>&1; b=$?
# build and tests in the scratch copy
(cd /tmp/mut; find util -newer tests/build/runtests >/dev/null; make -j8 -f tests/Makefile tests/build/runtests && tests/build/runtests) >/tmp/seed.b 2>&1; c=$?
echo "demo clean=$a patched=$b tests=$c ($(grep -ao 'passed[^|]*|[^|]*failed' /tmp/seed.b | tail -1))"
[ $a -ne 0 ] && tail -5 /tmp/seed.0
git -C /tmp/mut checkout -q -- .
