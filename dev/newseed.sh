#!/bin/bash
# newseed.sh ID PROPERTY FILE EDITFILE DEMOFILE : assembles a planted bug folder
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
python3 $V/dev/mkseed.py "$1" "$2" "$3" < "$4"
cp /tmp/seedsrc/common.h $V/seeded/$1/common.h
case "$5" in
*.cc) cp "$5" $V/seeded/$1/demo.cc; cp /tmp/seedsrc/demo.sh $V/seeded/$1/demo.sh;;
*.py) cp "$5" $V/seeded/$1/demo.py; rm -f $V/seeded/$1/common.h; cat > $V/seeded/$1/demo.sh <<'X'
#!/bin/bash
# Exits 0 if the property holds for this scenario.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
export LD_LIBRARY_PATH=/repo/_build/mlio/lib PYTHONPATH=/repo/src/mlio-py PYTHONDONTWRITEBYTECODE=1
timeout -s KILL 60 /usr/bin/python3 "$H/demo.py"
X
;;
esac
