#!/bin/bash
# development aid: mkdemo.sh ID PROP "needs" "breaks"  < demo.c : standard run-the-program demonstration
D=/verif/seeded/$1; mkdir -p $D; cat > $D/demo.c
cat > $D/demo.sh <<'X'
#!/bin/bash
# compiles demo.c with the wcc built in the current directory; the program exits 0 when it behaves
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -r "$t"' EXIT
./wcc -S "$d/demo.c" -o "$t/demo.s" || exit 1
/usr/bin/gcc -no-pie "$t/demo.s" -o "$t/demo" -lm 2>/dev/null || exit 1
timeout 20 "$t/demo"
X
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
