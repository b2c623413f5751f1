#!/bin/bash
# developer tool: mkbug.sh ID PROPERTY "SOURCES" "NEEDS" "BREAKS" < demo.cpp
# takes the diff from the scratch worktree /tmp/bug (then resets it)
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/bug diff > $D/patch.diff; test -s $D/patch.diff
cat > $D/demo.cpp
S=$(cd /verif/vcg && python3 -c "
import sys,harness
r='/tmp/bug/src/'
print(' '.join('src/'+f[len(r):] for f in harness.closure('$D/demo.cpp', r, '/tmp/bug/src' if 'Encoded_File' in open('$D/demo.cpp').read() else None)))")
cat > $D/demo.sh <<X
#!/bin/bash
# run in the repository: exit 0 when the behaviour is right
D=\$(cd "\$(dirname "\$0")" && pwd); T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
g++ -std=c++20 -O1 -w -Isrc -ffunction-sections -fdata-sections -Wl,--gc-sections "\$D/demo.cpp" $S $3 -o "\$T/demo" || exit 2
cd "\$T" && timeout 100 ./demo
X
chmod +x $D/demo.sh
python3 - "$2" "$4" "$5" > $D/meta.json <<'X'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
X
cd /tmp/bug; set +e
bash $D/demo.sh > /tmp/demo.out 2>&1; b=$?
git checkout -q -- .
bash $D/demo.sh > /tmp/demo0.out 2>&1; a=$?
echo "$ID: clean=$a patched=$b"; [ $a = 0 ] || cat /tmp/demo0.out | tail -5; [ $b != 0 ] || echo "NOT DETECTED BY DEMO"
