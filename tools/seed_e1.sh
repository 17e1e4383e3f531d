#!/bin/bash
# seed_e1.sh <id> <patch> <property> <mode> <seed> <cases> <needs> <what>: makes seeded/<id> with a self-contained E1 demonstration
set -e
V=/verif; D=$V/seeded/$1; mkdir -p $D
cp $2 $D/patch.diff
cp $V/e1/{shim.h,api.h,map_tu.cpp,engine.h,engine.cpp,history.h,harness.cpp} $D/
cat > $D/demo.sh <<X
#!/bin/bash
# Builds PMap from the current directory under a deterministic scheduler and checks the histories it produces.
H=\$(cd "\$(dirname "\$0")" && pwd); W=\$(mktemp -d /dev/shm/demo.XXXXXX); trap 'rm -rf "\$W"' EXIT
I="-I. -Iinclude -Icontainers -Itests -Ihashing"
g++ -std=c++2a -O1 -g -w -fsanitize=thread -fno-pie -pthread -include \$H/shim.h -I\$H \$I -c \$H/map_tu.cpp -o \$W/a.o &
g++ -std=c++20 -O2 -w -fno-pie -c \$H/engine.cpp -o \$W/b.o &
g++ -std=c++20 -O2 -w -fno-pie -c \$H/harness.cpp -o \$W/c.o &
wait
g++ -no-pie -rdynamic \$W/a.o \$W/b.o \$W/c.o -ldl -lpthread -o \$W/e1 || exit 0
E1_BUDGET=200 timeout 250 \$W/e1 $4 $5 $6 \$W/s
[ \$? != 1 ]
X
chmod +x $D/demo.sh
python3 - "$D/meta.json" "$3" "$7" "$8" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],"w"),indent=1)
P
