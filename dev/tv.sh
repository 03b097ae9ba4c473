# tv.sh module driver program
D=$(/tmp/bd.sh $2); rm -rf /tmp/x1; mkdir -p /tmp/x1
ASAN_OPTIONS=detect_leaks=0 $D /tmp/x1 < $3 > /tmp/x1.out
python3 - <<P
import json
ev=[json.loads(l) for l in open('/tmp/x1.out') if l.startswith('{')]
json.dump({"id":1,"ev":[e for e in ev if e['e']!='reset']},open('/tmp/x1.json','w'))
P
cd /verif/spec; VP_TRACE=/tmp/x1.json java -Xss16m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir /tmp/x1m -deadlock -config $1.cfg $1.tla 2>&1 | tail -${4:-25}
