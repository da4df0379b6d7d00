#!/bin/bash
# trybug.sh ID [PROP]  : build+tests+demo+check with the planted bug, then undo.
id=$1; d=/verif/seeded/$id; prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo; [ -z "$(git status --short)" ] || { echo dirty; exit 1; }
git apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
trap 'git -C /repo checkout -- .' EXIT
b=ok; bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || b=BUILDFAIL
t=$(bash /opt/vp/test.sh /tmp/tb.json 2>&1 | tail -1)
bash $d/demo.sh >/tmp/tb.demo 2>&1; dm=$?
cd /verif; r=""
for p in $prop; do VERIF_SEED=1 timeout 900 python3 run.py check $p quick >/tmp/tb.$id.$p 2>&1; r="$r $p=$?($(grep -c ^VIOLATION /tmp/tb.$id.$p))"; done
echo "$id build=$b tests='$t' demo=$dm checks:$r"
