#!/bin/bash
# mutbg.sh N SEED OUT [file..]: mutate.py in the background, from a snapshot of /verif, so editing can go on
S=/tmp/vsnap; mkdir -p $S; rsync -a --delete --exclude=build --exclude=replays --exclude=evidence --exclude=.git --exclude=seeded /verif/ $S/
n=$1 s=$2 o=$3; shift 3
[ $# = 0 ] && set -- $(python3 -c "
import re
exec(re.search(r'MAP = \{.*?\}\n',open('/verif/tools/mutate.py').read(),re.S).group(0))
print(*MAP)")
MC_V=$S MUT_JOBS=${MUT_JOBS:-5} nohup python3 $S/tools/mutate.py $n $s $o "$@" >> ${o%.jsonl}.log 2>&1 &
