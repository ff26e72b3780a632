#!/bin/bash
# seedtest.sh <seed dir>...: verify planted bugs in a private copy of /repo (bind-mounted in a user namespace): builds, stable tests pass, demo passes clean/fails planted
for S in "$@"; do S=$(realpath "$S"); n=$(basename "$S"); L=/tmp/seedlog_$n; : > $L
 if [ ! -d /tmp/seedrepo ]; then cp -a /repo /tmp/seedrepo; fi
 git -C /tmp/seedrepo fetch -q /repo HEAD && git -C /tmp/seedrepo checkout -qf FETCH_HEAD && git -C /tmp/seedrepo clean -qfd
 unshare -Urm bash -c "mount --bind /tmp/seedrepo /repo; cd /repo; bash $S/demo.sh >>$L 2>&1; A=\$?; git apply $S/patch.diff || exit 9; bash $S/demo.sh >>$L 2>&1; D=\$?; bash /opt/vp/build.sh >>$L 2>&1 || { echo '$n BUILD FAILED'; exit 1; }; bash /opt/vp/test.sh /tmp/seedres_$n.json >>$L 2>&1; python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seedres_$n.json'))['passed']); b=sorted(s-p)
print('$n demo clean=%s planted=%s tests broken=%d %s %s'%('\$A','\$D',len(b),b[:3],'OK' if '\$A'=='0' and '\$D'!='0' and not b else 'BAD'))
P"
 git -C /tmp/seedrepo checkout -qf FETCH_HEAD
done
