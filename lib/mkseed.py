#!/usr/bin/env python3
"""Create/verify a planted bug. usage: mkseed.py <id> <property> <modules,comma> 'needs' 'what' ; reads the current diff of the scratch worktree /tmp/seedwt and demo.cpp from stdin"""
import sys,os,subprocess,json
V='/verif'; i,prop,mods,needs,what=sys.argv[1:6]; d='%s/seeded/%s'%(V,i); os.makedirs(d,exist_ok=True)
diff=subprocess.run(['git','-C','/tmp/seedwt','diff'],stdout=subprocess.PIPE,text=True).stdout
assert diff.strip(),'no diff'
open(d+'/patch.diff','w').write(diff); open(d+'/demo.cpp','w').write(sys.stdin.read())
json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(d+'/meta.json','w'),indent=1)
srcs=' '.join('modules/%s/src/%s.cpp'%tuple(m.split('/')) for m in mods.split(',') if m)
open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd /repo after the build; exit 0: behaviour is right, nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
R=$PWD; I=""; for m in utils features2d imgproc datasets video vptz; do I="$I -I$R/modules/$m/include -I$R/_build/modules/$m/include"; done
F="-std=gnu++14 -O2 -w -fpermissive -fopenmp -DNDEBUG -DLITIV_BUILD -DLITIV_DEBUG=0 -DLV_EXPORT_API= -DLV_IMPORT_API= -DDATASETS_LITIV2018_DATA_VERSION=2 -march=x86-64-v3 $I -I$R/3rdparty/bsds500/include -I$R/3rdparty/ofdis/include -I/usr/include/eigen3 -isystem /usr/include/opencv4 -include /opt/vp/support/compat/opencv4_compat.hpp"
O=""; for s in "$D/demo.cpp" %s; do o="$W/$(echo "$s" | md5sum | cut -c1-12).o"; O="$O $o"; g++ $F -ffunction-sections -c "$s" -o "$o" & done; wait
g++ -fopenmp -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all $O -lopencv_core -lopencv_imgproc -lopencv_imgcodecs -lopencv_highgui -lopencv_video -lopencv_videoio -lopencv_features2d -lopencv_calib3d -lopencv_photo -lopencv_flann -lopencv_objdetect -lpthread -lGLEW -lGLU -lGL -lglfw -o "$W/demo" || exit 3
cd "$W" && timeout 120 ./demo
'''%srcs); os.chmod(d+'/demo.sh',0o755)
