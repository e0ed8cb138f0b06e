#!/bin/bash
python3-vt - "$1" "$2" <<'P'
import sys; sys.path[:0]=['/verif/vc','/verif/specs','/verif']
import check,re,shutil
ctx=check.Ctx('X')
try:
    ctx.module(sys.argv[1]); t=open(ctx.dir+'/'+sys.argv[1]+'.ll').read()
finally: shutil.rmtree(ctx.dir)
m=re.search(r'^define [^\n]*@%s\(.*?^}'%sys.argv[2],t,re.S|re.M); s=m.group(0)
s=re.sub(r', !\w+ !\d+|, !tbaa !\d+|#\d+|noundef |nonnull |dereferenceable\(\d+\) |align \d+ |, align \d+|local_unnamed_addr |nocapture |readonly |inbounds |nuw |nsw |; preds.*','',s)
print(s)
P
