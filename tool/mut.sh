#!/bin/bash
# development aid: mut.sh FILE 'python-regex' 'replacement' PROP... : runs checks on a scratch copy with one edit applied
set -e
D=${MUTDIR:-/tmp/mut}
mkdir -p $D; rsync -a --delete /repo/src /repo/dbzero $D/ 
python3 - "$D/$1" "$2" "$3" <<'P'
import sys,re
p,a,b=sys.argv[1:4]
s=open(p).read(); n,k=re.subn(a,b,s,count=1,flags=re.S)
assert k==1,'pattern not found'
open(p,'w').write(n)
P
shift 3
cd "$(dirname "$0")/.."
for c in "$@"; do SA_REPO=$D python3 check.py $c || true; done
