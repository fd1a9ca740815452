#!/bin/bash
# tools/mkbug.sh ID PROPERTY FILE 'python expression on s' demo-body needs breaks
# helper used to record a planted bug: edits a scratch copy of one file, writes patch and demo
set -e
ID=$1 PROP=$2 FILE=$3 OLD=$4 NEW=$5 NTH=$6 BODY=$7 NEEDS=$8 BREAKS=$9
D=/verif/seeded/$ID; mkdir -p $D
T=$(mktemp -d); mkdir -p $T/a/$(dirname $FILE) $T/b/$(dirname $FILE); cp /repo/$FILE $T/a/$FILE
OLD="$OLD" NEW="$NEW" NTH="$NTH" python3 - $T/a/$FILE $T/b/$FILE <<'P'
import os,sys
s=open(sys.argv[1],errors='surrogateescape').read(); o=os.environ['OLD']; n=os.environ['NEW']; k=int(os.environ['NTH'])
i=-1
for _ in range(k):
    i=s.find(o,i+1)
    assert i>=0,'not found'
open(sys.argv[2],'w',errors='surrogateescape').write(s[:i]+n+s[i+len(o):])
P
(cd $T; git diff --no-index --no-prefix a/$FILE b/$FILE > $D/patch.diff || true)
cat > $D/demo.c <<P
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <math.h>
typedef unsigned long long u64;
static _Decimal32 D32(unsigned b){_Decimal32 r;memcpy(&r,&b,4);return r;}
static _Decimal64 D64(u64 b){_Decimal64 r;memcpy(&r,&b,8);return r;}
static _Decimal128 D128(u64 h,u64 l){_Decimal128 r;u64 b[2]={l,h};memcpy(&r,b,16);return r;}
static unsigned B32(_Decimal32 x){unsigned b;memcpy(&b,&x,4);return b;}
static u64 B64(_Decimal64 x){u64 b;memcpy(&b,&x,8);return b;}
static u64 L128(_Decimal128 x){u64 b[2];memcpy(b,&x,16);return b[0];}
static u64 H128(_Decimal128 x){u64 b[2];memcpy(b,&x,16);return b[1];}
static void *use[]={(void*)D32,(void*)D64,(void*)D128,(void*)B32,(void*)B64,(void*)L128,(void*)H128};
static int bad;
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\n", #c); bad = 1; } } while (0)
$BODY
P
cat > $D/demo.sh <<'P'
#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -O0 -w -o "$t/demo" "$here/demo.c" -L_build -Wl,-rpath,"$PWD/_build" -ldfp -lm
LD_LIBRARY_PATH=$PWD/_build timeout 120 "$t/demo"
P
chmod +x $D/demo.sh
PROP="$PROP" NEEDS="$NEEDS" BREAKS="$BREAKS" python3 -c "
import json,os
json.dump({'property':os.environ['PROP'],'needs':os.environ['NEEDS'],'what_it_breaks':os.environ['BREAKS']},open('$D/meta.json','w'),indent=1)"
rm -rf "$T"
cd /repo; git apply --check $D/patch.diff && echo patch ok; bash $D/demo.sh && echo demo ok on the unchanged tree
