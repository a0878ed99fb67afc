import os, subprocess, sys, json, shutil, struct
S='/verif/seeded'
SCR='/tmp/w/seedrepo'
def sh(*a,**k): return subprocess.run(a,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
if not os.path.exists(SCR): sh('git','clone','-q','/repo',SCR)
sh('git','fetch','-q',cwd=SCR); sh('git','reset','-q','--hard','origin/HEAD',cwd=SCR)
HEAD='''#!/bin/bash
# runs in the repository after it is built
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
'''
def mk(id,prop,needs,breaks,edits,demo,files={}):
    only=sys.argv[1:]
    if only and id not in only: return
    d=os.path.join(S,id); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    for f,a,b in edits:
        p=os.path.join(SCR,f); t=open(p).read()
        assert t.count(a)==1,(id,f,t.count(a),a)
        open(p,'w').write(t.replace(a,b))
    r=sh('git','diff',cwd=SCR); open(d+'/patch.diff','wb').write(r.stdout)
    sh('git','checkout','--','.',cwd=SCR)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(HEAD+demo)
    for n,c in files.items(): open(os.path.join(d,n),'w').write(c)
def words(text,want):
    """the image of text is these words"""
    return '''cat > "$w/a.sass" <<'EOF'
%s
EOF
./_build/nxas "$w/a.sass" -o "$w/a.bin" || exit 1
got=$(od -An -v -tx8 "$w/a.bin" | tr -s ' \\n' ' ' | sed 's/^ //;s/ $//')
[ "$got" = "%s" ] || { echo "got $got"; exit 1; }
''' % (text,want)
def image(text):
    p='/tmp/w/_s.sass'; open(p,'w').write(text+"\n")
    r=sh('/repo/_build/nxas',p,'-o','/tmp/w/_s.bin'); assert r.returncode==0,(text,r.stdout)
    b=open('/tmp/w/_s.bin','rb').read()
    return ' '.join('%016x'%x for x in struct.unpack('<%dQ'%(len(b)//8),b))
def same(text): return words(text,image(text))
def rejected(text,place=None):
    t='''cat > "$w/a.sass" <<'EOF'
%s
EOF
cd "$w"
"$OLDPWD/_build/nxas" a.sass -o a.bin 2> err; rc=$?
[ $rc = 1 ] || { echo "exit $rc"; exit 1; }
''' % text
    if place: t+='''sed 's/\\x1b\\[[0-9;]*m//g' err | grep -q '^a.sass:%s: error' || { cat err; exit 1; }
''' % place
    return t
exec(open('/tmp/w/seeds.py').read())
