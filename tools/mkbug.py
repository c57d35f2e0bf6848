"""mkbug: author planted bugs. Usage: from a script, bug(id, prop, needs, breaks, edits, demo)."""
import os,shutil,subprocess,json,sys
def bug(id,prop,needs,breaks,edits,demo,extra=None,demosh=None,race=False):
    S='/verif/seeded/'+id
    W='/tmp/mkbug.'+id
    shutil.rmtree(W,ignore_errors=True)
    subprocess.check_call(['git','clone','-q','/repo',W])
    for f,old,new in edits:
        p=os.path.join(W,f); s=open(p).read()
        if s.count(old)!=1: print(id,'EDIT COUNT',s.count(old),f,repr(old)[:80]); shutil.rmtree(W); return
        open(p,'w').write(s.replace(old,new))
    d=subprocess.check_output(['git','diff'],cwd=W,text=True)
    shutil.rmtree(W)
    os.makedirs(S,exist_ok=True)
    open(S+'/patch.diff','w').write(d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(S+'/meta.json','w'),indent=1)
    if demo is not None: open(S+'/main.go','w').write(demo.lstrip('\n'))
    for k,v in (extra or {}).items(): open(S+'/'+k,'w').write(v)
    shutil.copy('/verif/tools/demo_tmpl.sh',S+'/demo.sh') if demosh is None else open(S+'/demo.sh','w').write(demosh)
    if race:
        t=open(S+'/demo.sh').read().replace('go run .','go run -race .'); open(S+'/demo.sh','w').write(t)
    os.chmod(S+'/demo.sh',0o755)
    print(id,'written')
