"""origcheck: for each planted bug, how many lines it removes come from the original repository."""
import subprocess,glob,re,os
base='a364f9a'
orig=set(subprocess.check_output(['git','-C','/repo','rev-list',base],text=True).split())
blame={}
def bl(f):
    if f not in blame:
        o=subprocess.check_output(['git','-C','/repo','blame','-s','-l',"--abbrev=40",'HEAD','--',f],text=True)
        blame[f]=[l.split()[0].lstrip('^')[:39] for l in o.splitlines()]
    return blame[f]
o39={x[:39] for x in orig}
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f=None;a=b=0
    for l in open(p):
        if l.startswith('--- '): f=l[6:].strip(); inh=False
        elif l.startswith('+++'): pass
        elif l.startswith('@@'):
            ln=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-'):
            x=bl(f)[ln-1]; 
            if x in o39: a+=1
            else: b+=1
            ln+=1
        elif l.startswith(' '): ln+=1
    print(p.split('/')[3],'orig',a,'ours',b, '' if a and not b else '<<<')
