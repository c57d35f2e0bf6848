import subprocess
m={'5cacfa2':'C01','5a6105d':'C02','4c246f7':'C07','05976c1':'C06','4494bc8':'C07','c8f463f':'C07','4699fcc':'C06','9f4394b':'C11','fed4823':'C12','a0b25f7':'C10','725d0ce':'C10','a35192d':'C14','41136bc':'C08','bcb14c5':'C17','d01dd43':'C17','0790b59':'C17','2c5616d':'C17','24df482':'C17','3adcc6d':'C17','214d188':'C17','45ea1c5':'C17','63385cd':'C17','c005c40':'C17','cd6df10':'C17','e987223':'C16','36e0d41':'C16','262af08':'C16','29f7efa':'C16','16e19df':'C15','0f7123e':'C16','c031881':'C20','1258fc4':'C19','c3882e3':'C19','255ac59':'C19','8fe96b7':'C20','6f244b7':'C20','1701ece':'C16','fc95133':'C23','edb6b88':'C23','de7edc0':'C14','1b5a2fb':'C08','94c45f9':'C05','13e1942':'C20','5a6b998':'C23','dacceb7':'C23','a3fed95':'C28','4bdc9bf':'C28','b46404b':'C28','1692ce7':'C28','82cada7':'C26','468a1dc':'C26','c9e5d5d':'C26','1f4a044':'C26','c63a8cd':'C26','938a342':'C26','eb9658b':'C26','c85e51f':'C26','ca5f8b7':'C26','477ff88':'C26','a1568e4':'C26','cbdc220':'C26','622b730':'C26','6b249b0':'C26','d738a10':'C26','cf130f3':'C26','228a405':'C26','25a3d6c':'C26','e141a66':'C26','20d6c87':'C26','a21b4b5':'C26','068a28d':'C25','a4c3e36':'C26','20ed752':'C26','16d726b':'C26','386d6e8':'C29','e484570':'C20','fd3598d':'C26'}
out=["# Genuine defects of alxarch/njson found by the checks (or while writing them).",
"# fixed:   repaired in /repo; suppresses nothing.",
"# finding: property=ID family=NAME case=HEX what   -- recorded, not repaired; suppresses exactly that case.",""]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h\t%s\t%b\x1e','a364f9a..HEAD'],text=True).split('\x1e'):
    l=l.strip('\n')
    if not l: continue
    h,s,b=l.split('\t',2)
    b=(s[5:]+'. '+' '.join(b.split())).strip()
    out.append(f"fixed: property={m.get(h,'??')} {h} {b}")
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
