import sys,os,subprocess,json,shutil
V='/verif/seeded'
def seed(id,prop,edits,needs,breaks,test,pkg='internal/party',net=None,tags='',extra={}):
    """edits: list of (file, old, new[, count])"""
    d=f'{V}/{id}'; os.makedirs(d,exist_ok=True)
    w='/tmp/mk/wt'
    subprocess.check_call(['rm','-rf',w]); subprocess.check_call(['git','clone','-q','/repo',w])
    for e in edits:
        p=f'{w}/{e[0]}'; s=open(p,newline='').read()
        crlf='\r\n' in s
        if crlf: s=s.replace('\r\n','\n')
        n=s.count(e[1]); assert n==(e[3] if len(e)>3 else 1),(id,e[0],n,e[1])
        s=s.replace(e[1],e[2])
        if crlf: s=s.replace('\n','\r\n')
        open(p,'w',newline='').write(s)
    diff=subprocess.check_output(['git','-C',w,'diff'])
    assert diff
    open(f'{d}/patch.diff','wb').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
    open(f'{d}/meta.json','a').write('\n')
    s=open('/tmp/mk/demo.sh').read().replace('@PKG@',pkg).replace('@TAGS@',('-tags '+tags) if tags else '')
    open(f'{d}/demo.sh','w').write(s); os.chmod(f'{d}/demo.sh',0o755)
    open(f'{d}/demo_test.go','w').write(test.lstrip('\n'))
    if net is None: net=pkg=='internal/party'
    if net: shutil.copy('/tmp/mk/net_test.go',f'{d}/net_test.go')
    subprocess.check_call(['rm','-rf',w])
