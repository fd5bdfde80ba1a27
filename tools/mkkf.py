import subprocess, json
m={'0c97535':'C07','9cbd49b':'C07','6c06004':'C07','817ef96':'C07','4cb1e8a':'C08','b2d3b43':'C01','bb44917':'C17','2d34a0c':'C17','8c257a1':'C17','5f22bb9':'C14','a9d36e2':'C13','da1baf6':'C13','20830bd':'C16','3a48137':'C11','8b340a5':'C10','f988276':'C24','c9336e4':'C01','6b13dd1':'C04','f52f773':'C24','4f515a8':'C24','02d0ac8':'C04','f038269':'C15','1f0758f':'C15','6903227':'C15','f44bbf7':'C22','c3c521c':'C19','92ebcf7':'C05','4181698':'C04','054e031':'C05','b8d0677':'C01','78d7221':'C01','d1b0a06':'C02','c63b05b':'C18','a88dfb1':'C21','5810cfa':'C03','f633c20':'C01','0e75f54':'C09','f0ea1cf':'C14','ec960a7':'C13','7f36ebf':'C15','aca1f56':'C24','4cf8e6b':'C23','fa1f12b':'C02','d7a94ca':'C02', '9c07fe1':'C04', '83bcd9a':'C04', 'fba1efd':'C21', '2f81481':'C05', 'af8be53':'C10', '0c41580':'C01', '688c9bc':'C05', '296c3f9':'C15', '059a85f':'C13', '44fc43d':'C15', '2d4b81d':'C15','cc4049f':'C19','d1ad3e3':'C19','56a4569':'C18','39eb9e6':'C19','bf30215':'C20','856da2a':'C21','fbb1309':'C21','bac80c0':'C21','d6ee96d':'C21','626e640':'C22','ea0bd55':'C23','357cf6d':'C24','9a2d641':'C24','d1a2f63':'C24','890b9ee':'C24','258c24b':'C06'}
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h\t%s'],capture_output=True,text=True).stdout.splitlines()
out=[]
cur=json.load(open('/verif/known_findings.json'))['findings']
known=[e for e in cur if e['status']=='known']
for l in log:
    h,s=l.split('\t')
    if not s.startswith('fix:'): continue
    assert h in m,(h,s)
    out.append({'property':m[h],'status':'fixed','commit':h,'what':s[5:],'entry':'fixed: property=%s %s %s'%(m[h],h,s[5:])})
json.dump({'findings':out+known},open('/verif/known_findings.json','w'),indent=1)
