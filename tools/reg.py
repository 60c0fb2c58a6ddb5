import re,glob
d='/verif/harness/zzharness/'
names=[]
for f in sorted(glob.glob(d+'c*.go')):
    names+=re.findall(r'^func ([A-Z]\w*)\(\) \{',open(f).read(),re.M)
body="".join('\t"%s": %s,\n'%(n,n) for n in names)
open(d+'h.go','w').write("// Package zzharness states the properties as symbolic harnesses over the real code.\npackage zzharness\n\n// Registry of the harnesses, for native replay.\nvar Registry = map[string]func(){\n"+body+"}\n")
