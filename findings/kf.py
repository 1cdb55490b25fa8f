import json,subprocess
L=subprocess.check_output("git -C /repo log --format='%h %s' --reverse 674ddd9..",shell=True,text=True).splitlines()
prop={"bce48ca":"C01","fb16cf8":"C29","a852d71":"C20","c613f60":"C19","62bd8e0":"C01","946bc47":"C02","d9d771e":"C05","9b6ffde":"C01","d01c3fb":"C06","04ea5fe":"C05","97f173a":"C05","d968b0a":"C05","334cfd6":"C02","0afb2da":"C11","db33c6e":"C12","04986dc":"C12","95f528a":"C15","9fa7e82":"C15","687299c":"C16","ac85748":"C16","826439c":"C16","05f794c":"C19","79fdcfc":"C19","8ac27bd":"C20","788915e":"C27","141606f":"C17","fbd69d9":"C18","37259e5":"C21","9daa4f8":"C18","c8a3123":"C30","797341a":"C30","cdb25f1":"C30","c20beae":"C30","bffbaf2":"C26","44d27fd":"C26","64f50e6":"C26","ef3674a":"C26","6746ba5":"C26","6da3faa":"C26","1f33592":"C26","37cb771":"C26"}
out=[]
for l in L:
    h,m=l.split(" ",1)
    out.append("fixed: property=%s %s %s"%(prop[h[:7]],h,m.replace("fix: ","")))
print("\n".join(out))
json.dump([{"status":"fixed","property":prop[l.split(" ",1)[0][:7]],"keys":[],"what":o} for l,o in zip(L,out)],open("/verif/known_findings.json","w"),indent=1)
