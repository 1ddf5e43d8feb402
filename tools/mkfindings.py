import subprocess
M={"db27a05":"C25","539769d":"C06","37aad6e":"C02","32d0303":"C03","ef5014a":"C03","70e6061":"C03","82884bc":"C04","72a866f":"C26","5043a98":"C01","38dccf3":"C26","17c9369":"C25","c5ea577":"C01","5d82f59":"C23","fda34b8":"C22","0e50287":"C07","d5306bb":"C20","310aa2a":"C13","23c54b2":"C13","d6b60b1":"C13","859b0fe":"C16","5125730":"C24","0a1e2f1":"C15","900e99f":"C10","f946d82":"C08","cc0539e":"C09","ebac8ea":"C17","50e45e3":"C14","3fb0739":"C14","7bf8d35":"C14","2b6d62c":"C09","0ac9f3b":"C01","f3c9148":"C12","c9abae1":"C13","b6ffeca":"C07","5bb64b4":"C09","49795ed":"C08","b312672":"C13","7524928":"C17","6d59914":"C18","939dc08":"C21","6a9c3e6":"C21","a34aef3":"C21","0edbd7f":"C25","e864c40":"C21","d3f89b1":"C23","a40a907":"C25","a3bdb98":"C25","16f4c82":"C27","359b87d":"C27","95f3ec4":"C27","1a27b69":"C27","da491d0":"C28","ad90363":"C08","5cd0445":"C05","2602470":"C13","895c3b0":"C21","8b2bd14":"C02","af055f6":"C08","300d455":"C08","1259c8c":"C01","4c90f91":"C19","e520a43":"C08","1ac323c":"C08","307570f":"C11"}
out=["# known: property=Cxx tag=<oracle tag> key=<scenario key> <text>   (suppresses exactly that failing input)","# fixed: property=Cxx <commit in /repo> <what failed>              (suppresses nothing)"]
for l in subprocess.run(["git","-C","/repo","log","--oneline","--reverse","b72b183..HEAD"],capture_output=True,text=True).stdout.splitlines():
    h,t=l.split(" ",1); t=t.replace("fix: ","",1)
    out.append(f"fixed: property={M[h]} {h} before it, this did not hold: {t}")
open("/verif/KNOWN_FINDINGS.txt","w").write("\n".join(out)+"\n")
