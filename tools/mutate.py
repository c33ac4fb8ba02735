#!/usr/bin/env python3
"""Development aid: plants small source changes in scratch copies of /repo and sees which checks notice.
   mutate.py list | run <outfile> [--sample N] [--files a,b] [--ids C01,..] [--count N] [--all]"""
import re,sys,os,subprocess,json,random,shutil,threading,queue
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B=os.environ.get("MUT_BIN","/tmp/mut/bin") # copies of shim.so and sim
SRC=["account","amount","entry","envelope","flags","importer","main","posting","utils","ledger/mod","ledger/register"]
def code_lines(f):
    s=open(f"/repo/src/{f}.rs").read()
    i=s.find("#[cfg(test)]")
    return s.split("\n"), (s[:i].count("\n") if i>=0 else s.count("\n"))
SW=[(r" < "," <= "),(r" < "," > "),(r" <= "," < "),(r" > "," >= "),(r" > "," < "),(r" >= "," > "),(r" == "," != "),(r" != "," == "),
 (r" && "," || "),(r" \|\| "," && "),(r" \+ "," - "),(r" - "," + "),(r" \* "," / "),(r" / "," * "),(r" \+= "," -= "),(r" -= "," += "),(r" \+= "," = "),(r" -= "," = "),
 (r"\.min\(",".max("),(r"\.max\(",".min("),(r"\.rev\(\)",""),(r"\bif !","if "),(r"\bif (?!let|!)","if !"),(r"\btrue\b","false"),(r"\bfalse\b","true"),
 (r"\.any\(",".all("),(r"\.all\(",".any("),(r"\bfind\(","rfind("),(r"\brfind\(","find("),(r"\.first\(",".last("),(r"\.last\(",".first("),(r"\.trim\(\)",""),(r"\.trim_end\(\)",""),(r"\.trim_start\(\)",""),
 (r"\.to_lowercase\(\)",".to_string()"),(r"\.abs\(\)",""),(r"\bbreak\b","continue"),(r"\bcontinue\b","break"),(r"\.is_empty\(\)",".is_empty() == false"),(r"\.is_some\(\)",".is_none()"),(r"\.is_none\(\)",".is_some()"),
 (r"\.starts_with\(",".contains("),(r"\.ends_with\(",".contains("),(r"\.contains\(",".starts_with("),(r"\.skip\((\w+)\)",r".skip(\1 + 1)"),(r"\.skip\(1\)",""),(r"-1\b","1"),(r"\.pred_opt",".succ_opt"),(r"\.succ_opt",".pred_opt"),
 (r"-([a-z_]+\.mag)",r"\1"),(r"Some\(([^()]*)\)$","None"),(r"\.filter\(",".skip_while("),(r"\.unwrap_or\(",".xor(None).unwrap_or("),(r"&mut (.*)\.now_amount",r"&mut \1.next_amount"),(r"\bnow_amount\b","next_amount"),(r"\bnext_amount\b","now_amount"),
 (r"\bincome","expense"),(r"\bexpense","income"),(r"\.insert\(0, ",".push("),(r"\.sort\(\);",";"),(r"is_ok\(\)","is_err()"),(r"is_err\(\)","is_ok()"),(r"lock\(\)\?","lock().is_ok()")]
def muts():
    out=[]
    for f in SRC:
        ls,n=code_lines(f)
        for i in range(n):
            l=ls[i]; st=l.strip()
            if not st or st.startswith(("//","#[","use ","mod ","pub mod","println!","print!","eprintln!",")","}")) and not st.startswith(("} else if",")")): 
                if not st.startswith(("println!","print!","eprintln!")): continue
            body=l.split(" // ")[0]
            seen=set()
            for pat,rp in SW:
                for m in re.finditer(pat,body):
                    # skip within string literals
                    if body[:m.start()].count('"')%2==1: continue
                    if pat in(r" < ",r" > ") and ("fn " in body or "impl" in body): continue
                    new=body[:m.start()]+m.expand(rp)+body[m.end():]
                    if new!=body and new not in seen: seen.add(new); out.append((f,i,new))
            for m in re.finditer(r"(?<![\w.\"'%])(\d+)(?![\w.\"'])",body):
                if body[:m.start()].count('"')%2==1: continue
                v=int(m.group(1))
                for w in {v+1,max(v-1,0)}-{v}:
                    out.append((f,i,body[:m.start()]+str(w)+body[m.end():]))
            # whole statements
            if st.endswith(";") and not st.startswith(("let ","return","break","continue","use ","mod ","pub ","const","type","}",")",".","static")) and re.match(r"[\w*.]+",st):
                out.append((f,i,"{}"))
            if re.match(r"\.(sort|retain|dedup|truncate|flush|trim|rev|replace)\b.*;",st): out.append((f,i,";"))
            if re.match(r"return .*;",st) and "None" not in st:
                if "Some(" in st: out.append((f,i,"return None;"))
            # match arms dropped
            m=re.match(r"(\s*)(\S.*) => ([^{]*),$",body)
            if m and not m.group(2).startswith("_"):
                pass
    return out
def worker(q,res,wid,ids,count,allp,lock,outf):
    T=f"/tmp/mut/w{wid}"
    shutil.rmtree(T,ignore_errors=True); os.makedirs(T+"/out")
    subprocess.check_call(["git","clone","-q","/repo",T+"/repo"])
    os.makedirs(T+"/target")
    env=dict(os.environ,CARGO_NET_OFFLINE="true",CARGO_TARGET_DIR=T+"/target")
    subprocess.call(["cargo","test","--offline","--locked","--quiet"],cwd=T+"/repo",env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    subprocess.call(["cargo","build","--offline","--locked","--quiet"],cwd=T+"/repo",env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    while True:
        try: k,(f,i,new)=q.get_nowait()
        except queue.Empty: break
        p=f"{T}/repo/src/{f}.rs"
        orig=open(p).read(); ls=orig.split("\n"); old=ls[i]; ls[i]=new
        open(p,"w").write("\n".join(ls))
        r={"k":k,"file":f,"line":i+1,"old":old.strip(),"new":new.strip()}
        try:
            b=subprocess.run(["cargo","build","--offline","--locked","--quiet"],cwd=T+"/repo",env=env,capture_output=True,timeout=300)
            if b.returncode: r["res"]="nobuild"
            else:
                try: t=subprocess.run(["cargo","test","--offline","--locked","--quiet"],cwd=T+"/repo",env=env,capture_output=True,timeout=120).returncode
                except subprocess.TimeoutExpired: t=1
                if t: r["res"]="tests"
                else:
                    caught={}
                    for c in ids:
                        e=dict(os.environ,VERIF_ROOT=T+"/out",SIM_SHIM=B+"/shim.so",SIM_BINARY=T+"/target/debug/silverfox",SIM_SHRINK="0",SIM_THREADS="1",SIM_COUNT=str(count),SIM_WALL="400")
                        try: rc=subprocess.run([B+"/sim","check",c],env=e,capture_output=True,text=True,timeout=600)
                        except subprocess.TimeoutExpired: caught[c]="timeout"; continue
                        if rc.returncode==1:
                            m=re.search(rf"^{c} quick seed \d+: (\d+)",rc.stdout,re.M); caught[c]=int(m.group(1)) if m else -1
                            if not allp: break
                        elif rc.returncode!=0: caught[c]=f"rc{rc.returncode}"
                    r["res"]="caught" if any(isinstance(v,int) for v in caught.values()) else "SURVIVED"; r["by"]=caught
        finally:
            open(p,"w").write(orig)
        with lock:
            outf.write(json.dumps(r)+"\n"); outf.flush()
    shutil.rmtree(T,ignore_errors=True)
if __name__=="__main__":
    ms=muts()
    a=sys.argv
    opt=lambda n,d: a[a.index(n)+1] if n in a else d
    if a[1]=="list":
        from collections import Counter
        print(len(ms),Counter(m[0] for m in ms)); sys.exit()
    files=opt("--files",None)
    if files: ms=[m for m in ms if m[0] in files.split(",")]
    if opt("--skip",None):
        done={(d["file"],d["new"]) for d in map(json.loads,open(opt("--skip",None)))}
        ms=[m for m in ms if (m[0],m[2].strip()) not in done]
    random.seed(int(opt("--seed","1"))); random.shuffle(ms)
    ms=ms[:int(opt("--sample","100000"))]
    ids=opt("--ids","C19,C22,C20,C09,C10,C12,C11,C08,C21,C16,C07,C05,C15,C06,C14,C04,C03,C02,C01,C17,C13,C18").split(",")
    q=queue.Queue()
    for x in enumerate(ms): q.put(x)
    lock=threading.Lock(); outf=open(a[2],"a")
    ts=[threading.Thread(target=worker,args=(q,None,w,ids,int(opt("--count","1200")),"--all" in a,lock,outf)) for w in range(int(opt("--jobs","8")))]
    [t.start() for t in ts]; [t.join() for t in ts]
