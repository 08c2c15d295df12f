"""mutate.py K seed region out.jsonl count: tries mutants on copy K; survivors (build + all stable tests pass) are written as patches"""
import sys,re,random,subprocess,os,json
K,seed,count=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); regions=sys.argv[4:]
R="/tmp/w/mut/%s/repo"%K; rng=random.Random(seed)
RE={"init":("src/parse.c",r"^func void parse_initializer",None),"spec":("src/parse.c",r"parse_declaration_specifiers\(struct context[^;]*$",None),"decl":("src/parse.c",r"parse_declarator\(struct context[^;]*$",None),
"expr":("src/parse.c",r"^func struct expr parse_expression\(",None),"cast":("src/parse.c",r"^func .*push_cast\(",None),"static":("src/main.c",r"^func void evaluate_static_initializer__internal",None),
"if":("src/preprocess.c",r"^func .*static_if_evaluate\(",None),"emit":("src/emit_x64.c",None,(2640,4760)),"call":("src/emit_x64.c",None,(3380,3725)),"emit1":("src/emit_x64.c",None,(850,2640)),"fold":("src/parse.c",r"^func void perform_",None),"lit":("src/preprocess.c",None,(435,1200)),"tok":("src/preprocess.c",None,(1202,1830)),"prolog":("src/emit_x64.c",None,(4768,5010)),
"stmt":("src/parse.c",None,(9150,9900)),"macro":("src/preprocess.c",None,(1830,2545))}
def lines_of(reg):
    f,pat,rg=RE[reg]; L=open(R+"/"+f,newline="").read().split("\n")
    if rg: return f,L,list(range(rg[0],rg[1]))
    out=[]
    for i,l in enumerate(L):
        if re.search(pat,l) and not l.rstrip().endswith(";") and not l.startswith(" "):
            j=i+1
            while not L[j].startswith("}"): j+=1
            out+=range(i+1,j)
    return f,L,out
SWAP=[(r" < ",[" <= "]),(r" <= ",[" < "]),(r" > ",[" >= "]),(r" >= ",[" > "]),(r" == ",[" != "]),(r" != ",[" == "]),(r" \+ ",[" - "]),(r" - ",[" + "]),(r" && ",[" || "]),(r" \|\| ",[" && "]),(r" \* ",[" + "]),(r"\+\+",["--"]),(r"\+= ",["-= ","= "]),(r"-= ",["+= "]),(r"\|= ",["= "]),(r" & ",[" | "]),(r" \| ",[" & "," ^ "]),(r"<< ",[">> "]),(r">> ",["<< "]),
(r"_s32\b",["_u32","_s64"]),(r"_u32\b",["_s32","_u64"]),(r"_s64\b",["_u64","_s32"]),(r"_u64\b",["_s64","_u32"]),(r"\b(s32|u32)\b",["s64","u8"]),(r"\b0x[0-9a-f]+\b",["N+1"]),(r"\b[0-9]+\b",["N+1","N-1"]),(r"REGISTER_KIND_gpr",["REGISTER_KIND_xmm"]),(r"REGISTER_A\b",["REGISTER_C"]),(r"REGISTER_C\b",["REGISTER_D"]),(r"REGISTER_D\b",["REGISTER_A"]),(r"\bif\(",["if(!","if(1 || ","if(0 && "]),(r"->size",["->alignment"]),(r"^(\s+)[^=/;{}]*[^/;{}]*;",["DEL"])]
seen=set(); done=0; surv=0
while done<count:
    reg=rng.choice(regions); f,L,ln=lines_of(reg); i=rng.choice(ln); l=L[i]
    if any(w in l for w in ("report_","assert","print","//","log_","_string(","goto ","case ","#","invalid_")) or not l.strip(): continue
    pat,reps=rng.choice(SWAP); ms=list(re.finditer(pat,l))
    if not ms: continue
    m=rng.choice(ms); rep=rng.choice(reps)
    if rep=="DEL":
        if re.match(r"\s*(struct|enum|u8|u32|u64|s64|smm|int|b32|return|break|continue|char)\b",l) or not l.rstrip().endswith(";"): continue
        new=m.group(1)+";"
    else:
        if rep.startswith("N"): rep=(hex if m.group().startswith("0x") else str)(int(m.group(),0)+(1 if rep=="N+1" else -1))
        new=l[:m.start()]+rep+l[m.end():]
    if (f,i,new) in seen: continue
    seen.add((f,i,new)); done+=1
    L2=L[:]; L2[i]=new; open(R+"/"+f,"w",newline="").write("\n".join(L2))
    r=subprocess.run(["bash","/tmp/w/mut/t.sh",K],capture_output=True,text=True)
    v=r.stdout.strip().split("\n")[-1]
    if r.returncode==0:
        surv+=1; d=subprocess.run(["git","-C",R,"diff"],capture_output=True).stdout
        n="/tmp/w/mut/surv/%s_%d_%d"%(reg,seed,done); os.makedirs("/tmp/w/mut/surv",exist_ok=True); open(n+".diff","wb").write(d)
    print(done,reg,i+1,v,"|",l.strip()[:90],"=>",new.strip()[:90],flush=True)
    subprocess.run(["git","-C",R,"checkout","-q","--","."])
print("survivors",surv)
