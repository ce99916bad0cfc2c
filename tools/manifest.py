"""Writes MANIFEST.json from properties.jsonl and the definitions in harness/src/main.rs."""
import json,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
src=open('/verif/harness/src/main.rs').read()
P={}
for m in re.finditer(r'id: "(C\d+)",\s*level: \w+,\s*rule: ("(?:[^"\\\\]|\\\\.)*"),\s*assumptions: &\[(.*?)\],\s*run',src,re.S):
    P[m.group(1)]=(json.loads(m.group(2)),json.loads("["+m.group(3)+"]"))
T={
"C01":"exhaustive exploration of sponge call histories on the real code against a reference sponge",
"C02":"exhaustive exploration of operation histories of two sponges, lock-step with a reference state machine",
"C03":"exhaustive exploration of (length, position, arrangement, cut) configurations of writer/reader pairs",
"C04":"explicit-state search over all reachable views, lock-step with array ranges",
"C05":"exhaustive enumeration of the integer and character domains",
"C06":"exhaustive enumeration of counter values and complete counter walks",
"C07":"exhaustive enumeration of sizes and of encodings within bounds",
"C08":"exhaustive exploration of field sequences, lock-step with a reference writer and reader",
"C09":"exhaustive fault enumeration: truncations and malformed claims per reader, in fenced memory",
"C10":"exhaustive enumeration of lengths, splits and call histories against the sponge definition",
"C11":"exhaustive enumeration of digits and checksums against reference hash chains",
"C12":"exhaustive enumeration of alterations and chain-advancing forgeries",
"C13":"explicit-state exploration of complete tree lives over a free algebra of nodes",
"C14":"explicit-state exploration of store/load points over complete tree lives",
"C15":"explicit-state exploration of complete key lives against a reference signer",
"C16":"exhaustive enumeration of alterations, truncations and headers",
"C17":"exhaustive enumeration of coefficient pairs, monomial products and encodings",
"C18":"exhaustive enumeration of nonces, keys and sponge positions within bounds",
"C19":"exhaustive enumeration of altered capsules, keys and imports",
"C20":"exhaustive enumeration of message shapes and configurations within bounds",
"C21":"exhaustive enumeration of message shapes, conformance with an independent implementation",
"C22":"exhaustive enumeration of single-trit alterations, splices and wrong secrets",
"C23":"exhaustive fault enumeration: truncations and false claims per message reader, in fenced memory",
"C24":"exhaustive enumeration of recipient lists and reader secrets within bounds",
"C25":"explicit-state exploration of channel histories with all refusals at each step",
"C26":"exhaustive enumeration of versions, type lengths and header differences"}
LV={"ModelChecking":"model_checking","Exploration":"exploration","FaultEnumeration":"fault_enumeration"}
M={"version":1,"setup_cmd":"./check.sh --build","hooks":{"guard":"cfg(iota_mam_verif)","enable":"RUSTFLAGS=\"--cfg iota_mam_verif\" (set by check.sh)","source_commits":["5fe2ab2"]},
"checks":[],"not_applicable":[],"notes":"All checks are one Rust binary (harness/) with a path dependency on /repo, rebuilt by check.sh on every run; exit 2 means the harness could not be built or run."}
for d in props:
    i=d["id"];rule,a=P[i]
    lv=LV[re.search(r'id: "%s",\s*level: (\w+)'%i,src).group(1)]
    M["checks"].append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"technique":T[i],"level":lv,
     "level_note":"Holds for every case within the bounds enumerated: "+rule+(" Assumes: "+"; ".join(a)+"." if a else "")})
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write("\n")
