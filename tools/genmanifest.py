#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, subprocess
seq="explicit enumeration of all call sequences to a depth on the real client, next to a reference automaton"
inp="explicit-state enumeration of the bounded input space on the real code, against a reference model"
hs="exhaustive enumeration of handshakes (flags, levels, challenges, credentials) of the real client against a reference server"
env="exhaustive enumeration of environment answers and faults on the real code"
T={}
for i in (1,2,3,4,5,6,7,8,9,10,25): T[f"C{i:02}"]=inp
for i in (11,12,13,14,15,18,19,22): T[f"C{i:02}"]=hs
for i in (16,17): T[f"C{i:02}"]=seq
for i in (20,21,23): T[f"C{i:02}"]=env
T["C24"]="exhaustive enumeration of flag words and messages, strict against default build of the real code"
T["C26"]="exhaustive interleaving of calls, and of preemptions at shared memory accesses (compiler-instrumented build, bounded preemptions), of real clients over threads, against solo runs"
T["C27"]="exhaustive enumeration of SSPI answer sequences on the real Windows client through stand-ins"
T["C33"]=T["C27"]+" that keep account of what they gave"
T["C28"]=inp.replace("against a reference model","with every allocation counted")
T["C29"]=seq.replace("next to a reference automaton","with every output channel captured")
T["C30"]=env
T["C31"]=inp
T["C32"]="exhaustive enumeration of surroundings (log levels, answers of streams, environment and files, thread states) times programs on the real code, against the same programs in plain surroundings"
N={
"C32":"Surroundings are answered at the libc boundary (write, writev, getenv, open64, clock_gettime, getpid and the like, gethostname, getcwd); other system calls are not. The logger formats every record; log levels are those of the log crate.",
"C28":"Every allocation of the real code in the named spaces is counted by the harness' global allocator. Memory obtained otherwise (mmap by hand) is not.",
"C29":"Output is captured at write/writev to descriptors 1 and 2 and through the log crate's logger; other channels (files, sockets) are not used by the code. Looks for the secrets in raw, hexadecimal, decimal, base64, UTF-16 and debug form; a transformed secret is not recognised.",
"C30":"All sequences of destination answers up to the bound and one fault at each request, on the real encoders.",
"C01":"Every input of the named spaces runs on the real decoders in a guarded buffer (unmapped page behind it), with overflow checks and debug assertions on, and (the quick tier but for the biggest spaces) without. Inputs outside of the spaces are not covered.",
"C20":"Every byte of the random stream takes all 256 values and each is traced into the message; all fault sequences up to the bound. Trusts that the libc boundary is where randomness enters.",
"C26":"Interleaving at calls (exhaustive merges and thread assignments), inside of calls at requests to the operating system, and in an instrumented build at every atomic operation and every access to static memory that is written, up to a bound on preemptions. Sequentially consistent memory; plain accesses to shared heap memory are no points by themselves.",
"C27":"src/win.rs of the tree is compiled for this platform and run against stand-ins of the SSPI functions; what the real system does beyond its documentation is not covered.",
"C33":"src/win.rs of the tree is compiled for this platform and run against stand-ins of the SSPI functions that count what is given and released; releases by other means than FreeCredentialsHandle and DeleteSecurityContext are not seen.",
"C24":"Both builds of the real code run on the same spaces; expected refusals come from the statement, everything else has to decode exactly as in the default build.",
}
D="Every element of the named finite spaces (bounds in DESIGN.md and in the evidence) is executed on the real code and compared with an independent model; nothing is sampled. Outside of the bounds nothing is claimed. Trusts the model and the RustCrypto primitives."
out=dict(version=1,setup_cmd="./check.sh build",
 hooks=dict(guard="http_ntlm_verif",enable="RUSTFLAGS='--cfg http_ntlm_verif --cfg http_ntlm_verif=\"session\"' cargo build in /verif/harness (check.sh)",
  source_commits=[l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%H %s'],capture_output=True,text=True).stdout.splitlines() if ' hook:' in l]),
 checks=[dict(property=k,quick_cmd=f"./check.sh {k} quick",thorough_cmd=f"./check.sh {k} thorough",technique=T[k],level="model_checking",level_note=N.get(k,D)) for k in sorted(T)],
 not_applicable=[],
 notes="The explorer is /verif/harness; check.sh builds it from /repo's working tree. 'check.sh replay FILE' runs the one case of a replay file.")
json.dump(out,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
