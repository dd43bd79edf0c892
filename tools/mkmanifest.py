# Writes MANIFEST.json.
import json
AI="abstract interpretation of the source (go/ssa, assembler listing, LLVM IR) in a value-numbering domain, compared with a reference"
ST="type-checked program and effect analysis"
NOTE={}
claimed={}
def c(ids,technique,note):
    for i in ids.split(): claimed[i]=(technique,note)
REL="decided for all inputs, lengths and states of the scenario; relies on the analyser and on the Go and clang front ends"
c("C01 C02 C04 C05 C06 C09 C10 C11 C12 C13 C14 C15 C22 C23",AI,REL)
c("C03",AI+"; the C sources as LLVM IR, cgo calls followed into them",REL+"; clang's IR stands for what the C compiler of a build makes of the sources")
c("C07","abstract interpretation of the mask computation in a boolean domain, compared with the published bit conditions",REL)
c("C08","abstract interpretation of the initialisers and syntax-tree constants, compared with the message differences derived from the vector definitions",REL)
c("C16","effect analysis of stores to package-level memory, plus abstract interpretation of every method",REL)
c("C17","abstract interpretation: bounds, nil and termination obligations on every path",REL)
c("C18","abstract interpretation of the dispatch conditions against the instruction sets of the kernels; type checking of every build configuration",REL)
c("C19","abstract interpretation of the assembler listing: memory bounds, defined registers, ABI",REL)
c("C20","abstract interpretation of the LLVM IR: memory bounds, undefined values and undefined behaviour",REL)
c("C21","type checking and API comparison of every build configuration",REL)
c("C24","compiler escape analysis over the call graph, with unreachable sites removed by abstract interpretation; growth obligations at append",REL)
c("C26","abstract interpretation: stores to the receiver of reading calls",REL)
c("C27","effect analysis: call-graph reachability of functions with external effects (go/ssa, LLVM IR)","decided for every path; functions outside the module are classified by a list")
NA={"C25":"quantifies over attacks nobody has described; no artefact in the source decides it"}
for i in range(1,28):
    k=f"C{i:02d}"
    if k not in claimed and k not in NA: NA[k]="check under construction"
m={"version":1,"setup_cmd":"bash tools/build.sh",
 "checks":[{"property":k,"quick_cmd":f"tools/check {k}","thorough_cmd":f"VERIF_TIER=thorough tools/check {k}","technique":t,"level":"other","level_note":n} for k,(t,n) in sorted(claimed.items())],
 "not_applicable":[{"property":k,"reason":r} for k,r in sorted(NA.items())]}
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
