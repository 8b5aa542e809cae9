#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below."""
import json, os
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"C01":("random satisfiable instances and configurations through prover and verifier","The oracle is acceptance itself; instances are solved constructively so that they are true by construction (and confirmed by a reference trace checker)."),
"C02":("random corrupted traces, violation confirmed by a reference checker, prover's output must not be accepted","Fields of 64 and 252 bits, so chance acceptance is negligible."),
"C03":("typed mutations of accepted proofs and of statements","A mutation that leaves the proof equal is discarded; chance-coinciding query positions on tiny domains are computed and discarded."),
"C04":("structure-aware fuzzing of proof objects, panic and hang oracle","Proofs are generated from honest ones by lists of mutations and from scratch; a time limit detects hangs."),
"C05":("cheating provers derived from an independent reference prover that each skip one obligation","Cheats are an explicit list; adversaries outside of the list are not explored. Query-position grinding is excluded (single-query protocol)."),
"C06":("random polynomials and FRI parameters, reference fold as differential oracle, every position",""),
"C07":("mutated and forged FRI proofs against an independent reference FRI verifier (differential)",""),
"C08":("random vectors through every transform kernel, naive DFT oracle","The reference transform is recursive and cross-checked by naive evaluation on small sizes."),
"C09":("random vectors through every extension algorithm, naive evaluation oracle","KF1 region is compared with an exact model of the known wrong result."),
"C10":("random polynomial operations against naive coefficient and point arithmetic",""),
"C11":("random trees and mutated openings against an independent keyed-Blake2s tree",""),
"C12":("random operation histories against an independent transcript model, metamorphic edits",""),
"C13":("random instances and traces, satisfying and corrupted, against a reference evaluator",""),
"C14":("random traces, Horner evaluation at domain points as oracle",""),
"C15":("random instances, composition polynomial against the reference formula",""),
"C16":("random instances, quotients against the reference formula at every point",""),
"C17":("random and enumerated sizes, indices and bytes against arithmetic characterisation",""),
"C18":("random operation sequences against an expression model (stateful)",""),
"C19":("differential runs at several CPU counts, partition counting","Thread counts are controlled; interleavings are left to the scheduler (the code shares only disjoint slices)."),
"C20":("random point sets and slices against naive evaluation",""),
"C21":("random start values, lengths and deviations against native recurrences",""),
"C22":("random extension elements against polynomial arithmetic modulo the irreducible polynomial",""),
"C23":("random update/finish/clone histories against independent implementations",""),
"C24":("random shapes against explicit expansion",""),
"C25":("random operation histories on a trace system against a model holding columns by kind (stateful)",""),
"C26":("random instances and traces, every opened position and value of the proof against the reference transcript and polynomials",""),
"C27":("random histories of proofs and verifications with long-lived objects, fresh objects as oracle (stateful, differential)","Concurrent use is sampled with delayed threads."),
}
checks=[];na=[]
for k,(t,n) in T.items():
    if os.path.exists(os.path.join(ROOT,"harness/src/bin/%s.rs"%k.lower())):
        checks.append({"property":k,"quick_cmd":"./run.sh %s quick"%k,"thorough_cmd":"./run.sh %s thorough"%k,"technique":"property-based testing: "+t,"level":"exploration",
          "level_note":("Held on every generated case of the run (counts, non-trivial share and samples in the evidence file); sampling, not proof. "+n).strip()})
    else: na.append({"property":k,"reason":"check not built yet (in preparation)"})
m={"version":1,"setup_cmd":"./run.sh build","hooks":{"guard":"--cfg hodor_verif","enable":"RUSTFLAGS='--cfg hodor_verif -Awarnings' (set by run.sh)","source_commits":["6faf5b0"]},"checks":checks,"not_applicable":na}
json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1)
