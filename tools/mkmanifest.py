#!/usr/bin/env python3
# Regenerates MANIFEST.json.  BUILT lists the properties with a registered check.
import json,os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(here+"/../properties.jsonl")]
BUILT={
 "C09":"stateless exploration of the real string code under a controlled scheduler: all interleavings up to a preemption bound and all stale reads up to a bound (weak memory), with a race, use-after-free, double-free and leak monitor",
 "C11":"stateless exploration of the real channel under a controlled scheduler: all interleavings up to a preemption bound and all stale reads up to a bound (weak memory), with delivery, race, use-after-free, double-free and leak monitors",
 "C12":"stateless exploration of the real parker and channel under a controlled scheduler: all interleavings up to a preemption bound, all spurious and unrelated wakeups and stale reads up to a bound, with deadlock, early-wakeup, race and leak monitors",
 "C16":"explicit-state exploration of the reference registration state machine (all server message sequences to a depth, every transition from every reachable state, disturbances inserted into complete registrations), each history replayed through the real client and compared line by line",
 "C17":"explicit-state exploration of the reference SASL exchange (all server message sequences to a depth and every transition from every reachable state), each history replayed through the real handler and compared line by line",
 "C21":"exhaustive enumeration of capability lists, ISUPPORT values and line sequences (through the real registration) and of capability length vectors through the request splitter, against reference list models",
 "C15":"explicit-state exploration of all histories of handler additions, incoming messages, yields, finishes, resets and queue contents through the real blocking and tokio run loops over a scripted connection, against a reference run-loop model",
 "C23":"explicit-state exploration of all sequences of source-affecting server messages through the real client and tracking handler, against a reference source model",
 "C24":"exhaustive exploration of arrival, trickle, stall and timeout-change schedules on a virtual clock through the real blocking and tokio run loops, against a reference deadline model",
 "C25":"explicit-state exploration of all sequences of server messages through the real handlers over a scripted connection and virtual clock, against a reference reply model",
 "C01":"exhaustive enumeration of messages assembled from pools covering every byte class, written through every writer (blocking, async under every chop of partial writes, tokio codec) and compared with a reference message model after re-parsing",
 "C02":"exhaustive enumeration of byte lines over the structural alphabet and of fragment combinations on the real parsers against a reference grammar",
 "C05":"exhaustive exploration of read schedules (cuts, would-block, interrupt, pending, EOF, error placements) over real readers against a reference framing model",
 "C18":"exhaustive enumeration of payloads and chunk sequences through the real SASL chunk encoder and decoder against a reference base64 and chunking model",
 "C20":"explicit-state exploration of operation sequences on mode sets, all quadruples of small sets and all short strings as tables, against set models",
 "C22":"exhaustive enumeration of messages around the size limit, comparing the reported room with the bytes actually written",
 "C28":"exhaustive enumeration of trust settings x system roots x server identities x host forms x TLS versions x connectors, of client identities, and of all short sequences of connections sharing configurations, each executed by the real client on a loopback connection to a recording TLS server, against a reference trust table",
 "C29":"explicit-state exploration of histories of operations on strings sharing storage (real code, checking allocator) against content snapshots; exhaustive enumeration of owning forms of all parts of a message grid",
 "C31":"exhaustive enumeration of derivation chains, of histories of sharing, converting and dropping, and of logins on the real code under an allocator that inspects the storage of every secret string when it is released",
 "C30":"exhaustive enumeration of numerics, numeric texts, message kinds, a message grid and address pairs on the real code against reference conversions",
 "C27":"explicit-state exploration of argument-list edit sequences against a list model; exhaustive enumeration of CTCP bodies, typed views, case maps and trims",
 "C04":"exhaustive enumeration of tag values and raw tag values on the real code against an executable escaping model, through edits, writing and parsing",
 "C06":"explicit-state exploration of all operation sequences up to a depth on the real collections, compared step by step with a plain map model (including leaked guards)",
 "C07":"exhaustive enumeration of byte strings x operation chains on the real code, checking every encoding claim against the bytes",
 "C08":"exhaustive enumeration of derivation chains over secret strings on the real code, monitoring formatting output and secrecy flags",
 "C10":"explicit-state exploration of all operation sequences up to a depth on the real buffer under a checking allocator, compared with a plain vector model",
 "C13":"explicit-state exploration of all histories of queue operations and virtual-clock advances on the real queue against a token-time reference model",
 "C14":"explicit-state exploration of all histories of queue, edit, adjust and label operations on the real queue against a list model",
 "C19":"exhaustive enumeration of nickname generator configurations run to exhaustion, and of all histories of next/invalid reports, against a reference generator",
 "C26":"exhaustive enumeration of values and of small JSON inputs through the real serde implementations (text and binary formats)",
 "C03":"exhaustive enumeration of byte strings x conversion routes on the real code against an executable rule model",
}
NA={}
LEVEL_NOTE="Exhaustive within the bounds stated in the evidence file; executes the real code of /repo's working tree (no abstraction of the implementation); trusts the reference model in the harness, rustc and the harness engine."
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in BUILT:
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
          evidence_file=f"evidence/{i}.json",technique=("model checking: "+BUILT[i]),level="model_checking",level_note=LEVEL_NOTE))
    else:
        na.append(dict(property=i,reason=NA.get(i,"check not built yet")))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
  notes="No hooks in /repo: the checks use the public API (harness/, tls/) or compile /repo/src against a model of std's concurrency primitives (mc/).")
json.dump(m,open(here+"/../MANIFEST.json","w"),indent=1)
open(here+"/../MANIFEST.json","a").write("\n")
print(len(checks),len(na))
