#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json, os, subprocess
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l)["id"] for l in open(os.path.join(root,"properties.jsonl"))]
GEN="property-based testing: "
T={
"L01":(GEN+"round trip over generated texts (structured generators, boundary enumeration)","the stated behaviour on all generated texts; generators reach rebuilds of the code tree and codes of 17 bits; input hook trusted"),
"L02":(GEN+"generated token streams, differential against an independent reference codec","reference LZHUF written from the format (lzref.rs) is trusted"),
"L03":(GEN+"compressor output decoded by an independent reference decoder","reference LZHUF written from the format (lzref.rs) is trusted"),
"L04":(GEN+"compressor tokens compared with brute-force longest match","reference decoder reads the tokens; texts up to some tens of KiB"),
"L05":(GEN+"arbitrary and truncated streams, validity and prefix oracle","a case that burns 100 s of CPU counts as not ending"),
"L06":(GEN+"bitwise reference; all state/byte transitions enumerated","complete for the transition function; strings sampled"),
"B01":(GEN+"reference framer, read back and decompress","reference framer and codec trusted"),
"B02":(GEN+"generated damage, reference validator decides","frames keep their block structure, as stated"),
"B03":(GEN+"all cut points of generated frames; generated contradictions","prefixes of frames over 400 bytes are sampled"),
"B04":(GEN+"structured fuzzing with formatting subscriber, no-panic oracle","sizes above 64 MiB are parsed but not decompressed"),
"F01":(GEN+"grammar and near-miss lines against a reference parser","fields that are not UTF-8 are only checked not to stall"),
"F02":(GEN+"grammar and near-miss lines against a reference parser","fields that are not UTF-8 are only checked not to stall"),
"F03":(GEN+"grammar and near-miss answers against a reference scanner","a seventh offset digit after the last mark is left open"),
"S01":(GEN+"grammar, mutation and exhaustive short texts against a hand-written matcher","texts up to some 140 characters"),
"V01":(GEN+"generated commands rendered and sent to a fake modem, reference rendering","fake modem on loopback"),
"V02":(GEN+"stateful: histories of status lines and segmentations against a reference model","fake modem on loopback"),
"V03":(GEN+"stateful: histories of calls, replies and cancellations against a FIFO model","fake modem on loopback"),
"V04":(GEN+"stateful: connect histories against a reference model","fake modem on loopback; PENDING during an attempt is left open"),
"V05":(GEN+"generated transfers, byte-for-byte comparison at a fake modem","fake modem on loopback"),
"V06":(GEN+"stateful: operations around a remote disconnect against a reference model","fake modem on loopback"),
"V07":(GEN+"stateful: ways of ending a link, commands observed at a fake modem","fake modem on loopback"),
"V08":(GEN+"fault injection at generated points of a session, liveness and CPU oracle","a stall is at least 8 s without progress while loopback traffic flows"),
"V09":(GEN+"structured fuzzing of the control port against a reference model","fake modem on loopback"),
"V10":(GEN+"stateful: histories before dropping the handle, closure and CPU oracle","a stall is at least 8 s without progress while loopback traffic flows"),
"V11":(GEN+"generated configurations against listeners that record connections","loopback addresses"),
"R01":(GEN+"stateful: command histories over a fragmenting in-memory stream","in-memory stream stands in for the serial port"),
"R02":(GEN+"fault injection and fuzzing over a fragmenting in-memory stream","in-memory stream stands in for the serial port"),
"M01":(GEN+"built program against a scripted modem and pty rig, reference transcript","loopback sockets and a pseudo-terminal"),
"M02":(GEN+"built program, generated PTT histories, bytes at a pty rig","loopback sockets and a pseudo-terminal"),
"M03":(GEN+"built program, fault injection at generated session steps, exit oracle","loopback sockets and a pseudo-terminal"),
"M04":(GEN+"built program, generated command lines, connections recorded at every candidate address and the rig line's speed against a model of the options","loopback sockets and a pseudo-terminal"),
}
main=open(os.path.join(root,"harness/src/main.rs")).read()
claimed=[i for i in ids if '("%s"'%i in main]
m={"version":1,"setup_cmd":"bash build.sh",
"hooks":{"guard":"plusendi_verif","enable":"RUSTFLAGS=--cfg plusendi_verif (build.sh); the program check builds the plain binary without it","source_commits":["97c57f0"]},
"checks":[{"property":i,"quick_cmd":"bash check.sh %s quick"%i,"thorough_cmd":"bash check.sh %s thorough"%i,"evidence_file":"evidence/%s.json"%i,"technique":T[i][0],"level":"exploration","level_note":T[i][1]} for i in claimed],
"not_applicable":[{"property":i,"reason":"check not built yet"} for i in ids if i not in claimed],
"notes":"Every check decides by generated-input search against an explicit oracle; see DESIGN.md. 'target/release/plv replay FILE' replays a recorded failure. Known findings: known_findings.txt."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
print(len(claimed),"claimed")
