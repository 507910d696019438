#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of claimed checks below.
import json
T={
"P01":("differential monitor of client calls against a recording service","generated clients and proxies over HTTP, random typed values, exactly-once and equality oracle"),
"P02":("execution monitor under hostile requests","verbs, paths, truncated/mutated/typed-wrong bodies against handlers with a recording service"),
"P03":("wire monitor with independent msgpack/JSON readers","negotiation and framing of replies, unencodable results"),
"P04":("response monitor of handler-controlled methods","statuses, headers, bodies written by methods against what the client of the connection received"),
"P05":("differential monitor of error identity before and after the wire","random error chains, one and two hops"),
"P06":("fault injection at the transport with a client error oracle","refused, reset, cancelled, non-200, truncated, undecodable, unencodable"),
"P07":("transport tap with a request shape oracle","recorded requests under histories of setter calls"),
"P08":("Go race detector and isolation monitor under concurrent stress","tagged concurrent calls with injected delays"),
"P09":("stats and monitor event log checked against recorded executions","CallStats, Monitor and prometheus events reconciled with the executions observed"),
"P10":("JSON wire monitor for times with an integer arithmetic oracle","raw wire integers and decoded instants against big-integer milliseconds"),
"P11":("JSON wire monitor for unions","wire JSON against the one set member"),
"P12":("event log monitor of GoRPC calls under the race detector","concurrent calls, TLS, stops, stats"),
"P13":("codec extension monitor","instrumented extensions and wire bytes, both encodings"),
"P14":("connection, goroutine and body-close monitors under the race detector","leaks, keep-alive reuse, drained bodies"),
"P20":("generator runs on random and hostile services, observed by the Go compiler and API assertions","generated code is compiled, its API asserted"),
"P21":("generator runs observed by strict tsc","generated TypeScript is type-checked"),
"P22":("run-time validation of emitted JSON against generated TypeScript types","JSON observed on the wire checked against the checked TS types"),
"P23":("end-to-end monitor of the generated TypeScript client","generated TS client run by node against the Go proxies with a recording service"),
"P24":("run-time comparison of enum objects with Go constants","compiled enums evaluated in node against go/constant values"),
"P25":("differential runs of the generator with file monitors","repeated runs, moved trees, leftovers, hashes and mtimes"),
"P26":("exit status and output monitor under hostile input","generator on broken inputs with timeouts"),
"P27":("file and content monitor over configurations","generated files and API compared with configuration"),
"P30":("package resolution monitor over module layouts","marker types tell which directory was read"),
}
import sys,os
claimed=[l.split()[0] for l in open(os.path.join(os.path.dirname(__file__),'claimed.txt')) if l.strip()]
m={"version":1,"setup_cmd":"bin/setup",
"hooks":{"guard":"none","enable":"no hooks in /repo: monitors attach at its public interfaces (services, transports, codecs, files)","source_commits":[]},
"checks":[{"property":i,"quick_cmd":f"bin/check {i}","thorough_cmd":f"VERIF_TIER=thorough bin/check {i}","technique":"runtime monitoring: "+T[i][0],"level":"exploration","level_note":T[i][1]} for i in claimed],
"not_applicable":[{"property":i,"reason":"check still being built"} for i in T if i not in claimed]}
json.dump(m,open(os.path.join(os.path.dirname(__file__),'..','MANIFEST.json'),'w'),indent=1)
