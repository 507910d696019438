#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the table below is the source)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=', '.join(files))])))

p("P01","Go client calls reach the service once and carry every value faithfully",
  "A call through a generated Go client to a generated proxy executes exactly the addressed service method exactly once, with arguments equal to those passed, and returns results equal to those the service returned, in msgpack as well as in JSON encoding. Equal means deeply equal for every exported type the generator supports (nil and empty, zero values, pointers, maps, nested, recursive and cross-package types, integer extremes, unicode), times being compared as instants (to the millisecond in JSON); what omitempty or json:\"-\" drops is excluded.",
  ["inputs","configurations"],"every service method the generator accepts, every value of its argument and result types, both encodings",
  "The tests call a handful of methods with one value each; the claim is over all type shapes and values.",
  ["client.go","transport.go","gotsrpc.go","go.go"],"Client.Call encodes args, LoadArgs decodes into &arg_x, Reply encodes rets, Call decodes into &ret")
p("P02","Only a decodable POST to an exact method name executes service code",
  "The proxy answers OPTIONS with 200 and any other non-POST method with 405, a POST whose path is not endpoint + '/' + an exact method name with 404, and a POST whose body cannot be decoded into the method's arguments with 400; in none of these cases is any service method executed. No request, however malformed, makes the proxy panic or stop serving.",
  ["inputs","histories"],"every HTTP method, path and body, in both encodings",
  "The space of malformed requests is unbounded; tests send only well-formed ones.",
  ["go.go","gotsrpc.go"],"generated ServeHTTP: method switch, GetCalledFunc, LoadArgs, ErrorFuncNotFound, ErrorCouldNotLoadArgs, ErrorMethodNotAllowed")
p("P03","Replies are negotiated by content type and framed completely or fail as 500",
  "A successful reply is encoded in the encoding named by the request's Content-Type (application/msgpack; charset=utf-8 or application/json; charset=utf-8, anything else or none being JSON), says so in its Content-Type header, carries a Content-Length equal to its body and consists of exactly one array with one element per result of the method (none for methods without results). If the results cannot be encoded the response is a 500 and never a 200 with a partial body.",
  ["inputs"],"every method, result value and request content type",
  "Tests only decode replies with the client that asked; they never look at framing or at unencodable results.",
  ["gotsrpc.go","transport.go"],"getHandlerForContentType, Reply encodes into a buffer before anything is written")
p("P04","Methods taking ResponseWriter and Request control the response",
  "A service method that takes (http.ResponseWriter, *http.Request) first gets the very request being served and a writer on the response; headers it sets are sent. If it sets a status other than 200 the response carries exactly that status and the body it wrote, and the proxy appends nothing; otherwise the encoded results are sent as for any other method.",
  ["inputs"],"every status, header and body a handler may produce, in both encodings",
  "No test has a handler that writes its own status.",
  ["responsewriter.go","go.go"],"gotsrpc.ResponseWriter records the status; generated code replies only when rw.Status() is 200")
p("P05","Errors keep message, identity and typed data across the msgpack wire",
  "An error a service returns as its `error` result arrives at a Go client as a non-nil error with the same message, on which pkg/errors.Cause ends; errors.Is against each sentinel in its (single) Unwrap chain and errors.As to each typed error in that chain succeed exactly as they do on the original, the latter yielding equal exported data, and stay so when a service relays an error it received from another service. A nil error (or typed nil pointer) arrives as nil, and a result of a concrete error type arrives with equal data.",
  ["inputs","histories"],"every chain of sentinel, typed pointer, typed value and wrapping errors whose data consists of JSON-like values",
  "Tests cover a few fixed chains; combinations of kinds, zero values, empty messages, tags and hops are unbounded.",
  ["error.go","transport.go","client.go"],"NewError walks the chain, Is compares message/type/package, As and afterDecodeReply decode Data")
p("P06","Every failed call is reported to the Go client as a ClientError with its cause",
  "When a call does not complete (connection failure, cancelled or expired context, a response status other than 200, an undecodable or truncated response, unencodable arguments) the generated client returns a non-nil client error matching *ClientError by errors.As; for a non-200 status its cause is an *HTTPError with exactly the status code and body received, for a cancelled or expired context errors.Is finds context.Canceled or DeadlineExceeded. A call that completed never reports a client error, whatever errors the service returned.",
  ["fault_sequences","inputs"],"every fault point of a call: before, during and after the exchange",
  "Tests run against a working server only.",
  ["client.go","clienterror.go","httperror.go","go.go"],"bufferedClient.Call wraps each failing step in NewClientError")
p("P07","Client requests have the documented shape and respect the configured client",
  "Every call is one POST to url + endpoint + '/' + method carrying Content-Type and Accept of the client's encoding and X-Foomo-S2s: true, the caller's default headers (all values), and the caller's context. The default headers given are never modified by calls, calls use the http.Client configured (constructor, SetTransportHttpClient or the default factory), and a change of headers, encoding or http.Client by the setters applies to all later calls.",
  ["inputs","histories"],"every header set, encoding and configuration sequence",
  "Aliasing of the header map only shows over several calls and clients.",
  ["client.go","http.go"],"newRequest with cloned headers; setters on bufferedClient; defaultHttpFactory")
p("P08","Concurrent calls are isolated and free of data races",
  "Any number of goroutines may share a proxy, a client, and the package's codec handles and error values: every call executes once with its own arguments and gets its own results, errors, headers and stats, whatever else is in flight in either encoding, and no data race occurs in gotsrpc.",
  ["schedules"],"all interleavings of concurrent calls on shared clients, proxies and handles, including cancelled and failing ones",
  "Tests are sequential; cross-talk and races depend on the schedule.",
  ["client.go","gotsrpc.go","transport.go","stats.go"],"per-call buffers and decoders, shared immutable handles, stats in the request's context")
p("P09","Stats, Monitor and instrumentation see each call once and accurately",
  "For a request carrying a stats context the handler of InstrumentedService gets exactly one CallStats after an executed call, naming package, service and method, with request and response sizes equal to the lengths of the announced arguments and the encoded results, non-negative durations covering the method's execution, and, if the call's last result is a non-zero error, its message, Go type and error code (ErrorCode() if it has one, else 1), zero and empty otherwise; a request for an unknown method yields none. gotsrpc.Monitor is called exactly once per call executed and answered, with the decoded arguments and the service's own results, in both encodings; the prometheus wrappers, of any number of services, record the same numbers under the same labels.",
  ["inputs","schedules"],"every method, error kind and encoding, sequentially and concurrently",
  "One existing test checks that a handler is called; what it is told and how often is untested.",
  ["gotsrpc.go","instrumentation.go","monitor.go","prometheus/prometheus.go","go.go"],"RequestWithStatsContext, GetStatsForRequest, ClearStats, Reply's stats, generated Monitor call")
p("P10","Times travel in JSON as integer milliseconds since the epoch, everywhere",
  "In the JSON encoding every time.Time, in whichever position (argument, result, field, pointer, slice, map value), is written as the integer Unix milliseconds of the instant (what TypeScript's generated `number` type promises), and is read back as the same instant truncated to milliseconds; nil pointers are null. This holds for all instants, before 1970 and beyond the int64 nanosecond range included.",
  ["inputs"],"all instants, time zones and positions",
  "There is no test of times; the failures are at range ends and in single positions.",
  ["timeext.go","transport.go"],"TimeExt on the JSON handle, withTimeExt for top-level values")
p("P11","Unions are sent to JSON clients as their one set member",
  "In the JSON encoding a union (a struct whose fields are tagged gotsrpc:\"union\") is written as the value of its first set field alone, without wrapper, wherever it occurs (result, field, slice or map element, behind a pointer), and as null when none is set; sending other values is unaffected. Over msgpack a union round-trips as the struct it is.",
  ["inputs"],"every union type found by the generator, every member and position",
  "Only registered at init by generated code; no unit test reaches the wire format.",
  ["unionext.go","go.go","build.go"],"renderInit registers MustRegisterUnionExt; UnionExt.ConvertExt picks the first non-zero field")
p("P12","GoRPC calls are faithful, executed once and isolated under concurrency",
  "A call through a generated GoRPC client (plain TCP or TLS) executes the addressed method exactly once with equal arguments and returns equal results (up to gob's equating of nil and empty and of pointers to zero and nil), also with many concurrent calls on one client; the stats handler gets exactly one CallStats per call naming package, service and request. If the server is not reachable or stopped the client error is non-nil and results are zero.",
  ["inputs","schedules","fault_sequences"],"every method and value, any number of concurrent callers, server stop at any point",
  "No test starts a GoRPC server.",
  ["go.go","gorpc.go","prometheus/prometheus.go"],"renderGoRPCServiceProxies/Clients: request/response structs registered with gob, handler dispatch by type name")
p("P13","Registered codec extensions apply wherever the type occurs",
  "After SetJSONExt or SetMSGPackExt for a type, values of that type are encoded and decoded through the extension in arguments and results of that encoding at any depth, and only in that encoding; all other types keep travelling unchanged. NewMSGPackEncoderBytes and NewMSGPackDecoderBytes use the same format as the wire.",
  ["inputs"],"every position of the extended type in both encodings",
  "No test registers an extension.",
  ["transport.go"],"SetInterfaceExt/SetBytesExt on the shared handles")
p("P14","A connection survives every answered request and no resources are left behind",
  "After the proxy answered a POST, however early it stopped reading (unknown method, no or short arguments, undecodable body, handler-made response), the rest of the body has been consumed, so that the next request on the same connection is answered correctly. The client closes every response body on every path, so that neither connections nor goroutines accumulate over calls, and no response is delivered to another call.",
  ["histories"],"every sequence of good and bad requests of any body size on one keep-alive connection",
  "Leaks and connection reuse show only over sequences of calls.",
  ["go.go","client.go"],"deferred io.Copy(io.Discard, r.Body) in ServeHTTP; defer resp.Body.Close() in Call")
p("P20","Generated Go code compiles and exposes the whole service",
  "For every service the generator accepts, the generated proxies and clients (TSRPC and GoRPC) compile together with the package, and offer every exported method of the service with its argument and result types in order (plus ctx and a client error), whatever packages, import aliases, names and types it uses; constructors serve and address the configured endpoint.",
  ["programs"],"all service packages built from supported declarations",
  "The examples cover a few hand-picked packages; the claim is over all programs.",
  ["go.go","servicereader.go","typereader.go","build.go"],"Read collects services and types; renderTSRPC*/renderGoRPC*; goType and import aliases")
p("P21","Generated TypeScript typechecks under strict tsc",
  "For every service the generator accepts, the generated TypeScript modules and clients have no error under tsc --strict, whichever Go names, json names, imports, constants and types are used.",
  ["programs"],"all service packages built from supported declarations and mapped packages",
  "The examples' output is never compiled by the tests.",
  ["typescript.go","typscriptclient.go","build.go"],"tsType, renderTypescriptStruct, renderTypescriptClient, commonJSImports")
p("P22","Generated TypeScript types describe the JSON exactly",
  "Every JSON value the proxy sends (and every one the Go client sends) conforms to the generated TypeScript type of that result or argument: same property names with none missing or undeclared, matching primitive kinds, null exactly where declared, absent only where optional, enums, unions, maps, arrays and times included. A declared type is never just `any` unless the Go type is an interface.",
  ["programs","inputs"],"all supported type shapes and all their values",
  "No test relates emitted JSON to emitted types.",
  ["typescript.go","typereader.go","transport.go"],"tsType with nullability and omitempty against what codec's JSON handle writes")
p("P23","The generated TypeScript client calls the Go service correctly",
  "The generated client class calls its transport with the Go method's name and the arguments in order, so that over an HTTP transport posting JSON to endpoint + '/' + method the addressed Go method executes once with equal arguments, and resolves to the single result, to an object with each result under its name (ret, ret_1, ... if unnamed), or to nothing for methods without results; defaultEndpoint is the configured endpoint.",
  ["programs","inputs"],"every method of every accepted service and all JSON-representable arguments",
  "No test runs the TypeScript client.",
  ["typscriptclient.go"],"renderTypescriptClient: method body, argument order, response mapping")
p("P24","Typed constants become TypeScript enums with the same members and values",
  "For every named string or number type in use that has typed literal constants, the generated enum has exactly one member per constant with a value equal to the constant's Go value (at run time), the member name being derived from the constant's; a named scalar without constants is an alias of its primitive type, and union constants merge the members of all their enums.",
  ["programs"],"all literal constant declarations (grouped, several names, negative, char, hex, octal, raw and escaped strings, other packages)",
  "Examples hold two or three constants.",
  ["servicereader.go","typescript.go"],"loadConstantTypes, readConstantLiteral, renderTypescriptStructsToPackages")
p("P25","Generation is deterministic, idempotent and independent of leftovers",
  "Running the generator on the same sources and configuration yields byte-identical Go and TypeScript files every time, whatever the map iteration order, parallelism, working copy's location or generated files left from an earlier run; TypeScript files whose content does not change are not rewritten, and stale generated Go files of a target are replaced or removed. Sources are never modified.",
  ["schedules","histories"],"all runs and all sequences of edits and runs",
  "Map iteration order varies from run to run; tests run it once.",
  ["build.go","typescript.go","servicereader.go","go.go"],"sorted names, updateCode compares before writing, gen files removed first")
p("P26","The generator fails loudly and terminates on what it cannot handle",
  "Given a missing, unparsable or unmapped package, an unresolvable type or scalar, an invalid union, unsupported argument forms (variadic, anonymous struct, pointer to slice), a malformed or missing configuration or wrong usage, the generator terminates with a non-zero status and a message naming the problem; it does not hang, crash with a panic, or exit 0.",
  ["inputs"],"all erroneous configurations and packages of these kinds",
  "Tests only run valid input.",
  ["build.go","servicereader.go","typescript.go","config/config.go","cmd/gotsrpc/gotsrpc.go"],"os.Exit codes in Build, errors from Read, collectTypes' missing types, LoadConfigFile")
p("P27","The configuration selects exactly what is generated and where",
  "Exactly the services listed (tsrpc, gorpc; an empty tsrpc list generating no TSRPC Go code but TypeScript clients for all) get proxies and clients, only exported methods become endpoints, skipTSRPCClient suppresses only the Go client, Go files are written into the target's package directory, TypeScript to the target's and mappings' out files, with imports resolving between them; structs and scalars listed in a mapping are emitted although unused. Several targets of one configuration do not disturb each other.",
  ["configurations"],"all combinations of lists, flags, targets, mappings and paths",
  "One configuration is tested.",
  ["config/config.go","build.go","go.go"],"Target.IsTSRPC/IsGoRPC, getPathForTarget, updateCode, mapping.Structs/Scalars")
p("P30","Packages are resolved as the Go toolchain would resolve them",
  "Types of a package are read from the directory Go would use: inside the configured module by its path, through replace directives (local or versioned), from the module cache at the required version, or from vendor, GOPATH and GOROOT; a package whose path merely shares a prefix with the module's or with a requirement's is never looked up in it. Test files, and types of same-named packages elsewhere, never leak in.",
  ["configurations"],"all module layouts with replace, require, vendor and GOPATH, including prefix-sharing paths",
  "config_test covers loading only.",
  ["gotsrpc.go","config/config.go"],"parseDir, parsePackage, Namespace.Contains")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
