# Regenerates properties.jsonl (single source for the property texts).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

PS="src/pypsrp/powershell.py"; SH="src/pypsrp/shell.py"; WS="src/pypsrp/wsman.py"; CL="src/pypsrp/client.py"
SE="src/pypsrp/serializer.py"; EN="src/pypsrp/encryption.py"; NE="src/pypsrp/negotiate.py"; PM="src/pypsrp/_pool_manager.py"; HO="src/pypsrp/host.py"
CO="src/pypsrp/complex_objects.py"; ME="src/pypsrp/messages.py"; EX="src/pypsrp/exceptions.py"

prop("C01","Runspace pool lifecycle is a guarded state machine",
 "In every history of open, connect, disconnect, close, reset and min/max calls on a runspace pool, an operation that is legal in the current state performs exactly its one remote lifecycle operation and moves the pool to its documented state, an operation that is already satisfied (open or connect when opened, disconnect when disconnected, close when closed or broken, reset before opening) does nothing, and any other one raises an invalid pool state error, sends nothing and changes nothing. Setting the minimum or maximum runspaces of a pool that is not opened only records the value. When the server rejects an operation the error is raised to the caller and the pool stays in the state it had reached. A broken state reported by the server raises an error and leaves the pool broken, after which none of these operations sends anything.",
 ["histories","fault_sequences"],"all sequences of pool lifecycle calls, with every server answer (accept, fault, broken) to each",
 "Tests drive a handful of straight-line lifecycles against recorded replies; the guard of every call in every reachable state, and the state after each failure, is only reached by enumerating histories.",
 [PS,SH],[("RunspacePool.open/connect/disconnect/close/reset_runspace_state guards",PS),("WinRS.open/close opened flag",SH)],["RunspacePool.state","HTTP requests sent"],[("RunspacePool.state","lifecycle state",PS),("WinRS.opened","remote shell exists",SH)])

prop("C02","Pipeline lifecycle is a guarded state machine",
 "In every history of begin, poll (of a running or stopping pipeline), end, stop, close, connect and create-nested calls on pipelines of a pool (including the pool being disconnected and reconnected), a call that is legal in the pipeline's current state performs exactly its remote operation and moves the pipeline to its documented state, close before starting and stop when stopped do nothing, and any other call raises an invalid pipeline state (or invalid operation) error, sends nothing and leaves every pipeline and the pool as they were. A stop request the server rejects leaves its pipeline stopping. The state reported by the server on a poll becomes the state of that pipeline and of no other. A pipeline the pool has started stays listed in RunspacePool.pipelines until it is stopped or closed. Disconnecting the pool changes exactly the running pipelines to disconnected, so finished ones can still be closed.",
 ["histories","schedules"],"all interleaved call histories over several pipelines of one pool and all server state answers",
 "Tests call each guard at most once in one state; combinations across states, several pipelines, nested pipelines and disconnect/reconnect are never enumerated.",
 [PS],[("PowerShell.begin_invoke/stop/close/connect_async/create_nested_power_shell guards",PS),("RunspacePool.pipelines registry",PS)],["PowerShell.state","HTTP requests sent"],[("PowerShell.state","invocation state",PS),("RunspacePool.pipelines","started and not yet released pipelines",PS)])

prop("C03","Every request addresses the right shell and command",
 "Every request sent on behalf of a pool after it was created, connected or discovered carries that pool's own shell selector and resource URI (for discovered pools the one the server listed), and every request on behalf of a pipeline, except answers to host calls, carries the command id the server assigned to that pipeline, whatever other pools or pipelines exist on the same connection. Closing a pool deletes the remote shell exactly once however often close is called, and nothing is sent for a shell after its delete succeeded. Every request has a fresh message id and the session id of its connection.",
 ["histories","schedules"],"all interleavings of operations over several pools and pipelines with server-assigned ids that differ from the client's",
 "Recorded tests use one pool and a command id equal to the pipeline id, so swapped, stale or missing identifiers are invisible to them.",
 [PS,SH,WS],[("WinRS._selector_set, PowerShell._command_id",SH+", "+PS),("WSMan._create_header",WS)],["SelectorSet, CommandId, ResourceURI, MessageID and SessionId of each HTTP request"])

prop("C04","Pipeline results arrive exactly once, in order, at their pipeline",
 "For every sequence of messages the server emits for the pipelines of a pool, however they are split into fragments, batched into receive replies, interleaved between pipelines or separated by operation timeouts, each pipeline's output list and its error, warning, verbose, debug, information and progress streams hold exactly the objects the server sent to that pipeline on that stream, once each and in order. The pipeline finishes exactly when the server reports a final state for it: waiting on it returns its output then and not before, and had_errors is set exactly when that state (of the current run, when the pipeline is run again) is failed, with the attached error record added to the error stream. Any other fault while polling is raised to the caller.",
 ["schedules","inputs","fault_sequences"],"all message sequences, fragmentations, batchings, interleavings over pipelines and positions of operation timeouts",
 "Tests replay a few recorded exchanges with one pipeline and whole messages; loss, duplication or misrouting under other batchings or interleavings is not sampled.",
 [PS,SH],[("RunspacePool._parse_responses dispatch table",PS),("PowerShell.poll_invoke / end_invoke",PS),("Fragmenter.defragment",PS)],["PowerShell.output","PowerShell.streams","PowerShell.state","PowerShell.had_errors"])

prop("C05","Pool-level messages take effect whoever receives them",
 "Messages addressed to the pool (user events, application private data, initial runspace counts, session capability, pool state) take effect exactly once, in order, on the pool whether they arrive while opening, connecting, polling a pipeline or waiting for a call response. Pool warnings, received without a pipeline on the pool's own stream, are raised as Python warnings and never placed in a pipeline's stream, and messages of unsupported kinds in a reply do not disturb the delivery of the other messages in it.",
 ["schedules","inputs"],"all placements of pool-level messages among pipeline messages and receive replies",
 "Tests see pool-level messages only in the fixed opening exchange.",
 [PS],[("RunspacePool._parse_responses and _process_* handlers",PS)],["RunspacePool.user_events, application_private_data, min/max_runspaces, protocol_version, state"])

prop("C06","Pool calls get their own response and change the view only on success",
 "Setting the minimum or maximum runspaces on an open pool, querying the available runspaces and resetting the pool each send one request with a call id never used before in that pool and complete with the server's response to that very id, whatever other responses or messages arrive before it; a response to a call that was given up earlier is ignored. The client's minimum and maximum change only by an accepted set (or by the server's initial data), and a refused set or reset raises an error and leaves them unchanged; querying never changes them. Setting a value it already has, or setting before opening, sends nothing, and reset is refused without a request when the negotiated protocol is older than 2.3.",
 ["histories","schedules"],"all histories of these calls, accept/refuse answers, and delays of responses behind other messages",
 "Tests make each call once with an immediate positive answer.",
 [PS],[("RunspacePool.ci_table and _ci_counter",PS),("min_runspaces/max_runspaces setters, get_available_runspaces, reset_runspace_state",PS)],["return values","RunspacePool.min_runspaces/max_runspaces","CI values on the wire"])

prop("C07","Outgoing messages are fragmented losslessly within the size limit",
 "For every message and batch of messages the client sends, whatever their sizes relative to the limit, reassembling the fragments on the wire yields exactly those messages, complete and in order, with one object id per message that increases by one over the pool's life (a request the server rejected may leave a gap), fragment ids counting from zero, and the start and end marks on exactly the first and last fragment. No message part travels twice or is left unsent, and no request exceeds the maximum envelope size in force (provided the user does not lower it once the pool exists).",
 ["inputs","histories"],"all message sizes around multiples of the fragment capacity, all batches of such messages, all capacities",
 "Tests fragment a few fixed payloads; off-by-one errors at size boundaries and in the packing of the next message into the remaining space need the boundaries enumerated.",
 [PS,WS],[("Fragmenter.fragment / fragment_multiple",PS),("PowerShell._invoke, RunspacePool.open sending of remaining fragments",PS),("WSMan._calc_envelope_size",WS)],["fragments inside Create, Command and Send requests"])

prop("C08","Incoming fragments reassemble exactly, or are reported",
 "For every way a server may split its messages into fragments, interleave the fragments of different messages, and distribute them over receive replies, each message is delivered exactly once, intact, when its last fragment arrives, and never before. A fragment of a message still incomplete whose number is not the next one expected for it raises a fragment error instead of delivering corrupted or partial data.",
 ["inputs","schedules","fault_sequences"],"all splits and interleavings of fragments, and all single losses, duplications and reorderings of fragments",
 "Tests defragment one or two fixed byte strings.",
 [PS],[("Fragmenter.defragment incoming_buffer",PS)],["objects delivered to PowerShell.output / user_events, FragmentError"])

prop("C09","Pipeline input is sent completely, in order, and terminated once",
 "When input is supplied to a pipeline, every element, in order, reaches the server as one pipeline input message for that very command, followed by exactly one end-of-input message, and the pipeline is created as expecting input; this holds for a single value, for a generator of values or of batches of any lengths, including empty ones, and for generated elements such as None, false, zero or empty strings. Without input the pipeline is created as expecting none and no input message is sent.",
 ["inputs"],"all input shapes: single values, generators with batches of any lengths and falsy elements, empty generators",
 "Tests stream one short generator of non-empty batches.",
 [PS],[("PowerShell.begin_invoke input loop",PS)],["PIPELINE_INPUT and END_OF_PIPELINE_INPUT messages in Send requests","NoInput of CREATE_PIPELINE"])

prop("C10","Envelope size follows the negotiation and never overrides the user",
 "When the server announces protocol 2.2 or newer and the connection still has the default envelope size, the size becomes 512000 bytes and is announced and used for all later requests and fragments of that pool; with an older protocol, or any size set by the user or read from the server's configuration, the size is kept. At any size, the payload capacity used leaves room so that requests stay within the announced size.",
 ["configurations","histories"],"all configured sizes, protocol versions and orders of negotiation, server configuration reads and large sends",
 "Tests check the value after one negotiation and never that later fragments and headers follow it.",
 [PS,WS],[("RunspacePool._process_session_capability",PS),("WSMan.update_max_payload_size",WS)],["MaxEnvelopeSize header and size of each request"])

prop("C11","Secure strings travel only encrypted under one exchanged key",
 "A pool exchanges at most one public key with the server, whether the exchange is asked for by the client, by the server, or by both any number of times; it finishes when the session key arrives and fails with an error when it does not arrive within the configured time. Secure strings can be serialized only after the exchange and then decrypt (alone, as a pipeline argument, inside a credential, or in the answer of the host to a prompt), under the session key the server chose, to exactly the given text; before it they are refused with an error. Secure strings received after the exchange decrypt to the text the server encrypted.",
 ["histories","inputs","schedules"],"all orders of client and server requested exchanges, delays of the key message, and secret texts",
 "Tests perform one recorded exchange with one fixed secret.",
 [PS,SE],[("RunspacePool.exchange_keys / _process_encrypted_session_key",PS),("Serializer._serialize_secure_string / _deserialize_secure_string",SE)],["PUBLIC_KEY messages on the wire","<SS> elements on the wire"])

prop("C12","Each host call runs once and is answered to its own caller",
 "Each host call message the server sends, for the pool or for a pipeline, runs the corresponding host method exactly once with the server's arguments and with the pool and pipeline it belongs to; when the method returns a value exactly one response carrying the same call id, the same method and that value is sent, for that pipeline if it was a pipeline call and for the pool otherwise, and when it returns nothing no response is sent (calls for a pipeline come on that pipeline's own stream). Without a host the calls have no effect. The standard host answers with the name, version and two cultures it was made with and an id of its own, writes what it is told to its output lines in order, its raw user interface setters and getters behave as a store in which a getter returns the last value set, and the host information sent when a pool is opened or a pipeline created describes that host and the current contents of that store.",
 ["schedules","inputs","histories"],"all methods, all interleavings of pool and pipeline host calls with other messages and all histories of setters and getters",
 "Tests run each method once or twice in a recorded script; pairing of call ids, pipelines and store behaviour over histories is not covered.",
 [PS,HO,CO],[("RunspacePool._process_host_call",PS),("PSHost.run_method",HO),("HostMethodIdentifier",CO)],["host method invocations","HOST_RESPONSE messages on the wire"])

prop("C13","Only idempotent receives are retried, identically and boundedly",
 "A receive request that fails with a connect or read timeout is sent again, byte for byte the same message, at most five more times, with growing delays between the attempts, and then the timeout is raised; every other kind of request is sent exactly once and its timeout is raised at once (with no reconnection retries configured, the default). Errors other than these timeouts are never retried. A reply obtained by a later attempt is returned exactly as one obtained by the first.",
 ["fault_sequences"],"all sequences of timeouts, other failures and successes at each attempt, for every kind of request, including the authentication request",
 "Tests inject one or two timeouts in a receive only.",
 [WS],[("_TransportHTTP.send retry loop",WS),("WSMan.receive retries_on_read_timeout",WS)],["HTTP requests sent, sleeps, exception raised"])

prop("C14","Message content never leaves the client in the clear when encryption is due",
 "Message encryption is used exactly when the configuration calls for it: with 'always' in every case, with 'auto' over plain HTTP, and never with 'never' or with 'auto' over HTTPS, and configurations whose authentication cannot provide it are rejected when the connection is set up. When it is used, no message is ever sent unencrypted, on the first attempt or on any retry, each message is encrypted in the security context authenticated last, a context is not used again once a message sent with it failed on its connection or the connection object was closed, and what the server decrypts is exactly the message. Encrypted replies are returned exactly as the server wrote them, in any number of parts, and a reply whose decrypted length differs from the announced one is an error.",
 ["configurations","inputs","fault_sequences"],"all combinations of ssl, authentication and encryption setting; message sizes around the 16 KiB CredSSP chunk; all timeout positions",
 "Tests check some rejected combinations and one encrypted exchange per protocol; the content of retries and the chunk boundaries are not covered.",
 [WS,EN],[("_TransportHTTP.__init__ wrap_required, send",WS),("WinRMEncryption.wrap_message/unwrap_message",EN)],["bytes of each HTTP request"])

prop("C15","Replies are matched to requests and failures are reported faithfully",
 "A reply is returned only if it relates to the message id of the request it answers, and any other reply raises an error. A 401 reply raises an authentication error, an error reply that carries a SOAP fault raises a fault error with the fault's code, machine, reason and provider details (preferring the WSMan fault's own over the generic SOAP ones), and an error reply whose body is not XML raises a transport error with the HTTP status and text. A successful reply is returned unchanged.",
 ["inputs","fault_sequences"],"all combinations of HTTP status, body (none, text, malformed, fault with any subset of detail elements) and related message id",
 "Tests cover a few recorded faults; the combination of missing parts and statuses is not enumerated.",
 [WS,EX],[("WSMan.invoke",WS),("WSMan._parse_wsman_fault",WS),("_TransportHTTP._send_request",WS)],["exception type and fields"])

prop("C16","Liveness probing never opens a connection and is truthful",
 "Probing a pool returns true exactly when the server answered over an already open connection with a shell that is not disconnected; it never opens a new connection, and a closed connection, a connection error (also within the reply), a timeout or a reply saying that the shell is gone or timed out yields false rather than an error, while any other fault is raised. After a false answer closing the pool sends nothing. Closing the connection object closes its idle connections: a probe afterwards is false, and the next other request opens a new connection. Probing does not affect whether other requests, in the same or another thread, may open connections, during or after the probe.",
 ["fault_sequences","schedules","histories"],"all connection states and replies at the probe, histories of probes and other requests, probes in concurrent threads",
 "Tests mock the outcome of a probe; the effect on real sockets, on later requests and on other threads needs histories and interleavings.",
 [PS,PM],[("RunspacePool.is_alive",PS),("DisableNewConnectionsContext context variable",PM)],["return value","TCP connections accepted by the server","later requests"])

prop("C17","A WinRS process collects exactly its output, exit code and state",
 "For every sequence of receive replies for a process, whatever the placement of output chunks on its two streams, operation timeouts, empty and repeated chunks, the collected standard output and standard error are the concatenations of the chunks the server sent on each, the exit code is the one the server reported, and waiting ends exactly when the server reports the command done. Data and signals sent to the process arrive unchanged, with their end mark, for that very command; faults other than the operation timeout are raised. A process that is done can be run again and then starts without the output, exit code and state of the previous run.",
 ["schedules","inputs","fault_sequences"],"all sequences of receive replies and all interleavings of send, signal and poll over several processes",
 "Tests replay a few recorded processes.",
 [SH],[("WinRS.receive, Process.poll_invoke/end_invoke/send/signal",SH)],["Process.stdout, stderr, rc, state","Send and Signal requests"])

prop("C18","Copying a file delivers its exact bytes and checksum",
 "For a file of any content and size, copying it streams to the remote script base64 chunks that concatenate to exactly the file's bytes, followed by one final element that is the checksum of those bytes, in a pipeline given the destination and expansion choice unchanged, and returns the path the server reported. Chunks respect the payload size in force, an error on the remote side raises an error, and remote warnings are passed on.",
 ["inputs","configurations","fault_sequences"],"all file contents and sizes around multiples of the chunk size, including empty, payload sizes, and remote outcomes",
 "Tests copy a few small files and one recorded large one.",
 [CL],[("Client.copy read_buffer generator",CL)],["PIPELINE_INPUT messages on the wire","return value"])

prop("C19","Fetching a file replaces the destination only with verified content",
 "Fetching a remote file of any content, sent by the remote script in any number of chunks, leaves at the destination exactly the bytes whose checksum the remote side reported. If the remote script reports errors or the checksum does not match the received data, an error is raised and an existing destination file is left untouched (and a missing one is not created). No temporary file remains in any case.",
 ["inputs","fault_sequences"],"all contents, chunkings, corruptions of data or checksum, remote errors, with the destination present or absent",
 "Tests fetch one small file and one with a wrong hash.",
 [CL],[("Client.fetch temporary file, hash check",CL)],["destination file, temporary directory, exception"])

prop("C20","The pipeline sent is the pipeline built",
 "For every sequence of builder calls (commands, scripts, Command objects with arguments and merges of their own, arguments, parameters, statement separators, merges, clearing), the pipeline the server receives contains exactly the built statements and commands in order, each with its kind, local-scope choice and its arguments in order with names and values, and with the stream merges last chosen in the encoding of the negotiated protocol version. Merges a protocol version does not support, and unknown targets, are refused with an error and change nothing. Invocation options (history, apartment state, error redirection, stream options, nested) are transmitted as given.",
 ["programs","configurations"],"all builder call sequences for each negotiated protocol version",
 "Tests check some builder calls in isolation.",
 [PS,CO],[("PowerShell.add_*/merge_* and _set_merge_to",PS),("Pipeline and Command serialization",CO)],["CREATE_PIPELINE message on the wire"])

prop("C21","Strings survive the CLIXML escaping in both directions",
 "Every string of Unicode characters (leaving out lone surrogates and the noncharacters U+FFFE and U+FFFF), as a value or as the name of a property, including control characters, characters outside the basic plane, underscores and text that looks like an escape sequence, is written so that a receiver following the documented escaping (UTF-16 code units as _xHHHH_) reads exactly that string, and is read back unchanged by this library. Every string a server writes with that escaping is read as exactly what the server meant, and text that is not an escape sequence is never altered.",
 ["inputs"],"all strings over an alphabet of the characters that interact with escaping, all positions",
 "Tests use a dozen strings; the escape grammar has interactions between adjacent characters.",
 [SE],[("Serializer._serialize_string / _deserialize_string",SE)],["<S> element text and deserialized value"])

prop("C22","CLIXML values keep their structure, types and references",
 "Nested lists, dictionaries, queues, and objects with properties made of primitive values are written as documents in which every object has its own reference id, every type reference names exactly that object's types, each element carries its value's own type, and reading the document gives back an equal value. Reading a server's document resolves every object and type reference to what it refers to, wherever in the document the referred element stands before it, keeps the order of elements, and leaves no state that affects the next document (also when the caller changes what he got). Writing a value leaves the value as it is, and a value that was serialized before keeps its meaning in any document it is put into. (Left out: an untyped object that follows a value in a list whose types do not say that it holds any object; the test suite has it come back as XML text.)",
 ["inputs","histories"],"all small nestings of containers and objects with shared types, and sequences of documents through one serializer",
 "Tests serialize a set of fixed objects one at a time.",
 [SE,CO],[("Serializer.serialize/deserialize, _create_tn, _get_obj_id, obj/tn maps",SE)],["XML documents and deserialized values"])

prop("C23","Negotiate authentication follows the challenge exchange exactly",
 "On a 401 challenge the client picks an offered scheme compatible with its configuration (Negotiate before Kerberos before NTLM; a specific provider goes with itself or with Negotiate) and refuses, with an error and without sending credentials, when there is none; the security context is made with the configured credentials, service, host name and delegation and, over TLS, bound to the server's certificate unless that is switched off; it then sends each token of its security context exactly once, in order, under the offered scheme name, feeds each server token into the context exactly once, and stops when the context is complete with nothing left to send or when the server sends no token. The last response is what the caller gets, a rejected authentication raises an authentication error, and each new challenge for a host uses a fresh security context, kept per host.",
 ["fault_sequences","configurations"],"all offered scheme sets and configured providers, token exchange lengths, and servers that stop early, reject or omit tokens",
 "Tests mock single exchanges of fixed length.",
 [NE,WS],[("HTTPNegotiateAuth.response_hook/handle_401",NE)],["Authorization headers sent, tokens given to the security context, exceptions"])

prop("C24","Disconnected pools are discovered and resumed with their pipelines",
 "Listing the remote pools yields one pool per remote shell in order, each with its own id, in the disconnected state, with one disconnected pipeline per remote command of that shell and no other. Connecting such a pool performs the new-client handshake once and makes it open with the settings the server reports, and connecting its pipelines delivers their remaining output; a pool disconnected by this client reconnects without a handshake, and its running pipelines resume with no output lost or repeated.",
 ["histories"],"all sets of remote shells and commands, and histories of disconnect, reconnect, list and connect",
 "Tests replay one recorded listing with one pool and one pipeline.",
 [PS],[("RunspacePool.get_runspace_pools, _connect_new_client, _connect_existing_client",PS),("PowerShell.connect_async",PS)],["RunspacePool and PowerShell objects returned, HTTP requests"])

prop("C25","Convenience calls always release the remote shell and return its results",
 "Running a command or a script through the client opens one remote shell of the configuration asked for, runs exactly what was given (with the environment variables given, in order), and returns the decoded output, streams and exit code or error flag the server reported. Whatever single failure happens after the shell was opened (a fault or connection error at any later request, a failing pipeline), the deletion of the shell is asked for exactly once, and that error is raised to the caller.",
 ["fault_sequences","inputs"],"all positions of a fault among the requests of the call, and all results",
 "Tests run the success path and none of the cleanup paths.",
 [CL,SH,PS],[("Client.execute_cmd / execute_ps with-blocks",CL),("WinRS.__exit__, RunspacePool.__exit__",SH)],["requests sent, return value, exception"])
prop("C26","Every request says exactly what the caller asked for",
 "For every configuration of a connection and every operation on it, the request goes to the configured endpoint (scheme, host including IPv6 literals, port and path, with the default port of the scheme), and carries the action of the operation, the resource URI, the options in the order they were added with their values and attributes, the selectors, the body given, the configured locales, the announced envelope size and the operation timeout of the call (also of polls, receives and probes of pipelines, processes, shells and pools), or of the connection if the call gave none; the HTTP connect and read timeouts are the configured ones, and at least two seconds more than the operation timeout for calls that give their own.",
 ["inputs","configurations"],"all combinations of endpoint settings, operations, option and selector sets, timeouts and locales",
 "Tests compare whole recorded requests for a few configurations; combinations (a call with its own timeout after one without, options with attributes, IPv6 with a port) are not enumerated.",
 [WS],[("WSMan.invoke / _create_header",WS),("OptionSet, SelectorSet",WS),("_TransportHTTP._create_endpoint, send",WS)],["URL, headers, timeout and envelope of each HTTP request"])
prop("C27","Command shells are created as configured, addressed as created, and deleted once",
 "Opening a command shell sends one create request with exactly the settings given (id, streams, environment in order, idle timeout, lifetime, name, working directory, profile and code page options, after the options given to the call, which are left as they are); opening it again while it is open, and closing it when it is not open, sends nothing, and an open or close the server rejects raises the error and changes nothing. Every later request carries all selectors the server gave for that shell, closing deletes it once, also when a with block ends by an exception, which reaches the caller, and a closed shell can be opened again with its settings. Receiving returns for each requested stream exactly the bytes sent on it with the state and exit code reported, and sent data arrives unchanged.",
 ["histories","configurations"],"all histories of open, close, with, receive and send, for all combinations of settings and server answers",
 "Tests open a shell once per recorded configuration and never reopen one.",
 [SH],[("WinRS.open/close/receive/send, _parse_shell_create",SH)],["Create, Delete, Receive and Send requests","return values"])
prop("C28","Command metadata queries report every command the server lists, exactly",
 "A metadata query on an opened pool sends one query with exactly the name patterns (a single string is a list of one), command types, namespaces and arguments given, and returns one CommandMetadata per command the server lists, in its order and however its answer is split over replies, with the name, namespace, help address, command type (value and text), output types and all parameters (name, type, aliases, switch and dynamic flags) the server reported, absent ones as None; the count the server sends first is not among them. On a pool that is not open the query sends nothing and raises an invalid state error, a refused or failed query raises, and a query changes neither the pool nor its other pipelines.",
 ["inputs","histories"],"all queries, all lists of commands and parameters with any subset of absent fields, at any point of the pool's life",
 "One recorded session with three queries is replayed; only names are compared.",
 [PS,CO],[("RunspacePool.get_command_metadata",PS),("CommandMetadata, ParameterMetadata, CommandType",CO)],["GET_COMMAND_METADATA message","returned list"])
prop("C29","Stream records say exactly what the server reported",
 "Every error, warning, verbose, debug, progress and information record the server sends for a pipeline, and the error of a failed pipeline, appears once, in order, in that stream of that pipeline only, as the library's record class, with each documented attribute equal to what the server sent for it, enumerations with their value and name, lists and dictionaries with all elements in order, the invocation and command details whenever they are there, and None for what the server left out or sent as null. The text of the record is the text the server gave. Records that the pipeline puts out as values come back as the same classes, in its output. A record sent on to another pipeline, as an argument or as input, says there what it said when it was received; a record made with its constructor (an error apart) says what it was made with.",
 ["inputs","histories"],"all record kinds with any subset of absent or null fields in any order of fields, in any history of records over several pipelines",
 "Tests check a few attributes of one or two recorded records per kind.",
 [CO,SE],[("ErrorRecord, InformationalRecord, ProgressRecord, InformationRecord",CO),("ErrorRecordMessage, WarningRecord, VerboseRecord ... unpacking","src/pypsrp/messages.py")],["PowerShell.streams"])
prop("C30","Known .NET types and the library's classes stand for each other in both directions",
 "A value of a known .NET type that a pipeline puts out comes back as an object of the library's class for it with every field (for an enumeration: number and name) that the server sent: the enumerations, coordinates, sizes, keys, cultures and counts of the protocol, whether it stands alone, in an array, a generic list, collection or dictionary of its type, in an untyped container, or as a property, nested in any way, and with or without the Deserialized prefix of its types. Primitive values in such containers come back as the Python value of their type. An object of these classes given as an argument, in any nesting, is sent with the types, text, fields and element types of the .NET type it stands for, and an Array with its elements in order and its lengths; an object that came from a pipeline is sent on as what it was.",
 ["inputs"],"all values of the enumerations, all classes in all containers, pairs of containers, random nestings",
 "Tests read or write one object of a few of the classes.",
 [CO,SE],[("Serializer.deserialize structures table, _deserialize_obj, _serialize_obj",SE),("Enum classes, Coordinates, Size, KeyInfo, KeyInfoDotNet, CultureInfo, Array, BufferCell",CO)],["PowerShell.output","CREATE_PIPELINE message"])
prop("C31","Connections are made as configured: route, trust, identity and number of attempts",
 "A request reaches the server by the configured route: through the proxy given (http requests whole, https requests through a CONNECT tunnel, the proxy's credentials to the proxy only), else, unless no_proxy is set or the environment's NO_PROXY covers the server, through the proxy the environment names for the scheme, else directly. Over TLS nothing is sent to a server whose certificate is not trusted by the configured authorities (cert_validation True, False or a path, REQUESTS_CA_BUNDLE), is expired or names another host. Every request carries the credentials configured (user and password, or the client certificate, whose key may be encrypted), and missing ones are a ValueError before anything is sent. A refused connection attempt is repeated at most reconnection_retries times, also through a proxy, and a request that was sent is never sent a second time because its connection was lost. An idle connection is used again, and a closed connection object opens a new one on the next request.",
 ["faults","inputs"],"all configurations of route, trust and credentials with short histories; random configurations with longer ones",
 "Tests check the attributes of the requests session that is built, not what reaches a server or a proxy.",
 [WS,"src/pypsrp/_pool_manager.py"],[("_TransportHTTP._build_session, send",WS),("create_request_adapter, HTTPSAdapterWithKeyPassword","src/pypsrp/_pool_manager.py")],["WSMan(...)","WSMan.get"])
prop("C32","A runspace pool opens with exactly the settings given and reports the server's",
 "Opening a pool sends a create request for the configuration named, with the pool's own id, its input and output streams, the required protocol version option, the idle timeout and the no-profile option exactly when given, carrying first the client's session capability and then the settings: minimum and maximum runspaces, thread options and apartment state (number and name), what the host given has (nothing, no user interface, no raw user interface, or all with its default data), and the application arguments given, nested in any way, or none. A refused opening raises the error, changes nothing, and opening again announces the same. Every pipeline of the pool, nested ones too, announces the same host and the apartment state given for it or else the pool's. Once open the pool reports the protocol and serialization versions, the private application data and the runspace counts the server sent (its own if none). Several pools of one connection keep their settings apart.",
 ["inputs","histories"],"every pair of settings, random settings of two pools with random nested arguments, refused openings, several pipelines",
 "Tests open pools with one or two settings against recorded replies.",
 [PS,"src/pypsrp/messages.py"],[("RunspacePool.__init__, open, _process_session_capability, _process_application_private_data",PS),("InitRunspacePool, CreatePipeline","src/pypsrp/messages.py"),("HostInfo",CO)],["RunspacePool(...)","RunspacePool.open","PowerShell.begin_invoke"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
