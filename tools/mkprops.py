#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as Python so that it can be commented and diffed)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["src/psrpcore/" + f for f in files],
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Fragment and message headers have the exact MS-PSRP byte layout, both ways",
 "Every fragment that is sent is a big endian object id (8 bytes), fragment id (8 bytes), one flag byte (1 = first fragment, 2 = last fragment), data length (4 bytes) and then exactly that data; every message inside it is a little endian destination (2 when a client sends, 1 when a server sends), message type, runspace pool id and pipeline id (16 little endian bytes each, all zero when there is no pipeline) and then the CLIXML data. "
 "Unpacking reads every field back from the same offset with the same width and byte order, so what one side packs the other side unpacks to the same values (a zero pipeline id becomes 'no pipeline', an optional UTF-8 BOM in front of the data is dropped).",
 ["inputs"], "all object ids, fragment ids, message types, pool/pipeline ids, payload bytes and flag combinations",
 "Tests pack and unpack a handful of fixed messages and mostly compare one side with the other; a coherent change of both sides, or a field width that only matters above a size, passes.",
 ["_payload.py", "_base.py"],
 [("create_fragment/unpack_fragment", "_payload.py"), ("create_message/unpack_message", "_payload.py")],
 observe=["bytes of the payload returned by data_to_send", "values of the events returned by next_event"])

prop("C02", "Outgoing messages are fragmented without loss, reordering, mixing or overrun",
 "Whatever messages are queued and whatever size limits are used for successive reads, the fragments handed to the transport carry every message's bytes exactly once and in order, numbered from 0 without gaps, the last fragment of a message and only that one marked as its end, and messages leave in the order they were queued with increasing object ids. "
 "One payload never exceeds the requested size, and only ever combines messages of the same pipeline (or pool) and the same stream, which are the target and stream reported with it. "
 "A message leaves the queue exactly when its last byte was handed out, and asking for less than one header plus one byte is refused.",
 ["inputs", "histories"], "all queues of messages, all sequences of size limits, all interleavings of queueing and reading",
 "Tests use a few message/limit combinations; arithmetic that is off by one, a missing decrement, or target mixing needs a particular size or queue shape to show.",
 ["_base.py", "_payload.py"],
 [("data_to_send loop and its budget", "_base.py RunspacePool.data_to_send"), ("PSRPMessage.fragment", "_payload.py"), ("prepare_message object id and append", "_base.py")],
 state=[("send buffer", "queued messages in order", "_base.py"), ("object id counter", "next outgoing object id", "_base.py")],
 observe=["data_to_send"])

prop("C03", "Incoming fragments become exactly one event per message, complete and in order",
 "However the received bytes are cut into payloads, a message produces its event only after its end fragment has completely arrived, is assembled from all of its fragments in order and nothing else, and is returned exactly once, messages being returned in the order they were completed. "
 "A fragment that is not the next one of its object is rejected with an error and never becomes part of a message, fragments of different objects may interleave, and bytes of a fragment that is not complete yet stay buffered. "
 "A message whose processing fails is consumed, so the following messages can still be read.",
 ["inputs", "histories", "fault_sequences"], "all fragmentations, interleavings of objects, payload cuts and handler failures",
 "Tests feed whole fragments of one or two messages; partial fragments, interleaved objects and failing handlers in the middle of a queue are not enumerated.",
 ["_base.py", "_payload.py"],
 [("next_event reassembly loop", "_base.py RunspacePool.next_event"), ("receive_data", "_base.py")],
 state=[("receive buffer", "raw bytes not yet unpacked", "_base.py"), ("incoming fragments", "partial messages by object id", "_base.py"), ("incoming messages", "complete messages not yet returned", "_base.py")],
 observe=["next_event"])

prop("C04", "Every message type has one number, one event type and a handler on its receiver",
 "Each of the 31 MS-PSRP message types has its documented number, its own message definition, its own event type whose data is that message, and is acted on by the side that the protocol says receives it. "
 "Sending a message puts the number of its own type on the wire, receiving that number yields the event type of that message carrying the sender's pool and pipeline ids, an unknown number is an error, and something that is no protocol message is refused unless a type is given explicitly.",
 ["inputs", "programs"], "all message types, both sides, all payloads",
 "The mapping is spread over registries, decorators and name based dispatch; a type that falls out of one of them only shows when that very message is exchanged.",
 ["types/_psrp.py", "_events.py", "_base.py", "_client.py", "_server.py"],
 [("PSRPMessageType and the message registry", "types/_psrp.py"), ("event registry", "_events.py RegisterEvent"), ("dispatch by message type", "_base.py _process_message")],
 observe=["next_event", "prepare_message"])

prop("C05", "Runspace pool operations are accepted only in their legal states",
 "For every operation of a client or server runspace pool and every pool state, the operation either performs exactly its documented state transition and sends exactly its documented messages, does nothing, or is refused with the pool state error, as the MS-PSRP pool state machine prescribes. "
 "The state reported by the pool changes only through those operations and the messages of the peer, and a pool with pipelines cannot be closed. "
 "The server tells the client about every state change except the disconnect and connecting ones.",
 ["histories", "inputs"], "all pool states x all operations x all incoming messages, both sides",
 "Tests walk a few legal paths and a few refusals; the full state x operation matrix is not covered.",
 ["_base.py", "_client.py", "_server.py"],
 [("state guards of every operation", "_base.py, _client.py, _server.py"), ("state change helper", "_base.py/_server.py _change_state")],
 state=[("state", "runspace pool state", "_base.py")], observe=["pool.state", "data_to_send", "raised InvalidRunspacePoolState"])

prop("C06", "Pipeline operations are accepted only in their legal states",
 "For every operation of a client or server pipeline and every pipeline state, the operation either performs its documented transition and sends exactly its documented message addressed to that pipeline, does nothing, or is refused with the pipeline state error. "
 "Input, output, stream records, host calls and host responses are only possible while the pipeline is running; starting is only possible when not started, stopped or completed; a pipeline leaves the pool's table only by closing it in a finished or never started state. "
 "The server reports every pipeline state change to the client, which adopts the reported state for that pipeline and no other.",
 ["histories", "inputs"], "all pipeline states x all operations, both sides",
 "Tests cover the happy path and one refusal per operation at most.",
 ["_base.py", "_client.py", "_server.py"],
 [("state guards of every pipeline operation", "_base.py, _client.py, _server.py"), ("PipelineState message", "_server.py ServerPipeline._change_state, _client.py")],
 state=[("state", "pipeline state", "_base.py Pipeline"), ("pipeline table", "live pipelines by id", "_base.py")],
 observe=["pipeline.state", "data_to_send", "raised InvalidPipelineState"])

prop("C07", "A refused or failed operation leaves no trace",
 "When an operation of a pool or pipeline raises, whether because of the state, the protocol version, an unknown call id, a wrong argument or because its message cannot be serialized, no message is queued, no state or runspace limit changes and no outstanding call is forgotten, so the caller can correct the cause and retry. "
 "In particular a pipeline whose start message cannot be serialized is not running, a host response that cannot be serialized can be sent again, and a key exchange is only marked as requested once its message is queued.",
 ["histories", "fault_sequences"], "all operations, states and failure points inside them",
 "Tests assert that the error is raised, not that everything else is unchanged, and never fail the serialization at each point.",
 ["_base.py", "_client.py", "_server.py"],
 [("guards before effects", "_base.py, _client.py, _server.py"), ("record dropped after queueing", "_client.py host_response")],
 observe=["pool and pipeline attributes after an exception", "data_to_send"])

prop("C08", "Calls and responses are correlated by call id, each answered at most once",
 "Every request that expects an answer carries a call id that this pool has not used before (consecutive from 1), and the answer carries the id of the request it answers and is addressed to the pipeline the request came from. "
 "A host call or runspace request is remembered until it has been answered and no longer, answers to unknown or already answered requests are refused, a response of the wrong kind for the request is refused, and calls that return nothing carry the reserved id and are never remembered. "
 "Host calls and responses travel on the prompt response stream, everything else on the default stream.",
 ["histories", "inputs"], "all sequences of calls and responses, all host methods, both sides",
 "Tests answer single calls in order; double answers, unknown ids, several outstanding calls and each void method are only sampled.",
 ["_base.py", "_client.py", "_server.py", "types/_host.py"],
 [("call id counter", "_base.py"), ("outstanding call tables", "_client.py host_response, _server.py runspace_availability_response"), ("void methods", "types/_host.py HostMethodIdentifier.is_void")],
 state=[("outstanding calls", "events by call id", "_base.py"), ("call handlers", "completion handlers by call id", "_base.py")],
 observe=["ids in the messages sent", "raised errors"])

prop("C09", "Runspace limits change only when the server confirmed the new value",
 "Before opening, setting the minimum or maximum is local and sends nothing; setting the value already in use sends nothing; otherwise the new value is requested from the server and takes effect on each side only if and when the server answered that very request with success, for the limit that was requested and with the value that was requested. "
 "The initial limits reach the server with the opening message, and a connecting client takes over the server's limits.",
 ["histories", "inputs"], "all limit values, orders of outstanding requests and answers",
 "Tests confirm or reject one request at a time with one value.",
 ["_client.py", "_server.py"],
 [("set_max_runspaces/set_min_runspaces and their handlers", "_client.py"), ("SetMax/SetMin handlers and availability response", "_server.py")],
 state=[("min/max runspaces", "limits in force", "_base.py")], observe=["max_runspaces", "min_runspaces", "messages sent"])

prop("C10", "Secure strings only ever leave the process encrypted",
 "Whatever object graph a secure string is nested in, the plain text of a secure string is never part of the bytes sent to the peer or of its textual representations: it is encrypted with the session cipher first, and without a session key serialization fails instead of sending it. "
 "What is put on the wire for it is the ciphertext of exactly that text, and a received secure string keeps the ciphertext until it is explicitly decrypted with the cipher it came with.",
 ["inputs", "histories"], "all texts, object graphs and key exchange states",
 "Tests check a few strings; a path on which the text is written unencrypted depends on how the value was created and nested.",
 ["types/_serializer.py", "types/_primitive.py", "_crypto.py", "_base.py", "_clixml_shell.py"],
 [("secure string branch of the serializer", "types/_serializer.py"), ("PSSecureString", "types/_primitive.py"), ("cipher without key fails", "_crypto.py")],
 observe=["serialize", "str/repr of a secure string"])

prop("C11", "Both ends of the key exchange and the session cipher mirror each other",
 "The public key blob a client builds is the one the server parses (RSA 2048, 16 byte MS header, little endian exponent and modulus), the session key blob the server builds is the one the client decrypts (12 byte header, reversed RSA PKCS#1 v1.5 ciphertext), and the session key is 32 fresh random bytes from the system source. "
 "Encryption and decryption of secure strings use the same AES-CBC parameters, zero IV, PKCS#7 padding, text encoding and base64 framing, each step of decryption undoing the corresponding step of encryption in reverse order. "
 "The private key and the session key are never sent in the clear and the client registers a key only from a completed exchange.",
 ["inputs", "histories"], "all keys and texts, both roles",
 "Tests run both directions with this library on both ends, so a coherent deviation from the format, weaker keys or a constant key pass.",
 ["_crypto.py", "_client.py", "_server.py", "_clixml_shell.py"],
 [("key blob formats", "_crypto.py"), ("cipher", "_crypto.py PSRemotingCrypto"), ("key exchange messages", "_client.py exchange_key, _server.py")],
 observe=["PublicKey/EncryptedSessionKey messages", "encrypt/decrypt"])

prop("C12", "Every value is written under the CLIXML element that reads back as its type",
 "Each supported Python and PowerShell type is written under exactly one CLIXML element name, the one MS-PSRP defines for it, and that element reads back as the same type with the inverse text conversion; enums are written with the element of their underlying integer type inside an object carrying their type names. "
 "Integers that do not fit 32 bits are written as 64 bit integers, containers keep every element in order (dictionaries keep key with value), an empty string stays a string, null stays null and an unknown element is an error.",
 ["inputs", "programs"], "all values and nestings of supported types",
 "Tests round trip sampled values per type; dispatch order between overlapping Python types and boundary values decide the element.",
 ["types/_serializer.py", "types/_primitive.py", "types/_collection.py", "types/_enum.py"],
 [("type dispatch of the serializer and deserializer", "types/_serializer.py"), ("element tags", "types/_primitive.py, types/_collection.py, types/_complex.py")],
 observe=["serialize", "deserialize"])

prop("C13", "CLIXML text escaping is complete and reversible",
 "For every string, including control characters, lone surrogates, characters outside the BMP and text that looks like an escape sequence, the written text consists of valid XML characters only and reading it back yields the original string. "
 "Strings, script blocks, URIs, XML documents, property names, progress texts and ToString values all pass through the same escape and unescape.",
 ["inputs"], "all Unicode strings",
 "Tests escape a dozen sample strings out of 1.1 million code points and all their combinations.",
 ["types/_serializer.py"],
 [("escape and unescape functions and patterns", "types/_serializer.py"), ("call sites of both", "types/_serializer.py")],
 observe=["serialize", "deserialize"])

prop("C14", "Serializing or reading a value never changes it",
 "Serializing a value, sending it, or deriving a text from it leaves the value and everything reachable from it exactly as it was, so the same value can be serialized again, to any peer, with the same result. "
 "Deserializing does not change the document it reads.",
 ["inputs", "histories"], "all values and object graphs, repeated serialization",
 "Tests compare the output, not the input afterwards.",
 ["types/_serializer.py", "types/_complex.py", "types/_host.py", "types/_psrp.py", "_command.py", "_pipeline.py"],
 [("serializer", "types/_serializer.py"), ("ToPSObjectForRemoting conversions build a new object", "types/_complex.py, types/_host.py, types/_psrp.py, _command.py, _pipeline.py")],
 observe=["the value after serialize"])

prop("C15", "References in CLIXML denote object and type-name identity",
 "Within one document two objects are written as the same reference only if they are the same object, and a type name reference is used only for the complete identical type name list; every reference id written is declared earlier in the same document and ids are not shared between documents. "
 "Reading resolves each reference to the object or type names declared with that id in the same document.",
 ["inputs"], "all object graphs, equal but distinct values, repeated and nested objects",
 "Equality based sharing only shows with values that are equal but distinct; tests use distinct or identical ones.",
 ["types/_serializer.py"],
 [("reference bookkeeping", "types/_serializer.py _Serializer")],
 observe=["Ref/RefId/TN/TNRef in the document", "identity of the read objects"])

prop("C16", "Documents from the peer only create registered types and keep their type names",
 "Reading a document never runs code or creates objects chosen by the peer beyond the registered type of the first type name, whose constructor is not called; any other object becomes a plain object whose type names are the received ones marked as deserialized. "
 "Properties are stored as values under the received names in the adapted or extended group they came in, and no received name can replace a method or the bookkeeping of an object or of its class. "
 "Only types that asked for it can be rehydrated, and the first type that claims a type name or element keeps it.",
 ["inputs", "programs"], "all documents, all type names, all property names",
 "Tests read benign documents; hostile type and property names are not enumerated.",
 ["types/_serializer.py", "types/_base.py"],
 [("TypeRegistry.rehydrate", "types/_base.py"), ("property population", "types/_serializer.py deserialize"), ("PSType registration", "types/_base.py")],
 observe=["deserialize"])

prop("C17", "Objects, pools and documents never share mutable state by accident",
 "Nothing done to one pool, pipeline, object, event or serializer is observable through another one: instances own their buffers, tables, property lists and type names, class level definitions are not changed by using instances, default arguments are not accumulated into, and operations do not grow hidden state. "
 "The property value found first is the extended one, then the adapted one, and setting a property changes exactly that property of that instance. (Values a caller hands over are held as given, and the single values declared as defaults of a property or as values of an enum are constants of the definition.)",
 ["histories", "programs"], "all numbers and interleavings of instances and operations",
 "Leakage between instances shows only with two of them used in a particular order; tests use fresh instances.",
 ["types/_base.py", "types/_complex.py", "types/_primitive.py", "types/_collection.py", "_base.py", "_clixml_shell.py", "_command.py", "_pipeline.py"],
 [("per instance copy of the type definition", "types/_base.py PSObjectMeta.set_instance"), ("instance attributes created in constructors", "all modules")],
 observe=["class and other instances after an operation"])

prop("C18", "Sized integers and characters stay within their .NET range",
 "An 8, 16, 32 or 64 bit signed or unsigned integer value or character can only come into existence, by construction, arithmetic, enum conversion or deserialization, inside the exact range of its .NET type; anything else raises an error. "
 "Arithmetic on a sized integer (as the left operand, other than division into fractions and the remainder of divmod) yields the same sized type and the value Python computes for it.",
 ["inputs"], "all integers, all integer types, all arithmetic operators",
 "Tests try some limits of some types; each (type, operator, construction path) combination is a separate case.",
 ["types/_primitive.py", "types/_enum.py"],
 [("range check in the constructor", "types/_primitive.py PSIntegerBase"), ("limits per type", "types/_primitive.py")],
 observe=["constructors and operators"])

prop("C19", "Dates and durations keep their value to 100 ns",
 "Writing and reading a date or duration preserves it to the 100 nanosecond tick including sign, days, time zone offset and leading zeros; all unit conversions between days, hours, minutes, seconds, micro- and nanoseconds and ticks use consistent factors on both sides. "
 "Sums, differences, negation, absolute value, truth and the six comparisons of durations (and plain timedeltas, on either side), the sum of a date and a duration and the difference of two dates work on the exact total number of nanoseconds. "
 "Offsets are whole minutes.",
 ["inputs"], "all dates, offsets and durations",
 "Tests use a list of sample values; formatting and stripping faults hit particular digits only.",
 ["types/_serializer.py", "types/_primitive.py"],
 [("date/duration formatting and parsing", "types/_serializer.py"), ("nanosecond arithmetic", "types/_primitive.py")],
 observe=["serialize", "deserialize", "operators"])

prop("C20", "Nothing newer than the peer's protocol version is ever sent",
 "A feature that a protocol version introduced (resetting the runspace state and information records with 2.3, the error/warning/verbose/debug merge settings with 2.2, the information merge setting with 2.3) is used only when the peer's announced version is at least that one, an unknown peer version counting as the oldest; operations are refused with the protocol version error otherwise and optional fields are left out. "
 "The check uses the peer's version, not our own.",
 ["configurations", "inputs"], "all pairs of protocol versions, all gated operations and fields",
 "Tests use two or three versions; each (version, feature) pair is a separate case.",
 ["_client.py", "_server.py", "_command.py", "_pipeline.py", "_payload.py"],
 [("version guards", "_client.py reset_runspace_state, _server.py write_information, _command.py"), ("protocol version constants", "_payload.py")],
 observe=["raised InvalidProtocolVersion", "fields of the messages sent"])

prop("C21", "Every field of a record or command survives its remoting conversion",
 "For each type that is converted for the wire (commands, pipelines, command metadata queries, host information and host UI structures, error, informational, information and progress records, session capability) each field is written under its MS-PSRP property name from that field, and reading takes each field from the property it was written to, so every field comes back with the value it had and no two fields are swapped, dropped or defaulted. "
 "Optional parts are left out exactly when they are absent and read back as absent. (Excepted is what the protocol does not transmit but derives: the position message and script paths of an invocation, the source line of an extent, the default value and attributes of a prompted field, and the end of statement mark of a pipeline's last command.)",
 ["inputs"], "all field values and combinations of optional parts",
 "Tests fill some fields, often with equal or default values, which hides swapped or dropped fields.",
 ["types/_complex.py", "types/_host.py", "types/_psrp.py", "_command.py", "_pipeline.py", "types/_serializer.py", "_events.py", "_server.py", "_client.py"],
 [("ToPSObjectForRemoting/FromPSObjectForRemoting pairs", "types/_complex.py, types/_host.py, _command.py, _pipeline.py"), ("record writers and record events", "_server.py, _events.py")],
 observe=["events of the receiving side compared with the arguments of the sending side"])

prop("C22", "Every host method is called, encoded, decoded and answered consistently",
 "Each of the 56 host methods has its MS-PSRP number, is void exactly when the protocol says so, is requested by the server helper of that name with its arguments in protocol order, is decoded by the client to the documented argument types, and its return value is encoded by the client helper of that name and decoded by the server to the documented type. "
 "Whatever the helper encodes for an argument or result, the other side's decoding turns back into it (cell contents being a non-empty rectangle).",
 ["inputs", "programs"], "all host methods x arguments x results, both directions",
 "Tests call each helper once with sample values; number, order and decode tables are repeated by hand on both sides.",
 ["_host.py", "types/_host.py", "_events.py", "_server.py", "_client.py"],
 [("HostMethodIdentifier", "types/_host.py"), ("ServerHostRequestor/ClientHostResponder", "_host.py"), ("decoding tables", "_events.py")],
 observe=["host call/response events"])

prop("C23", "CLIXML shell output keeps streams, order and the one header",
 "Everything written to the shell emulation comes out exactly once, in order, in the stream it was written to, and the text as a whole starts with the CLIXML marker exactly once, however often data is collected in between. "
 "Reading such texts (each collection is one document) returns every object in the list of its stream, whatever the letter case of the stream name, as the record type of that stream, objects without or with an unknown stream going to the output.",
 ["inputs", "histories"], "all sequences of writes and collections, all streams, all chunkings into documents",
 "Tests write once per stream and collect once.",
 ["_clixml_shell.py", "types/_serializer.py"],
 [("ClixmlShell buffer and marker", "_clixml_shell.py"), ("stream attribute", "types/_serializer.py serialize_clixml/deserialize_clixml"), ("ClixmlOutput.from_clixml", "_clixml_shell.py")],
 observe=["ClixmlShell.data_to_send", "ClixmlOutput.from_clixml"])

prop("C24", "Handshakes send the required messages in order and adopt what was negotiated",
 "Opening sends the session capability and then the pool initialization with the configured limits, thread options, apartment state, host and application arguments; the server answers with its capability, then its application private data, then the opened state, and adopts the client's pool id, limits, options, host and arguments. "
 "Connecting sends the capability and the connect request; the server refuses a different pool id, answers with the limits in force and its private data and becomes opened again, restarting its numbering, and the client adopts limits and private data and becomes opened. "
 "Both sides remember the peer's announced capability.",
 ["histories", "configurations"], "all option values, reconnect histories, both sides",
 "Tests run the handshake with mostly default options, where a swapped or dropped option is invisible.",
 ["_client.py", "_server.py", "_base.py", "_events.py"],
 [("open/connect", "_client.py"), ("handlers of the handshake messages", "_server.py, _client.py, _base.py")],
 observe=["messages sent", "pool attributes after the handshake"])

prop("C25", "The library never does I/O, blocks, sleeps or evaluates peer data",
 "No public operation opens files or sockets, starts processes or threads, sleeps, waits on a lock or queue, reads the console or evaluates or unpickles data; the only outside sources used are the system random source, the clock, the user and host name, the process and thread id and, on Windows, the data protection API. "
 "All bytes go out and come in through the data methods alone, so any transport and concurrency model can drive it.",
 ["programs", "schedules"], "all public operations and everything reachable from them",
 "Absence of an effect on every path cannot be sampled by tests.",
 ["__init__.py", "_base.py", "_client.py", "_server.py", "_clixml_shell.py", "types/_serializer.py"],
 [("no I/O imports or calls in the package", "all modules")],
 observe=["calls into the operating system"])

prop("C26", "A pool behaves the same whatever the speed and memory of its host",
 "The time and memory needed to process a stream of messages grow at most linearly with its size, for every cut into payloads.",
 ["inputs", "schedules"], "all message sizes and payload cuts",
 "Asymptotic cost over all inputs is outside what unit tests sample.",
 ["_base.py", "_payload.py"], [("buffer slicing", "_base.py next_event, _payload.py PSRPMessage.fragment")],
 observe=["CPU time"])

prop("C27", "Real Windows PowerShell peers accept everything this library sends",
 "Every message this library sends is accepted by the PSRP implementation of every supported PowerShell version with the meaning the caller intended.",
 ["inputs", "configurations"], "all messages and all peer versions",
 "Needs the foreign implementation, which is not part of this repository.",
 ["_base.py", "types/_serializer.py"], [("MS-PSRP conformance", "all modules")], observe=["behaviour of a foreign peer"])

prop("C28", "A property holds what was assigned to it, however it is declared and reached",
 "On every PSObject a property reads back the value last assigned to it, converted to its declared type unless it is None or already of it, whether given to the constructor by position or name or assigned by attribute, by index or on the property, and no other property changes; an extended property hides an adapted one of its name, one a class declares again replaces the inherited one, an alias reads its target and a script property calls its getter and setter with the object. "
 "Construction refuses missing mandatory, unknown, repeated and surplus arguments; a property without a setter refuses assignment; adding a member that exists is refused unless forced, which replaces it in its place. "
 "PSObject.ps_isinstance follows the type names, with and without Deserialized.",
 ["inputs", "programs", "histories"], "every kind of declaration, value and way of reaching a property",
 "Tests assign a few values to a few classes; values that are false, equal names and inheritance multiply beyond them.",
 ["types/_base.py"],
 [("PSType.__call__, add_member", "types/_base.py"), ("PSObject.__init__, __getattr__, __setattr__, __getitem__, __setitem__", "types/_base.py"), ("PSPropertyInfo and its subclasses", "types/_base.py")],
 observe=["property values", "exceptions of construction and assignment", "the list of properties"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
import re
for p in P:
    n = len(re.findall(r"[.!?](?:\s|$)", p["statement"]))
    if n > 3: print("sentences", p["id"], n)
print(len(P))
