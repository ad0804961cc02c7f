"""The properties, in plain text."""


def register(prop) -> None:  # pylint: disable=too-many-statements
    """Register all properties."""
    prop(
        "C01",
        "Primitives encode, decode, bound and scale values exactly",
        "Every primitive type encodes each representable value to exactly "
        "the bytes of its documented width and byte order and decodes them "
        "back to the same value, for every encoding route (bytes, stream, "
        "assignment) and byte order. Integer types report exact bounds and "
        "accept and clamp precisely the values within them, and scaled "
        "values are the scaling polynomial of the raw value in both "
        "directions. A copy of a primitive keeps its value, scaling and "
        "time source, and is independent of the original.",
        ["inputs"],
        "all primitive types x byte orders x every raw value of 8 and 16 bit "
        "types and the boundary values of wider ones x scaling polynomials "
        "with invertible terms",
        "Tests sample a few values per type; mistakes at a boundary, for one "
        "byte order or for one type stay invisible.",
        [
            "primitives/base.py",
            "primitives/int.py",
            "primitives/float.py",
            "primitives/bool.py",
            "primitives/scaling.py",
            "primitives/types",
        ],
        [
            ("encode / decode through struct formats", "primitives/base.py"),
            ("integer bounds and clamping", "primitives/types/bounds.py"),
            ("scaling and inversion", "primitives/scaling.py"),
        ],
        "exploration",
        "exhaustive enumeration of a bounded input space on the real code "
        "against an independent reference codec",
        "Exhaustive for 8/16 bit raw values and for all listed boundary "
        "values of wider types; constant (single term) scalings are excluded "
        "because they cannot be inverted.",
        observe=["Primitive API", "encoded bytes"],
    )
    prop(
        "C02",
        "Value changes are reported exactly, and updates are time stamped",
        "Every registered value-change callback is called exactly once for "
        "every assignment that changes the stored value, with the old and "
        "the new stored value, in registration order, whichever route "
        "(attribute, method, decode, increment, toggle) changed it, and "
        "never for an assignment that leaves the value as it was. A callback "
        "registered as one-shot is called for one change only, a removed "
        "one never again, and callbacks may register and remove callbacks. "
        "The last-updated time of a primitive is the time of its most recent "
        "assignment, and its age and last-updated time are taken from its "
        "own time source.",
        ["histories"],
        "all sequences of assignments, registrations and removals (also from "
        "within callbacks) up to the depth, for every primitive type",
        "Tests register one callback and change the value once or twice; "
        "the guarantee is about histories that interleave registration, "
        "removal and every assignment route.",
        ["primitives/base.py", "primitives/int.py", "primitives/bool.py"],
        [("register_callback / remove_callback / value", "primitives/base.py")],
        "model_checking",
        "explicit-state exploration of operation histories on the real "
        "object next to a reference model",
        "Exhaustive up to the stated depth; states are compared after every "
        "operation.",
        observe=["callbacks received", "last_updated_ns", "age_ns"],
    )
    prop(
        "C03",
        "Waiting for a value and sampling never miss or invent an event",
        "Waiting for a primitive or an environment's channel (to change, "
        "reach a state, or satisfy a comparison) succeeds if and only if a change satisfying it is made "
        "before the deadline (or the condition already holds), and times "
        "out at the deadline otherwise, whatever changes are interleaved. "
        "Sampling a primitive delivers every change made during the sampling "
        "interval exactly once and in order, with its time stamp. No wait "
        "or sample leaves a callback registered behind.",
        ["schedules", "histories"],
        "all sequences of changes and their timings relative to the event "
        "loop and the deadline, including cancellation, up to the bound",
        "Tests use real time and a single ordering; lost wake-ups and races "
        "with the deadline need particular schedules.",
        [
            "primitives/evaluation.py",
            "primitives/base.py",
            "primitives/bool.py",
            "channel/environment/base.py",
        ],
        [("evaluate, sample_for", "primitives/evaluation.py")],
        "model_checking",
        "stateless exploration of all schedules under a virtual event loop",
        "Exhaustive for up to the stated number of changes and all their "
        "timings; comparisons of negative-slope scaled values are excluded.",
        observe=["result of the wait", "samples delivered", "callbacks left"],
    )
    prop(
        "C04",
        "Bit fields stay inside their bits and survive export",
        "Setting a bit field or flag changes exactly the bits it claims and "
        "reading it returns the value last set, for every position and "
        "width, raw value and assigned value; values wider than the field only "
        "lose their excess bits. Allocated fields never overlap, lie within "
        "their primitive, and a rejected allocation leaves everything as it "
        "was. Exporting bit fields and loading them (or copying them) yields "
        "the same layout, names, enumerations, descriptions and values.",
        ["inputs", "histories"],
        "all field positions x raw values x assigned values for 8 bit "
        "storage, boundary patterns for wider storage; all allocation "
        "histories up to the depth",
        "Tests use a handful of layouts; isolation is a statement about all "
        "layouts and values.",
        [
            "primitives/field/__init__.py",
            "primitives/field/fields.py",
            "primitives/field/manager",
        ],
        [
            ("masks and shifts", "primitives/field/__init__.py"),
            ("allocation", "primitives/field/fields.py"),
            ("managed fields", "primitives/field/manager"),
        ],
        "model_checking",
        "exhaustive enumeration plus explicit-state exploration of "
        "allocation histories against a bit map model",
        "Exhaustive for 8 bit storage and for allocation histories up to the "
        "stated depth.",
        observe=["raw value", "field values", "exported dictionaries"],
    )
    prop(
        "C05",
        "Names and identifiers in a registry are always one-to-one",
        "In every registry (names, channels, enumerations, booleans) each "
        "registered name has exactly one identifier and each identifier one "
        "name, both lookups agree at all times and existing assignments "
        "never change. A registration that conflicts, or uses an invalid or "
        "taken name or identifier, is rejected and leaves the registry as it "
        "was. Exporting a registry and loading it gives the same names, "
        "identifiers, order and items, and later registrations never reuse a "
        "loaded identifier.",
        ["histories"],
        "all histories of registrations, conflicting registrations, bulk "
        "loads and exports up to the depth",
        "Tests exercise one registration order; broken bijections need a "
        "rejected or conflicting operation somewhere in a longer history.",
        ["mapping.py", "registry", "channel/registry.py", "enum/registry.py"],
        [
            ("two way mapping", "mapping.py"),
            ("identifier allocation", "mixins/regex.py"),
            ("registry loading", "registry/__init__.py"),
        ],
        "model_checking",
        "explicit-state exploration of operation histories against a pair of "
        "dictionaries",
        "Exhaustive for the listed names and identifiers up to the depth.",
        observe=["lookups in both directions", "exported JSON"],
    )
    prop(
        "C06",
        "Runtime enumerations translate both ways and survive export",
        "For every runtime enumeration (integer or boolean), translating a "
        "member name to its value and back gives the same member, lookups by "
        "name, value or text agree with each other, and unknown names or "
        "values are rejected. Duplicate names or values and members of the "
        "wrong type are rejected without effect. An enumeration built from a "
        "class, dictionary or exported JSON has the same members, primitive "
        "type and identifier, whichever way it is built.",
        ["histories", "inputs"],
        "all histories of member registrations, reloads and lookups up to "
        "the depth, and all small item sets",
        "Tests build two enumerations; consistency after rejected or mixed "
        "operations is never looked at.",
        ["enum/__init__.py", "enum/registry.py", "enum/types.py", "mapping.py"],
        [("enumeration lookups", "enum/__init__.py")],
        "model_checking",
        "explicit-state exploration of operation histories against a "
        "dictionary",
        "Exhaustive up to the stated depth and item sets.",
        observe=["lookups", "exported JSON"],
    )
    prop(
        "C07",
        "Arrays and chunks have an exact layout and share no bytes",
        "A primitive array, chunk, string or a chain of them encodes to the "
        "concatenation of its elements in order and byte order, with the "
        "length it reports, and decoding the bytes restores every element "
        "and leaves all bytes that follow. The byte positions, lengths and "
        "fragments an array reports match that layout and setting one "
        "element or updating part of an array changes only those bytes. "
        "Copies are equal and independent, and rejected updates have no "
        "effect.",
        ["inputs", "histories"],
        "all element sequences of the primitive types up to the length, all "
        "byte orders, chains, fragments and partial updates; all chunk "
        "lengths and texts of the listed sets",
        "Tests use one layout; alignment, byte order and offsets of other "
        "sequences are not exercised.",
        [
            "primitives/array",
            "primitives/serializable",
            "primitives/string.py",
        ],
        [
            ("array layout and fragments", "primitives/array"),
            ("chains", "primitives/serializable/base.py"),
            ("prefixed chunks", "primitives/serializable/prefixed.py"),
        ],
        "model_checking",
        "exhaustive enumeration of layouts plus exploration of update "
        "histories against an independent reference codec",
        "Exhaustive up to the stated sequence lengths.",
        observe=["encoded bytes", "element values", "byte positions"],
    )
    prop(
        "C08",
        "Protocol copies and JSON descriptions are equivalent to the original",
        "A protocol's bytes are the concatenation of its fields in the order "
        "they were added, and a value written under a field's name is read "
        "back under that name and changes no other field; fields with names "
        "that are taken are rejected without any effect. A copy of a "
        "protocol, and a protocol loaded from its exported JSON description, "
        "has the same fields, enumerations, sizes, values and bytes, decodes "
        "whatever the original encodes, and is independent of it. Exporting "
        "modifies nothing and honors whether enumerations are resolved.",
        ["programs", "inputs"],
        "all protocols with up to the bounded number of fields of every "
        "kind, byte orders, and assignment sequences",
        "Tests describe one or two protocols; combinations of field kinds "
        "and copies of copies are not covered.",
        ["codec/protocol", "codec/system"],
        [
            ("field registration and access", "codec/protocol/base.py"),
            ("export and import", "codec/protocol/json.py"),
            ("copies", "codec/protocol/base.py"),
        ],
        "model_checking",
        "bounded enumeration of all protocol definitions with differential "
        "comparison of original, copies and reloaded descriptions",
        "Exhaustive up to the stated number of fields; JSON descriptions of "
        "protocols with serializable members are not supported by the code "
        "and excluded.",
        observe=["encoded bytes", "field values", "JSON"],
    )
    prop(
        "C09",
        "Prefixed message streams survive every chunking of their bytes",
        "The receiver of a size-prefixed message stream gets exactly the "
        "messages that were sent, whole, in order and once each, as soon as "
        "their last byte arrived, however the bytes are divided into "
        "deliveries and whatever the payloads (including empty ones and "
        "ones that look like prefixes). A consumer that stops early or fails "
        "on one message, or a message that can't be decoded, doesn't disturb "
        "the messages that follow. A message too long for its prefix is "
        "rejected without being sent.",
        ["inputs", "schedules"],
        "all message sequences up to the length x all chunkings x prefix "
        "widths x byte orders x consumer behaviours",
        "Tests deliver whole messages over local sockets; split prefixes and "
        "payloads depend on timing they can't control.",
        [
            "message/__init__.py",
            "net/stream/base.py",
            "net/stream/string.py",
            "net/stream/__init__.py",
        ],
        [
            ("MessageProcessor", "message/__init__.py"),
            ("PrefixedMessageConnection", "net/stream/base.py"),
        ],
        "model_checking",
        "exhaustive enumeration of message sequences, chunkings and delivery "
        "schedules under a virtual event loop",
        "Exhaustive for the listed payloads and up to the stated number of "
        "bytes; longer streams with every combination of two cuts.",
        observe=["messages delivered", "bytes sent"],
    )
    prop(
        "C10",
        "Every JSON request gets its own response, exactly once",
        "A pending JSON request resolves with the response to that request "
        "if it arrives in time and times out at its deadline otherwise, "
        "whatever the order, delay, loss or duplication of responses and "
        "however many requests are in flight in both directions. Every "
        "incoming request with an identifier is answered once with that "
        "identifier and the results of its handlers, unknown keys are "
        "reported, and responses are never answered. Requests that were "
        "abandoned leave nothing behind and staged log records reach the "
        "peer exactly once.",
        ["schedules", "fault_sequences"],
        "all response times, orders, groupings, losses and duplications for "
        "concurrent requests; all request times and latencies of two "
        "endpoints; all pairs of incoming message kinds",
        "Tests run requests one at a time over an ideal connection.",
        [
            "message/interface.py",
            "message/handlers.py",
            "net/stream/json/__init__.py",
        ],
        [
            ("wait_json / process_json", "message/interface.py"),
            ("process_message", "net/stream/json/__init__.py"),
        ],
        "model_checking",
        "stateless exploration of all event schedules under a virtual event "
        "loop",
        "Exhaustive for the stated numbers of requests and event times.",
        observe=["response of each request", "messages sent"],
    )
    prop(
        "C11",
        "HTTP messages survive every chunking and responses match their requests",
        "Request and response headers encode and parse back to the same "
        "values. A stream of HTTP requests or responses is parsed into the "
        "same messages with the same bodies however the bytes are divided "
        "into deliveries, and a consumer that stops early or fails doesn't "
        "see a message twice or lose later ones. A server answers pipelined "
        "requests once each and in order. A client's request receives its own "
        "response, also when earlier requests were abandoned or time out, and "
        "unblocks when the connection ends.",
        ["inputs", "schedules"],
        "all methods, targets, versions, statuses and header values of the "
        "lists; all message sequences up to the length x chunkings; all "
        "handler delays, abandonments and response times",
        "Tests send whole messages through an ideal local connection.",
        [
            "net/http/header.py",
            "net/http/request_target.py",
            "net/http/response.py",
            "net/http/state.py",
            "net/tcp/http/__init__.py",
        ],
        [
            ("HttpMessageProcessor / HeadersMixin", "net/http/__init__.py"),
            ("HttpConnection", "net/tcp/http/__init__.py"),
        ],
        "model_checking",
        "exhaustive enumeration of messages, chunkings and event schedules "
        "under a virtual event loop",
        "Exhaustive for the listed values and up to the stated lengths.",
        observe=["parsed messages", "bytes sent", "response of each request"],
    )
    prop(
        "C16",
        "A connection's session always ends completely, whatever ends it",
        "Processing a connection initializes it, delivers what arrives in "
        "order and transmits queued messages in order and once, and ends as "
        "soon as initialization fails, a handler returns false or raises, "
        "sending fails, the peer closes, the connection is disabled, the "
        "stop signal is set or the task is cancelled. When it ended, the "
        "connection is disabled, its transport is closed, waiting for it to "
        "initialize completes, none of its tasks are left behind and other "
        "sessions aren't affected.",
        ["schedules", "fault_sequences"],
        "all initialization outcomes x handler outcomes x ways and times of "
        "ending for TCP, UDP and websocket connections, including every step "
        "of the scheduler",
        "Tests end sessions in one order at whatever step the scheduler "
        "happens to be.",
        [
            "net/connection.py",
            "net/tcp/connection.py",
            "net/udp/connection.py",
            "net/websocket/connection.py",
        ],
        [
            ("Connection.process / disable", "net/connection.py"),
            ("TcpConnection", "net/tcp/connection.py"),
        ],
        "model_checking",
        "stateless exploration of event schedules and fault points under a "
        "virtual event loop and in-memory network",
        "Exhaustive for the listed outcomes, times and scheduler steps.",
        observe=["messages", "tasks left over", "transport state"],
    )
    prop(
        "C17",
        "Managed connections are all processed, restarted and shut down",
        "A connection manager processes every connection it's given, one "
        "session at a time. Connections with automatic restart are started "
        "again after they were lost until the manager stops, without being "
        "affected by late reports of their previous transport and counted "
        "once per restart; others are forgotten and closed. The number of connections "
        "matches the active ones, a failing connection doesn't disturb others "
        "and when the stop signal is set every active session ends and the "
        "manager returns.",
        ["schedules", "fault_sequences"],
        "all arrival, loss, refusal and stop times of TCP and UDP "
        "connections, including every step of the scheduler",
        "Tests lose connections once, at one point.",
        [
            "net/manager.py",
            "net/connection.py",
            "net/tcp/connection.py",
            "net/udp/connection.py",
        ],
        [
            ("ConnectionManager.manage", "net/manager.py"),
            ("restart", "net/tcp/connection.py"),
        ],
        "model_checking",
        "stateless exploration of event schedules and fault points under a "
        "virtual event loop and in-memory network",
        "Exhaustive for the listed numbers of connections and event times.",
        observe=["sessions", "number of connections", "transport state"],
    )
    prop(
        "C18",
        "Retries back off exponentially, up to the cap, and give up when told",
        "The first attempt isn't delayed and each later attempt waits twice "
        "as long as the one before, never longer than the cap, for any "
        "number of attempts and whatever caused failures; resetting starts "
        "over. After the maximum number of tries the backoff gives up. "
        "Creating or restarting TCP and UDP connections makes attempts at "
        "exactly these times until one succeeds, and a stop signal ends it.",
        ["inputs", "fault_sequences"],
        "all intervals x caps x limits x operation sequences; all failure "
        "kinds and numbers of failures of connection attempts",
        "Tests see the first attempts succeed or all fail.",
        [
            "net/backoff.py",
            "net/tcp/connection.py",
            "net/udp/connection.py",
            "net/tcp/create.py",
        ],
        [
            ("ExponentialBackoff", "net/backoff.py"),
            ("try_tcp_transport_protocol", "net/tcp/create.py"),
        ],
        "model_checking",
        "exhaustive enumeration of failure sequences in virtual time",
        "Exhaustive for the listed parameters and failure kinds.",
        observe=["time of every attempt", "result"],
    )
    prop(
        "C19",
        "Periodic tasks run when they should and stop when told to",
        "A task's iterations start at its period without overlapping, "
        "however long iterations take; pausing suspends them, changing the "
        "period takes effect. It stops after an iteration fails or raises, "
        "its limit is reached, it's disabled (also during an iteration or "
        "initialization), stopped or cancelled or the stop signal is set, "
        "and can be started again afterwards. Starting a running task starts "
        "it over. The counts of dispatches and overruns are exact. Managers "
        "start and stop all tasks and reject duplicates.",
        ["schedules", "histories"],
        "all iteration durations and outcomes x events x phases; all manager "
        "operation sequences; limits around powers of two",
        "Tests run tasks for a moment in real time and can't control when "
        "events happen.",
        [
            "task/basic/periodic.py",
            "task/basic/manager.py",
            "task/asynchronous.py",
            "metrics/task.py",
        ],
        [
            ("PeriodicTask.run / stop", "task/basic/periodic.py"),
            ("AsyncTask.run", "task/asynchronous.py"),
        ],
        "model_checking",
        "stateless exploration of iteration outcomes and event times in "
        "virtual time",
        "Exhaustive for the listed durations, outcomes and event times.",
        observe=["start times", "end of the task", "metrics channels"],
    )
    prop(
        "C12",
        "The HTTP server answers every path correctly and stays in its folders",
        "For any request path a file is served only if it's located inside "
        "one of the configured search paths (dots, absolute or empty "
        "components and odd names can't escape), byte for byte from the first "
        "search path that has it, with markdown sources rendered; otherwise "
        "redirects, JSON data at the path, applications or the redirect to "
        "the missing page answer it. Every request on a connection gets one "
        "response that doesn't depend on other requests and no path "
        "interrupts the connection. Commands that are posted have the result "
        "and effect that they have locally.",
        ["inputs", "histories"],
        "all sequences of path components up to the depth; all paths into the "
        "served data; all pairs of request kinds on one connection",
        "Tests request a handful of well-formed paths.",
        [
            "net/server/__init__.py",
            "net/server/json.py",
            "net/server/html.py",
            "util.py",
        ],
        [
            ("RuntimepyServerConnection.try_file", "net/server/__init__.py"),
            ("traverse_dict", "net/server/json.py"),
        ],
        "model_checking",
        "exhaustive enumeration of request paths and sequences against a "
        "reference file tree",
        "Exhaustive for the listed path components up to the stated depth.",
        observe=["response status, fields and body", "files on disk"],
    )
    prop(
        "C13",
        "Telemetry event streams reproduce every change, however divided",
        "While a stream is registered, every change of a matching channel or "
        "bit field is written once, in order, with its time and raw value, "
        "after one initial event each, except that events of a channel are "
        "never closer than its minimum period. Parsing a stream yields the "
        "same events as soon as they're complete however the bytes are "
        "divided and whenever consumers stop, and ingesting them makes a "
        "loaded copy of the environment equal to the original. Nothing is "
        "written or left registered after a registration ends for any "
        "reason, and event metrics are exact.",
        ["inputs", "histories", "schedules"],
        "all change sequences up to the length x registrations; all divisions "
        "of event streams up to the number of cuts; all ways to leave "
        "registrations",
        "Tests write and read one short stream as a whole.",
        [
            "channel/event/__init__.py",
            "channel/event/header.py",
            "channel/environment/telemetry.py",
            "channel/registry.py",
        ],
        [
            ("parse_event_stream / ingest", "channel/environment/telemetry.py"),
            ("PrimitiveEvent", "channel/event/__init__.py"),
        ],
        "model_checking",
        "exhaustive enumeration of change histories and stream divisions "
        "against a reference model",
        "Exhaustive up to the stated lengths and numbers of cuts.",
        observe=["stream bytes", "parsed events", "copied values"],
    )
    prop(
        "C14",
        "Environments find, set, export and load every channel faithfully",
        "Every channel and bit field of an environment is found by name and "
        "identifier with its type, enumeration, scaling, description, "
        "default, controls and value, however it was created; invalid or "
        "duplicate names and unknown keys are rejected and nothing is created after "
        "finalization. Setting a value (also as text or enumeration name) "
        "changes exactly that channel or is rejected without effect. "
        "Exporting and loading, as data or files, gives an equal, independent "
        "environment with the same identifiers and values. Arrays contain the "
        "primitives of their keys once and in order.",
        ["inputs", "histories"],
        "all sequences of creations up to the length x namespaces; all "
        "channel kinds x values x ways of setting them; all key orders of "
        "arrays",
        "Tests use one sample environment.",
        [
            "channel/__init__.py",
            "channel/environment/base.py",
            "channel/environment/create.py",
            "channel/environment/file.py",
            "channel/environment/array.py",
            "channel/registry.py",
            "primitives/field/manager/base.py",
        ],
        [
            ("BaseChannelEnvironment", "channel/environment/base.py"),
            ("FileChannelEnvironment", "channel/environment/file.py"),
        ],
        "model_checking",
        "exhaustive enumeration of creation sequences and assignments against "
        "a reference model",
        "Exhaustive for the listed kinds, names and values.",
        observe=["lookups", "values", "exported data", "array bytes"],
    )

    prop(
        "C15",
        "Commands do exactly what they ask for or fail without any effect",
        "Any command text yields a result and never an exception. A 'set' or "
        "'toggle' that succeeds gives exactly the named channel or bit field "
        "the requested value (numbers, booleans and enumeration names, "
        "clamped to what the channel can hold), changes nothing else and runs "
        "every hook once with the arguments and the channel; 'get' answers "
        "with the current value; a command that fails changes nothing and "
        "runs no hooks. Channels that aren't commandable only change when "
        "forced. Remote and custom commands only run hooks. Queued commands "
        "are handled once, in order. Commands in messages only affect the "
        "environment they're addressed to, and suggestions are names of "
        "channels that complete the text.",
        ["inputs", "histories"],
        "all commands, channels, values and placements of options; all token "
        "sequences up to the length; all histories up to the depth",
        "Tests run a few well-formed commands.",
        [
            "channel/environment/command/processor.py",
            "channel/environment/command/parser.py",
            "mixins/async_command.py",
            "message/handlers.py",
        ],
        [
            (
                "ChannelCommandProcessor.handle_command",
                "channel/environment/command/processor.py",
            ),
            ("CommandParser", "channel/environment/command/parser.py"),
            (
                "AsyncCommandProcessingMixin.process_command_queue",
                "mixins/async_command.py",
            ),
        ],
        "model_checking",
        "exhaustive enumeration of command texts and histories against a "
        "reference model",
        "Exhaustive for the listed tokens, channels and values within the "
        "stated lengths.",
        observe=["results", "channel values", "hook calls"],
    )
    prop(
        "C20",
        "TFTP transfers are complete and intact or reported as failed",
        "When a TFTP read or write returns success, the destination has "
        "exactly the contents of the source, for any size (including empty "
        "files and multiples of the block size), and losing, duplicating or "
        "delaying some datagrams doesn't make a transfer fail or corrupt "
        "either file; a verified write only succeeds if the destination reads "
        "back the same even if blocks were changed on the way. Both ends "
        "acknowledge every block including the last, "
        "only accept the next block of their own peer, and requests sent "
        "again don't start other transfers. Without a working peer transfers "
        "fail in bounded time, leave what wasn't replaced intact and later "
        "transfers work.",
        ["schedules", "faults", "inputs"],
        "all placements of faults over the datagrams of a transfer up to the "
        "bound; all cut points; all message sequences of scripted peers up to "
        "the length",
        "Tests transfer files over a loopback that loses nothing.",
        [
            "net/udp/tftp/__init__.py",
            "net/udp/tftp/base.py",
            "net/udp/tftp/endpoint.py",
            "net/udp/tftp/io.py",
        ],
        [
            ("TftpConnection.request_read", "net/udp/tftp/__init__.py"),
            ("TftpConnection.request_write", "net/udp/tftp/__init__.py"),
            ("TftpEndpoint.ingest_file", "net/udp/tftp/endpoint.py"),
            ("TftpEndpoint.serve_file", "net/udp/tftp/endpoint.py"),
        ],
        "model_checking",
        "exhaustive fault injection into the datagrams of real endpoints on "
        "a virtual network and clock",
        "Exhaustive for up to the stated number of faults over the first "
        "datagrams of each transfer; transfers that share ports have to "
        "settle when disturbed (as the protocol requires).",
        observe=["results", "file contents", "datagrams", "virtual time"],
    )
    prop(
        "C21",
        "TFTP servers survive any datagram and stay in their folder",
        "No datagram (short, truncated, unknown operation or code, text that "
        "can't be decoded, names that can't be used) stops a TFTP server or "
        "changes files that it doesn't validly request to write: other "
        "clients can read and write afterwards. Requests only ever read or "
        "write files below the root path, whatever components (dots, "
        "absolute, empty) the name has and also after the root path of a server "
        "that already has clients was changed; every request that can't be serviced "
        "is answered with one error and files that aren't affected keep "
        "their contents.",
        ["inputs", "histories"],
        "all datagrams of the vocabulary and all pairs of odd ones; all "
        "sequences of path components up to the depth",
        "Tests send well-formed messages and one unknown operation.",
        ["net/udp/tftp/base.py", "net/udp/tftp/endpoint.py"],
        [
            ("BaseTftpConnection.process_datagram", "net/udp/tftp/base.py"),
            ("TftpEndpoint.get_path", "net/udp/tftp/endpoint.py"),
        ],
        "model_checking",
        "exhaustive enumeration of datagrams and path names against a "
        "reference folder",
        "Exhaustive for the stated vocabulary and depth.",
        observe=["responses", "files on disk", "whether it still serves"],
    )

    prop(
        "C22",
        "Telnet streams mean the same however their bytes are divided",
        "Text, commands, options, escaped bytes and terminal signals in a "
        "telnet stream are handled the same, in order and exactly once, "
        "however the bytes are divided into frames; text is decoded without "
        "losing or altering characters at divisions; escaped 255 bytes are "
        "data; undefined commands and invalid text never stop the "
        "connection; a new connection doesn't continue a sequence of the "
        "previous one. Commands and options that are sent are encoded the "
        "way they're decoded.",
        ["inputs", "histories"],
        "all token sequences up to the length with all divisions; all pairs "
        "of bytes after each prefix; reconnection at every point",
        "Tests process a few whole frames.",
        ["net/tcp/telnet/__init__.py", "net/tcp/telnet/codes.py"],
        [
            ("Telnet.process_binary", "net/tcp/telnet/__init__.py"),
            ("Telnet.process_telnet_message", "net/tcp/telnet/__init__.py"),
            ("TelnetNvt.to_stream", "net/tcp/telnet/codes.py"),
        ],
        "model_checking",
        "exhaustive enumeration of streams and divisions against a reference "
        "decoder on the real connections",
        "Exhaustive within the stated lengths.",
        observe=["commands, options, signals and data", "whether it stops"],
    )
    prop(
        "C23",
        "SCPI commands get their own, whole responses",
        "A query over an SCPI connection returns the (whole) line that the "
        "device sends in response, however it's divided into frames and "
        "whatever else the device sends after it or sent before the query, "
        "or an empty string if nothing is received within the timeout; a "
        "late response isn't returned for a command that's sent afterwards. "
        "Concurrent commands are sent one at a time and every one exactly "
        "once, none waits beyond its timeout, unexpected or invalid output "
        "doesn't stop or stall the connection, and nothing of a previous "
        "connection is returned after reconnecting.",
        ["histories", "schedules", "faults"],
        "all sequences of device behaviours up to the depth; all schedules "
        "of concurrent callers with one cancellation; disconnection states",
        "Tests query a device that responds at once and one that doesn't.",
        ["net/tcp/scpi/__init__.py"],
        [
            ("ScpiConnection.send_command", "net/tcp/scpi/__init__.py"),
            ("ScpiConnection.process_text", "net/tcp/scpi/__init__.py"),
        ],
        "model_checking",
        "exhaustive enumeration of device behaviours and schedules against "
        "the real connection on a virtual network and clock",
        "Exhaustive within the stated bounds; a response that arrives after "
        "the next query was sent can't be told apart from its response.",
        observe=["results", "lines sent", "virtual time"],
    )
    prop(
        "C24",
        "Outlet states match those that the power unit reports",
        "For an NP-05B connection: setting an outlet returns True exactly "
        "when the unit reports that state afterwards (or already did), "
        "requests for outlets that don't exist fail without sending "
        "anything, channel commands (set, toggle) and custom commands "
        "(all_on, all_off) have the same effect (toggling an outlet whose "
        "state isn't known sends nothing), and outlet channels always "
        "settle to what the unit last reported. This holds however the "
        "unit's output (echoes, prompts, responses) is divided or joined, "
        "with concurrent callers, late responses and disconnection at any "
        "point (after reconnecting, states are those reported), and no "
        "request waits indefinitely.",
        ["histories", "schedules", "faults"],
        "all operation sequences up to the depth in every output style; all "
        "divisions and disconnection points of scripted sessions; all "
        "schedules of three callers",
        "Tests run one session against a mock that sends whole lines.",
        ["net/tcp/telnet/np_05b.py", "mixins/async_command.py"],
        [
            ("Np05bConnection.process_text", "net/tcp/telnet/np_05b.py"),
            ("Np05bConnection.set_outlet_state", "net/tcp/telnet/np_05b.py"),
            (
                "AsyncCommandProcessingMixin.process_command_queue",
                "mixins/async_command.py",
            ),
        ],
        "model_checking",
        "exhaustive enumeration of operations, divisions, disconnections and "
        "schedules against a model of the unit",
        "Exhaustive within the stated bounds; the unit's states only change "
        "through this connection.",
        observe=["results", "channels", "commands sent", "virtual time"],
    )

    prop(
        "C25",
        "Sampled structs arrive whole, in order and exactly once",
        "Message framers put every sample of a serializable (its entire "
        "chain) into exactly one frame, in order, and produce a frame exactly "
        "when it's full for the configured size or flushed, never above that "
        "size; a size that's too small is rejected and changes nothing. "
        "Struct transceivers send every captured sample with an increasing "
        "(wrapping) sequence number, and a receiver updates its struct (with "
        "the sample's timestamp) once per sample of every datagram that "
        "arrives, with equal values in any byte order; lost, repeated or "
        "unexpected datagrams don't affect others or stop a connection.",
        ["histories", "faults"],
        "all sequences of samples, flushes and size changes up to the depth "
        "for each layout and size; all fault assignments to datagrams",
        "Tests run a sample application over the loopback interface.",
        [
            "primitives/serializable/framer.py",
            "net/arbiter/struct/__init__.py",
        ],
        [
            (
                "SerializableFramer.capture",
                "primitives/serializable/framer.py",
            ),
            (
                "SerializableFramer.set_mtu",
                "primitives/serializable/framer.py",
            ),
            ("UdpStructTransceiver.capture", "net/arbiter/struct/__init__.py"),
            (
                "TimestampedStruct.process_datagram",
                "net/arbiter/struct/__init__.py",
            ),
        ],
        "model_checking",
        "exhaustive enumeration of operations and network faults on the real "
        "framers and connections over a virtual network",
        "Exhaustive within the stated bounds.",
        observe=["frames", "received values, order and timestamps"],
    )
    prop(
        "C26",
        "Subprocess output arrives and subprocesses always end",
        "Everything that a subprocess writes to standard output and error is "
        "put into the corresponding queue (when there's one), in order and "
        "exactly once, from the moment it starts; exits are noticed; leaving "
        "the context always ends the process (gracefully when it ends by "
        "itself in time) within a bounded time and never hides exceptions. "
        "Peers exchange environments and configuration, apply commands, "
        "reflect the program's channel values, answer messages and count "
        "bytes whatever way the streams are divided, malformed messages and "
        "other output stop neither side, and a program processes every "
        "message of its input and notices its end.",
        ["histories", "schedules", "faults"],
        "all sequences of process events up to the depth and moments of "
        "leaving; all divisions of the streams of scripted sessions; exit or "
        "silence at every message",
        "Tests start a few well-behaved programs.",
        [
            "subprocess/__init__.py",
            "subprocess/protocol.py",
            "subprocess/peer.py",
            "subprocess/program.py",
            "subprocess/interface.py",
        ],
        [
            ("spawn_exec", "subprocess/__init__.py"),
            ("shutdown_protocol", "subprocess/__init__.py"),
            (
                "RuntimepySubprocessProtocol.pipe_data_received",
                "subprocess/protocol.py",
            ),
            ("RuntimepyPeer.service_queues", "subprocess/peer.py"),
            ("PeerProgram.io_task", "subprocess/program.py"),
        ],
        "model_checking",
        "exhaustive enumeration of process events and stream divisions with "
        "scripted processes under a virtual event loop",
        "Exhaustive within the stated bounds; processes are scripted, "
        "following the event order of asyncio's transports.",
        observe=["queues", "channel values", "messages", "exit", "time"],
    )

    prop(
        "C27",
        "The arbiter runs applications in order and always cleans up",
        "Initialization methods run before applications, application stages "
        "run in order (a stage's applications run in parallel and all end "
        "before the next one starts; a stage that fails or raises ends the "
        "run), every configured connection, server, struct, task and "
        "subprocess is available to applications and started once, the "
        "result is zero only if every initialization and application "
        "succeeded, and whatever ends the run (completion, failure, "
        "exceptions, the stop signal or cancellation, at any moment) tasks "
        "are stopped, connections are closed and processes have ended when "
        "it returns, without hanging. In configurations, builders run "
        "first and references to named (and overridden) ports are replaced "
        "everywhere in arguments.",
        ["schedules", "faults", "histories"],
        "all assignments of results, exceptions and durations to "
        "applications and initializers; the stop signal or a cancellation "
        "at every step of the event loop",
        "Tests run a few configurations to completion.",
        [
            "net/arbiter/base.py",
            "net/arbiter/__init__.py",
            "net/arbiter/info.py",
            "net/arbiter/imports/__init__.py",
            "net/manager.py",
        ],
        [
            ("BaseConnectionArbiter._entry", "net/arbiter/base.py"),
            ("BaseConnectionArbiter._run_apps_list", "net/arbiter/base.py"),
            ("BaseConnectionArbiter._main", "net/arbiter/base.py"),
            ("ConnectionManager.manage", "net/manager.py"),
        ],
        "model_checking",
        "exhaustive enumeration of application outcomes and stop moments on "
        "the real arbiter under a virtual event loop and network",
        "Exhaustive within the stated bounds.",
        observe=["result", "order of events", "open resources at the end"],
    )
    prop(
        "C28",
        "User-interface clients see channels as they are",
        "A client that shows a tab gets the values of all of its channels, "
        "then every change exactly once and in order with the next frame, "
        "so that what it displays equals the channels whatever the sequence "
        "of showing, hiding, changes, commands and frames; hidden tabs get "
        "nothing; initialized tabs get every log message once; commands "
        "take effect; clients don't affect each other. The number of "
        "connections is right, one client drives the polling of UI state "
        "(once per frame) while there are any, and connections that end at "
        "any moment leave no observers, log handlers or tasks behind.",
        ["histories", "schedules", "faults"],
        "all sequences of connects, disconnects, tab events, changes, "
        "commands, log messages and frames of up to four clients up to the "
        "depth",
        "Tests use one client and a few messages.",
        [
            "net/server/websocket/__init__.py",
            "net/server/websocket/state.py",
            "net/server/app/env/tab/message.py",
            "net/server/struct/__init__.py",
        ],
        [
            (
                "RuntimepyWebsocketConnection.disable",
                "net/server/websocket/__init__.py",
            ),
            ("TabState.frame", "net/server/websocket/state.py"),
            (
                "ChannelEnvironmentTabMessaging.handle_shown_state",
                "net/server/app/env/tab/message.py",
            ),
            ("UiState.init_env", "net/server/struct/__init__.py"),
        ],
        "model_checking",
        "exhaustive enumeration of client and application histories with "
        "scripted browsers on the real websocket connections",
        "Exhaustive within the stated bounds.",
        observe=["what clients display", "polls", "observers", "handlers"],
    )

    prop(
        "C29",
        "Traffic metrics count every message and byte",
        "For every kind of connection, the message and byte counters of each "
        "direction equal the messages and bytes that were actually sent and "
        "received since the last reset (texts count encoded bytes, messages "
        "that can't be sent don't count), message rates and kilobits per "
        "second are those of the last 50 intervals in the same units whether "
        "a message or a poll updates them, a reset starts everything over "
        "and directions, connections and copies don't affect each other.",
        ["histories"],
        "all sequences of sent and received messages, polls, resets and "
        "passing time up to the depth",
        "Tests only check that metrics can be polled and logged.",
        [
            "metrics/channel.py",
            "metrics/connection.py",
            "net/tcp/connection.py",
            "net/udp/connection.py",
            "net/websocket/connection.py",
            "net/manager.py",
        ],
        [
            ("ChannelMetrics.increment", "metrics/channel.py"),
            ("ChannelMetrics.poll", "metrics/channel.py"),
            ("ChannelMetrics.reset", "metrics/channel.py"),
            (
                "WebsocketConnection._await_message",
                "net/websocket/connection.py",
            ),
            ("ConnectionManager.poll_metrics", "net/manager.py"),
        ],
        "model_checking",
        "exhaustive enumeration of operation sequences on the real metrics "
        "and connections, compared to a model after every step",
        "Exhaustive within the stated bounds.",
        observe=["metric primitives", "metric channels", "sent data"],
    )

    prop(
        "C30",
        "Structs step, poll and follow simulated time as commanded",
        "Every change of a toggle stepper's step channel (by value, command "
        "or task) advances exactly the configured or commanded count of "
        "iterations; each polls every eligible struct once at the current "
        "time, counts and advances simulated time by its step. Enabling "
        "simulated time makes it the global time (channel time stamps), "
        "disabling it restores the actual time, connected clients are told "
        "to clear plots once per change, and steppers (or specializations) "
        "never poll each other. Polling commands, final polls, signal "
        "sources and waves produce exactly the commanded polls and values.",
        ["histories"],
        "all sequences of commands, iterations and passing time up to the "
        "depth for several configurations",
        "Tests toggle a stepper a few times without checking time.",
        [
            "control/step.py",
            "control/source.py",
            "mixins/trig.py",
            "struct/__init__.py",
            "net/arbiter/info.py",
        ],
        [
            ("ToggleStepper.poll", "control/step.py"),
            ("ToggleStepper.init_env", "control/step.py"),
            ("PrimitiveSource.poll", "control/source.py"),
            ("TrigMixin.dispatch_trig", "mixins/trig.py"),
            ("RuntimeStruct.build", "net/arbiter/info.py"),
        ],
        "model_checking",
        "exhaustive enumeration of command sequences on the real structs, "
        "compared to a model after every step",
        "Exhaustive within the stated bounds.",
        observe=["polls and their times", "channels", "client messages"],
    )
    prop(
        "C31",
        "Queued commands all run in order, whatever fails",
        "Every custom or remote command that a struct, task or connection "
        "accepts is handled exactly once, in order per entity, by the "
        "housekeeping task while it runs; commands and connection tasks that "
        "raise, take long or are cancelled (because their connection was "
        "lost) neither end housekeeping nor keep other commands from "
        "running, unknown ones are ignored, and housekeeping stops when "
        "it's told to.",
        ["histories", "faults"],
        "all sequences of commands, connection tasks, failures and lost "
        "connections up to the depth at two phases of the period",
        "Tests only queue commands that succeed.",
        [
            "net/arbiter/housekeeping/__init__.py",
            "mixins/async_command.py",
            "channel/environment/command/processor.py",
        ],
        [
            (
                "ConnectionMetricsPoller.dispatch",
                "net/arbiter/housekeeping/__init__.py",
            ),
            (
                "AsyncCommandProcessingMixin.process_command_queue",
                "mixins/async_command.py",
            ),
            (
                "ChannelCommandProcessor.handle_custom_command",
                "channel/environment/command/processor.py",
            ),
        ],
        "model_checking",
        "exhaustive enumeration of command and failure histories on the real "
        "housekeeping task under a virtual event loop",
        "Exhaustive within the stated bounds.",
        observe=["handled commands and their order", "task state"],
    )

    prop(
        "C32",
        "Captured log lines are logged whole, once and in order",
        "Every line that's appended to a captured log file (after capturing "
        "started) is logged exactly once, whole, in order and at the file's "
        "level by the next dispatch after it was completed, however it was "
        "divided into writes, whatever blank lines or invalid characters "
        "surround it; missing files are skipped, and text that isn't safe to "
        "log only reaches list handlers. An entity's log level channel (set "
        "by name, number or command) decides exactly which messages are "
        "logged and rejects unknown levels.",
        ["histories"],
        "all sequences of appended pieces and dispatches for two files, and "
        "of level changes, up to the depth",
        "Tests append a few whole lines.",
        ["mixins/logging.py"],
        [
            ("LogCaptureMixin.dispatch_log_capture", "mixins/logging.py"),
            ("LogCaptureMixin.init_log_capture", "mixins/logging.py"),
            ("handle_safe_log", "mixins/logging.py"),
            (
                "LoggerMixinLevelControl.setup_level_channel",
                "mixins/logging.py",
            ),
        ],
        "model_checking",
        "exhaustive enumeration of file and level histories on the real "
        "mixins",
        "Exhaustive within the stated bounds.",
        observe=["log records"],
    )

    prop(
        "C33",
        "Datagrams keep their boundaries, order and addresses",
        "Every datagram sent through a UDP connection (text, binary or to an "
        "explicit address) leaves exactly once, unmodified, as one datagram "
        "from the connection's local address to the given (otherwise remote) "
        "address, in order; every received datagram is handled exactly once, "
        "whole, in order and with its source's address, which is also the "
        "latest received address. Echo connections reply to the sender, queue "
        "connections keep everything in order, and connections restarted "
        "after losses or errors keep their local and remote addresses.",
        ["histories"],
        "all sequences of datagrams in both directions, address changes, "
        "errors and restarts up to the depth, for connected, unconnected and "
        "local sockets",
        "Tests send a few datagrams over one connection.",
        ["net/udp/connection.py", "net/udp/queue.py"],
        [
            ("UdpConnection.sendto", "net/udp/connection.py"),
            ("UdpConnection.restart", "net/udp/connection.py"),
            ("QueueUdpConnection.process_datagram", "net/udp/queue.py"),
        ],
        "model_checking",
        "exhaustive enumeration of datagram histories on the real "
        "connections over a simulated network",
        "Exhaustive within the stated bounds.",
        observe=["datagrams"],
    )

    prop(
        "C34",
        "Type systems resolve names and lay out custom types exactly",
        "In a type system, every type and enumeration is found by its own "
        "name and namespace (the innermost match when several exist) and "
        "only once it was registered; each full name is registered at most "
        "once. Custom types have exactly the fields that were added, in "
        "order, including arrays and nested custom types, with the sizes, "
        "byte layout and values that their elements give them. Anything "
        "that's rejected (taken or unknown names, invalid enumerations, "
        "repeated fields) changes nothing, and its name stays usable.",
        ["histories"],
        "all sequences of registrations, enumerations, added fields and "
        "look-ups up to the depth in type systems with and without root "
        "namespaces",
        "Tests build one or two custom types without rejections.",
        ["codec/system/__init__.py", "codec/protocol/base.py"],
        [
            ("TypeSystem.register", "codec/system/__init__.py"),
            ("TypeSystem.enum", "codec/system/__init__.py"),
            ("TypeSystem.add", "codec/system/__init__.py"),
            ("resolve_name", "codec/system/__init__.py"),
        ],
        "model_checking",
        "explicit-state enumeration of type-system histories on the real "
        "implementation against a model of names and layouts",
        "Exhaustive within the stated bounds.",
    )
    prop(
        "C35",
        "Recorded sessions can be loaded and reproduce what happened",
        "While telemetry of environments is recorded into a folder, every "
        "change of every selected channel and bit field (selected by "
        "environment and channel patterns) is written to its environment's "
        "event file; nothing else is, and nothing before or after the "
        "session. Loading the folder afterwards, whether the session ended "
        "normally or by an exception, gives exactly the selected "
        "environments with their initial values and all recorded events in "
        "order with their time stamps, and ingesting these leads to the "
        "final values. An event file that ends early gives all of its whole "
        "events. Log text of a session goes to its log file only while it "
        "lasts, and names of environments refer to one environment until "
        "they're cleared.",
        ["histories", "crash points"],
        "all sequences of changes with all selections, ways of ending and "
        "cut-off points of event files",
        "Tests record one session that ends normally.",
        [
            "channel/environment/command/__init__.py",
            "channel/environment/telemetry.py",
        ],
        [
            (
                "GlobalEnvironment.event_telemetry_output",
                "channel/environment/command/__init__.py",
            ),
            (
                "GlobalEnvironment.from_root",
                "channel/environment/command/__init__.py",
            ),
            (
                "TelemetryChannelEnvironment.parse_event_stream",
                "channel/environment/telemetry.py",
            ),
        ],
        "model_checking",
        "exhaustive enumeration of recorded sessions and cut-off points on "
        "the real implementation against a model of the changes",
        "Exhaustive within the stated bounds.",
    )

    prop(
        "C36",
        "Websocket sessions deliver whole messages in order and always end",
        "Text and binary messages that are sent over websocket connections "
        "are each processed whole, once and in order (per kind) by the other "
        "side while the session lasts. Servers initialize every connection "
        "once and process it (or have it processed by a manager) only when "
        "its initialization succeeds; others are closed. When either side "
        "disables, fails to process a message, loses its transport or is "
        "stopped, at any step, both sides end, their transports are closed "
        "and no tasks are left. Connected pairs stay connected until their "
        "context is left.",
        ["schedules", "histories"],
        "all sequences of connecting, sending, closing, losing and stopping "
        "up to the bound and an end at every step of a session",
        "Tests run a few sessions that end one way.",
        ["net/websocket/connection.py", "net/connection.py"],
        [
            (
                "WebsocketConnection.server_handler",
                "net/websocket/connection.py",
            ),
            ("WebsocketConnection.app", "net/websocket/connection.py"),
            ("WebsocketConnection.create_pair", "net/websocket/connection.py"),
        ],
        "model_checking",
        "exhaustive exploration of sessions of the real connections (and the "
        "real websocket library) under a virtual event loop and network",
        "Exhaustive within the stated bounds.",
        observe=["messages", "ends of sessions", "open transports"],
    )

    prop(
        "C37",
        "Pages show every channel with the controls that it has",
        "The page of an environment is well-formed and has one row per "
        "channel and bit field, in the environment's order, with its name, "
        "full description (whatever characters it has), type or position and "
        "current value cell. Exactly the commandable ones have controls: a "
        "toggle for booleans, a drop-down with all items and the current one "
        "selected for enumerations, an input with a send button otherwise, a "
        "slider when it is configured (over its whole range and with at "
        "least as many positions as configured) and a reset button when "
        "there is a default. Using a control has exactly the effect on the "
        "channel that it announces. Applications show one tab per "
        "connection, task, struct and peer, linked to its environment, with "
        "one active. Each path serves the page of its own application, "
        "composed once if it is cached and for every request otherwise.",
        ["inputs", "histories"],
        "all configurations of channels (kind, enumeration, default, "
        "controls, description) alone and next to each other; all sets of "
        "tabs and sequences of requests up to the bound",
        "Tests request pages and don't look at their content.",
        [
            "net/server/app/env/tab/html.py",
            "net/server/app/env/tab/controls.py",
            "net/server/app/env/widgets.py",
            "net/server/app/create.py",
            "net/html/bootstrap/elements.py",
            "net/html/bootstrap/tabs.py",
        ],
        [
            (
                "ChannelEnvironmentTabHtml.compose",
                "net/server/app/env/tab/html.py",
            ),
            (
                "ChannelEnvironmentTabControls._handle_controls",
                "net/server/app/env/tab/controls.py",
            ),
            ("populate_tabs", "net/server/app/env/__init__.py"),
            ("create_cacheable_app", "net/server/app/create.py"),
        ],
        "model_checking",
        "exhaustive enumeration of configurations and request sequences; "
        "the rendered page is parsed and its controls are used on the real "
        "command processor",
        "Exhaustive within the stated bounds.",
        observe=["rows", "controls", "effects of commands", "served pages"],
    )

    prop(
        "C38",
        "Remote requests mean what they mean locally, malformed ones nothing",
        "Whatever text or JSON a peer sends over a stream or datagram JSON "
        "connection - undecodable text, parts that are missing, unknown or "
        "of any other type, odd identifiers and log messages, paths and "
        "commands of any kind - the session stays usable: requests that "
        "follow are handled once and answered once, with their identifier. "
        "A find_file request answers with the path and decoded data that "
        "find_file and decoding yield locally for the same parameters "
        "(nothing and an unsuccessful decode when they fail). A "
        "channel_command request (and a command with '--remote') has the "
        "effect and result on the named environment that the same command "
        "has there locally, on no other one, and fails with a reason when "
        "there is no such environment.",
        ["inputs", "histories"],
        "all messages with one odd part out of the bounded set, all "
        "combinations of file-request parameters, all sequences of remote "
        "commands up to the bound",
        "Tests send correct messages and a few unknown keys.",
        [
            "message/interface.py",
            "message/handlers.py",
            "net/stream/json/__init__.py",
        ],
        [
            ("JsonMessageInterface.process_json", "message/interface.py"),
            ("find_file_request_handler", "message/handlers.py"),
            ("channel_env_handler", "message/handlers.py"),
            ("JsonMessageConnection.process_message", "net/stream/json/__init__.py"),
        ],
        "model_checking",
        "stateless exploration of the real connections with scripted peers "
        "under a virtual event loop and network",
        "Exhaustive within the stated bounds.",
        observe=["messages sent", "session state", "effects of commands"],
    )

    prop(
        "C39",
        "The command line starts what it is asked for and reports the result",
        "'server' starts one server of the given connection factory (over "
        "TCP, or UDP when asked for) that answers clients on the given host "
        "and port (or one that is assigned), adds one connected loopback "
        "client when asked for and nothing else, next to what the given "
        "configurations contain. 'task' runs one task of the given factory "
        "with the period that belongs to the rate, 'arbiter' only what the "
        "configurations contain. Applications run in order until one fails; "
        "the exit code is zero if all succeeded and the first failure's "
        "otherwise. '--wait-for-stop' keeps successful applications running "
        "until they are stopped, '--init-only' has them see the stop signal "
        "and ends when they return, '--no-poller' turns metrics polling "
        "off, '--dir' is the working directory while the command runs. "
        "'tftp' transfers exactly the named file with the given mode, sends "
        "requests again and gives up at the time-outs given, and exits zero "
        "if and only if the transfer succeeded. Command lines that can't be "
        "understood exit nonzero without running anything.",
        ["inputs", "configurations"],
        "all combinations of options, factories, configurations and results "
        "of applications up to the bound",
        "Tests run a few command lines and check one exit code.",
        [
            "entry.py",
            "commands/common.py",
            "commands/server.py",
            "commands/task.py",
            "commands/arbiter.py",
            "commands/tftp.py",
        ],
        [
            ("main", "entry.py"),
            ("config_data", "commands/server.py"),
            ("config_data", "commands/task.py"),
            ("entry", "commands/arbiter.py"),
            ("tftp_cmd", "commands/tftp.py"),
        ],
        "model_checking",
        "exhaustive enumeration of command lines that are run by the real "
        "entry point with real sockets and scripted peers",
        "Exhaustive within the stated bounds; one schedule per command line.",
        observe=["exit code", "connections", "tasks", "files transferred"],
    )

    prop(
        "C40",
        "The text interface shows what is, and its cursor stays inside",
        "After every iteration the text interface shows each channel that "
        "fits once with its current value and nothing of previous values, "
        "whatever sequence of value changes, keys and changes of the "
        "terminal's size there was, the size of the terminal (also as "
        "channels) and the last key. It never waits for input or writes "
        "outside of its windows. A cursor moves exactly where it is told to "
        "and says so if that is inside of its window; otherwise nothing "
        "moves. Its position stays the window's and inside of it when the "
        "size changes.",
        ["inputs", "histories"],
        "all sequences of changes, keys, sizes and moves up to the depth",
        "Tests only move a cursor twice.",
        [
            "tui/cursor.py",
            "tui/mixin.py",
            "tui/task.py",
            "tui/channels/__init__.py",
        ],
        [
            ("Cursor.move", "tui/cursor.py"),
            ("Cursor.poll_max", "tui/cursor.py"),
            ("ChannelTui.update_dimensions", "tui/channels/__init__.py"),
            ("ChannelTui.update_body", "tui/channels/__init__.py"),
            ("TuiTask.dispatch", "tui/task.py"),
        ],
        "model_checking",
        "exhaustive enumeration of sequences against a model of a terminal "
        "on which the real interface draws",
        "Exhaustive within the stated bounds; the terminal is modelled.",
        observe=["screen contents", "cursor position", "results"],
    )
    prop(
        "C41",
        "Addresses and transmission units are the system's, in any form",
        "Discovering a maximum transmission unit sends one probe of the "
        "given size, not to be fragmented, from any port of the given local "
        "address to the given destination and returns what the system "
        "reports for it, or the fallback when there is nothing, whichever "
        "socket operations fail. The socket's option is restored, sockets "
        "are closed whatever fails (those of callers stay open) and errors "
        "aren't remembered. Addresses given in any form (nothing, name, name "
        "and port, four parts, address objects) are the same address of the "
        "right family, equal and hashed alike exactly if their parts are, "
        "and their numeric, text and port-less forms keep every part. "
        "Connection attempts that fail with connection errors are logged "
        "and yield nothing, other errors are passed on.",
        ["faults", "inputs"],
        "all combinations of failing socket operations and forms of addresses",
        "Tests only probe the loopback interface, where nothing fails.",
        ["net/mtu.py", "net/util.py", "net/mixin.py"],
        [
            ("socket_discover_mtu", "net/mtu.py"),
            ("host_discover_mtu", "net/mtu.py"),
            ("normalize_host", "net/util.py"),
            ("get_free_socket", "net/util.py"),
            ("TransportMixin.mtu", "net/mixin.py"),
        ],
        "model_checking",
        "exhaustive enumeration of failures of a socket that stands in for "
        "the system's, and of forms of addresses",
        "Exhaustive within the stated bounds; sockets are stand-ins.",
        observe=["results", "socket options", "open sockets"],
    )
