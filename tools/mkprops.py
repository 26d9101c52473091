"""Writes properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Encoding is exact BER and decodes back to the same value",
  "For every SMI value, variable-binding list, PDU and SNMPv1/v2c/v3 message (including the USM security parameters) built from in-range parts, encode() produces exactly the BER octets the SNMP standards prescribe: the right tags, minimal definite lengths, minimal two's-complement integers and base-128 sub-identifiers. The same holds for a bare tag-length-value with a tag of any class and number. Decoding those octets as the same type yields an equal value in every field, and when trailing data is allowed exactly the octets after the encoding are returned.",
  ["inputs"], "every constructible value of every type, every length and integer boundary, every following octet string",
  "The tests encode a few dozen literal values; lengths, integer widths and sub-identifiers are unbounded, and most boundaries (2^7, 2^8, 2^14, ... , first*40+second) are never touched.",
  ["snmp/ber.py", "snmp/asn1.py", "snmp/smi.py", "snmp/pdu.py", "snmp/message/core.py", "snmp/message/version.py", "snmp/message/v3.py", "snmp/security/usm/parameters.py"],
  [("Tag.encode/encode_length/encode", "snmp/ber.py"), ("serialize() of each type", "snmp/asn1.py"), ("__iter__ of PDUs and messages", "snmp/pdu.py, snmp/message")],
  observe=["ASN1.encode()", "ASN1.decode()"])

p("C02", "Decoding arbitrary octets is total and strict",
  "For every byte string, decoding it as any SMI type, variable binding, PDU or SNMP message either returns the value that BER assigns to those octets or raises the library's parse error (or another incoming-message error); no other exception escapes. Truncated fields, lengths running past the enclosing object, trailing octets, wrong or unknown tags and values outside the range of their type are always rejected.",
  ["inputs"], "all byte strings, decoded as every public type",
  "The tests try a handful of malformed strings per type; the space of truncations, nested-length lies and mutated fields is unbounded.",
  ["snmp/ber.py", "snmp/asn1.py", "snmp/smi.py", "snmp/pdu.py", "snmp/message/core.py", "snmp/message/version.py", "snmp/message/v3.py", "snmp/security/usm/parameters.py"],
  [("decode()/decode_length()/Tag.decode()", "snmp/ber.py"), ("deserialize() of each type", "snmp/asn1.py, snmp/smi.py, snmp/pdu.py, snmp/message")],
  observe=["ASN1.decode()", "exception type"])

p("C03", "SMI values cannot leave their type's range",
  "Constructing an Integer32, an unsigned 32-bit type, a Counter64, an OctetString, an IpAddress or an OID succeeds exactly when the argument is in the range SMIv2 (and the documentation) gives that type, and raises ValueError otherwise; the constructed object reports the value it was given. Two primitive objects compare equal exactly when their ASN.1 tags and their values are equal.",
  ["inputs"], "all integers, octet lengths, address strings and sub-identifier tuples; all pairs of values",
  "The tests probe a few boundary points of some types; equality across the type matrix and off-boundary values are sampled only.",
  ["snmp/smi.py", "snmp/asn1.py"],
  [("BoundedInteger.inRange/bitCount", "snmp/smi.py"), ("OctetString.check, IpAddress, OID constructors", "snmp/smi.py"), ("__eq__", "snmp/asn1.py")],
  observe=["constructors", "==", "value/data/addr"])

p("C04", "OID algebra: text, order, prefixes and table indices are lossless",
  "For every OID, parse(str(oid)) is the same OID (with or without a leading dot), ordering is lexicographic on the sub-identifiers, and startswith/extend/indexing agree with the sub-identifier sequence. For every prefix and list of indexable values, decodeIndex with the matching types returns exactly the values given to withIndex (IMPLIED or not), and for every other OID decodeIndex raises only BadPrefix (prefix does not match) or IndexDecodeError (index cannot be decoded).",
  ["inputs"], "all OIDs, prefixes, type lists, IMPLIED flags",
  "Tests cover single literal indices; truncated, oversized and out-of-octet-range indices of every type combination are not covered.",
  ["snmp/asn1.py", "snmp/smi.py"],
  [("withIndex/decodeIndex/decodeIndexField", "snmp/asn1.py"), ("asOID/fromOID of each type", "snmp/asn1.py, snmp/smi.py"), ("OBJECT_IDENTIFIER.parse/__str__/__lt__", "snmp/asn1.py")],
  observe=["OID methods", "exception type"])

p("C05", "A subbytes view behaves exactly like the slice it denotes",
  "For every byte string or other view, and every start and stop (negative, out of range, crossing or omitted), the view subbytes(data, start, stop) behaves like the bytes object data[start:stop] under length, truth value, iteration, equality, integer indexing (including IndexError), slicing with any bounds and positive step, advance and split, to any nesting depth. replace() returns the underlying data with exactly that region substituted, and no operation changes the underlying data or another view.",
  ["inputs", "histories"], "all data, bounds, nestings and operation sequences",
  "Tests use one fixed string and a handful of in-range bounds.",
  ["snmp/utils.py"],
  [("subbytes.translate/__getitem__/split/advance/replace", "snmp/utils.py")],
  observe=["subbytes methods"])

p("C06", "The number generator visits every n-bit number once, zero last",
  "For every width n, signedness and internal random choice, each block of 2^n consecutive outputs of the number generator contains every n-bit integer of the chosen signedness exactly once and ends with 0, and the sequence then repeats. No output ever lies outside the n-bit range.",
  ["inputs", "histories"], "all widths, signedness, random steps and positions in the cycle",
  "Tests look at one random instance of small widths; a defect for particular steps or near the wrap point is a coin toss.",
  ["snmp/utils.py"],
  [("NumberGenerator.__init__/__next__", "snmp/utils.py")],
  observe=["next()"])

p("C07", "v1/v2c: only the matching response completes a request",
  "An SNMPv1/v2c request completes only with a Response-PDU of the same protocol version that carries that request's ID and that request's community while the request is outstanding; it then yields that response's variable bindings, or an error carrying that response's error status and the request binding the error index names. Any other datagram (other ID, version, community, PDU type, or malformed) changes nothing for any outstanding request, and each response affects only its own request.",
  ["histories", "inputs", "schedules"], "all sequences of calls and of arriving datagrams on any number of managers and outstanding requests",
  "No test exercises a manager at all; the message-processor tests check one outstanding request against one bad field at a time.",
  ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/message/v1.py", "snmp/message/v2c.py", "snmp/dispatcher.py"],
  [("prepareDataElements", "snmp/message/v1.py, snmp/message/v2c.py"), ("hear", "snmp/dispatcher.py"), ("Request.push/wait", "snmp/manager/v1.py, snmp/manager/v2c.py")],
  state=[("outstanding", "ID -> (community, weak handle)", "snmp/message/v1.py, snmp/message/v2c.py")],
  observe=["Manager.get/getNext/getBulk/set return value or exception", "datagrams"])

p("C08", "Identifiers of outstanding requests are valid and never collide",
  "At every moment the request IDs of outstanding requests of one engine and protocol version (SNMPv1 or v2c) are pairwise distinct, non-zero 32-bit signed numbers, and the message IDs of outstanding SNMPv3 messages are pairwise distinct and within 1..2^31-1, however many requests are in flight and however long the engine has run. A v1/v2c retransmission repeats the identical datagram; an SNMPv3 retransmission uses a fresh message ID but the same non-zero request ID and content.",
  ["histories", "schedules"], "all histories of allocation, release and retransmission, including generator wrap-around and concurrent allocation",
  "Tests allocate a few IDs; collisions need long histories, wrap-around or concurrent allocation.",
  ["snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/v3.py", "snmp/manager/v3.py", "snmp/utils.py"],
  [("cache()/uncache()", "snmp/message/v1.py, v2c.py, v3.py"), ("generateRequestID", "snmp/manager/v3.py")],
  state=[("outstanding/generator", "IDs in use and the next ID", "snmp/message/*.py")],
  observe=["datagrams sent"])

p("C09", "Unanswered requests are resent once per refresh period, then stop",
  "While a wait is in progress on a manager, every unanswered, unexpired request that the manager has transmitted is retransmitted when a whole number of its refresh periods has passed since its initial transmission (or, for SNMPv3, since its latest report-triggered transmission): at that time, once per period, never more often, to the same address. If the manager only regains control later, one retransmission covers all missed periods. A request is never retransmitted once it has been answered or its timeout has passed. Setting the system clock in the meantime changes none of this.",
  ["histories", "inputs"], "all timeouts, refresh periods, call times, numbers of concurrent requests and arrival times of responses",
  "No test drives a manager or its timers.",
  ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py", "snmp/utils.py"],
  [("Request.refresh/nextRefresh", "snmp/manager/*.py"), ("Manager.refresh (heap of weak references)", "snmp/manager/*.py")],
  state=[("requests/active", "heap keyed by next refresh time", "snmp/manager/*.py")],
  observe=["datagrams with their (virtual) time"])

p("C10", "wait() returns the answer or Timeout, on time, and never hangs",
  "For every request, whether issued with wait=True or through a handle, the wait ends no later than the request's timeout: as soon as a matching response has arrived it returns that response's bindings (or raises its error), even if the application only calls wait() after the timeout has passed; and it raises Timeout only if no matching response arrived before the timeout, never earlier than the timeout. This holds for every protocol version, for requests still queued behind an SNMPv3 discovery, for any other requests outstanding on the manager, and however the system clock is set meanwhile. An application interrupted while it waits (Ctrl-C) gets out at once.",
  ["histories", "schedules", "inputs"], "all timeouts/periods, response times, orders of wait() calls and clock/thread interleavings",
  "No test calls wait(); the failures need a response before a late wait(), a clock tick between two statements, or a queued request.",
  ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py"],
  [("Request.wait", "snmp/manager/*.py"), ("Manager.refresh return value", "snmp/manager/*.py")],
  observe=["wait() result and (virtual) return time"])

p("C11", "Finished or abandoned requests leave nothing behind",
  "Once wait() has returned or raised, or the application has dropped its handle (or, for SNMPv3, once its wait has been interrupted), responses and reports that arrive for that request have no effect, it is never transmitted again, its identifiers may be reused, and no identifier or message entry stays allocated for it; for SNMPv3 its claim on the remote engine's namespace is released too. This holds in every order of completion, timeout, error and drop, and never disturbs the remaining requests.",
  ["histories"], "all orders of completion, timeout, error, drop and late arrivals",
  "Tests release one handle of a fake class; real request objects and their clean-up are not exercised.",
  ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py", "snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/v3.py", "snmp/security/usm/users.py"],
  [("Request.close/__del__", "snmp/manager/*.py"), ("uncache", "snmp/message/*.py"), ("engineID setters / unregisterRemoteEngine", "snmp/manager/v3.py")],
  state=[("outstanding", "entries for requests in flight", "snmp/message/*.py")],
  observe=["late datagrams", "table sizes", "namespace re-registration"])

p("C12", "No interleaving of application and listener threads loses a result",
  "Under every interleaving of the application threads (each using a manager of its own, or several sharing one) with the listener thread and the clock, no thread deadlocks or waits forever, no internal error reaches the caller, no arrived response is lost, and every request ends with the outcome that some sequential execution of the same calls and arrivals would give. Requests of different managers never block each other.",
  ["schedules"], "all preemption points between statements of the manager, message, security and dispatcher code, with arrivals and clock ticks at any of them",
  "The test suite is sequential; a race needs a preemption or clock tick between two specific statements.",
  ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/manager/v3.py", "snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/v3.py", "snmp/dispatcher.py", "snmp/security/usm/implementation.py"],
  [("locks and events", "snmp/manager/*.py, snmp/message/*.py, snmp/security/usm/implementation.py")],
  observe=["results of calls under a controlled scheduler"])

p("C13", "SNMPv3 discovery: one probe first, then everything queued is sent",
  "An SNMPv3 manager created without an engine ID first sends a single discovery probe (empty engine ID, empty user, no bindings, reportable) and holds back all other requests until the remote engine's report arrives; then the probing request and every held-back live request are transmitted to the discovered engine at once, oldest first, each exactly once. If the probing request is answered by nothing and ends, the oldest held-back request takes over the probing; a manager created with an engine ID sends the first request directly and holds back only authenticated requests until that engine first answers (an unauthenticated message in another engine's name does not count).",
  ["histories"], "all sequences of requests, reports, responses, timeouts and drops",
  "No test exercises the SNMPv3 manager.",
  ["snmp/manager/v3.py"],
  [("State classes, sendRequest, poke, onReport", "snmp/manager/v3.py")],
  state=[("state/unsent/engineID", "discovery state, queue and adopted engine ID", "snmp/manager/v3.py")],
  observe=["datagrams", "results"])

p("C14", "SNMPv3 requests are never sent below their security level",
  "Every SNMPv3 datagram that carries a request's PDU names the requested user and the target engine and has exactly the requested security level: its authentication code verifies under that user's key localized to that engine, its payload is encrypted for that user when privacy is requested, and it carries the latest known engine boots and time when authenticated. The target of a new request is the engine the manager was created with or, otherwise, one that has answered it; once an authenticated response has arrived, only another authenticated response can change it. The only datagrams sent at a lower level are discovery probes, which carry no user name and none of the request's bindings; a level the user's credentials cannot provide is refused with an error and nothing of the request is sent.",
  ["histories", "inputs", "configurations"], "all users, levels, protocols, namespaces, and all states of discovery and time synchronization",
  "Tests sign single messages at fixed levels; retransmissions, probes, queued requests and mixed levels are never driven.",
  ["snmp/manager/v3.py", "snmp/message/v3.py", "snmp/security/usm/implementation.py"],
  [("Request.reallySend", "snmp/manager/v3.py"), ("prepareOutgoingMessage", "snmp/message/v3.py"), ("prepareOutgoing", "snmp/security/usm/implementation.py")],
  observe=["datagrams, opened by an independent agent"])

p("C15", "SNMPv3: only adequately protected matching responses complete a request",
  "An SNMPv3 request completes with a response only if the message carries the ID of an outstanding message of that request, comes from the engine and context that message addressed, names the same user, and is protected at least at the request's security level with a valid authentication code and a timely engine time. In particular no unauthenticated or weaker message, including one answering a discovery probe, can ever supply the result of an authenticated request.",
  ["histories", "inputs"], "all sequences of probes, requests, reports, and genuine, forged, replayed or mismatched messages",
  "Tests check single-field mismatches at the message processor; acceptance across probes, retransmissions and manager states is untested.",
  ["snmp/manager/v3.py", "snmp/message/v3.py", "snmp/security/usm/implementation.py"],
  [("prepareDataElements", "snmp/message/v3.py"), ("processIncoming", "snmp/security/usm/implementation.py"), ("RequestMessage.push / processResponse", "snmp/manager/v3.py")],
  observe=["result of the request after each injected message"])

p("C16", "SNMPv3 reports end a request early only if authenticated",
  "A report that signals an error ends its request at once only if the report is authenticated; an unauthenticated one leaves the request running, a later response still wins, and only at the request's timeout (or when the wait is interrupted) is the exception matching the first such report raised instead of Timeout. The exception raised corresponds to the reported counter (unsupported level, unknown user, wrong digest, decryption error, or unrecognized) and carries the reported binding.",
  ["histories", "inputs"], "all sequences of reports (each counter, authenticated or not), responses and timeouts",
  "No test exercises reports at the manager.",
  ["snmp/manager/v3.py"],
  [("RequestMessage.push, Request.processException, Request.wait", "snmp/manager/v3.py")],
  observe=["wait() exception and time"])

p("C17", "SNMPv3 recovers from lost time synchronization without loops",
  "When the remote engine reports that a request was outside its time window or names a new engine ID, the request is retransmitted at once, exactly once, using the reported engine ID and the boots and time just learned, so that a conforming agent accepts it; repetitions of that report, and time-window reports answering that retransmission or earlier copies, do not trigger another immediate transmission until the next periodic one. Repeating a report therefore never makes the number of transmissions grow without bound.",
  ["histories"], "all sequences of agent reboots, clock offsets, duplicated, delayed and repeated reports",
  "No test exercises synchronization at the manager; loops need repeated or reordered reports.",
  ["snmp/manager/v3.py", "snmp/security/usm/timekeeper.py"],
  [("processNotInTimeWindow / SharedBool / processUnknownEngineID", "snmp/manager/v3.py")],
  observe=["datagrams after each report"])

p("C18", "USM accepts an authenticated message only with a valid MAC",
  "An incoming message that claims authentication is accepted only if the MAC computed over the exact received octets (with the authentication field zeroed) under the key of the named user localized to the named engine equals the received one; changing any octet, truncating or moving the MAC, or using another user's, engine's or namespace's key makes it rejected with an incoming-message error. Unknown engine, unknown user, a user without authentication (or, for an encrypted message, without privacy) are rejected likewise, and a rejected message has no effect on time synchronization or payload.",
  ["inputs", "configurations"], "all messages, all single- and multi-octet modifications, all users/keys/engines/algorithms",
  "One test checks one incoming message; modification at every octet of messages of every algorithm and level is out of reach of examples.",
  ["snmp/security/usm/implementation.py", "snmp/security/usm/parameters.py", "snmp/security/usm/auth.py", "snmp/message/v3.py"],
  [("processIncoming", "snmp/security/usm/implementation.py"), ("HmacAuthProtocol.sign", "snmp/security/usm/auth.py"), ("UsmSecurityParameters signatureIndex", "snmp/security/usm/parameters.py")],
  observe=["processIncoming()", "getEngineTime via outgoing messages"])

p("C19", "USM time window: replays are rejected, engine time never runs backwards",
  "Once an authenticated message from an engine has been accepted, later authenticated messages are accepted only if their boots equal (or exceed, becoming) the latest known boots, their time is at most 150 seconds behind the local estimate, and boots is below the maximum; the local estimate of (boots, time) never moves backwards and is independent of the system clock being set. Messages that are not authenticated, or fail authentication, never change an estimate that rests on an authenticated message; engines do not affect each other.",
  ["histories", "inputs"], "all sequences of authenticated and unauthenticated messages with any boots, times and arrival timestamps, over several engines",
  "Tests cover single transitions; ordering effects (boots change, then replay, then drift) need histories.",
  ["snmp/security/usm/timekeeper.py", "snmp/security/usm/implementation.py"],
  [("EngineTime.update/hint, TimeKeeper.updateAndVerify", "snmp/security/usm/timekeeper.py")],
  state=[("table", "per-engine boots, boot time, authenticated flag", "snmp/security/usm/timekeeper.py")],
  observe=["processIncoming() verdict", "boots/time in outgoing messages"])

p("C20", "Users, namespaces and engine claims stay consistent",
  "A remote engine belongs to at most one namespace at a time: registering it under another namespace is refused until every registration has been released, and while registered, exactly the users of its namespace (added before or after) can be used with it, with the keys of their latest accepted configuration. The default user of a namespace is the first one added or the one explicitly made default, a conflicting redefinition is rejected and changes nothing, and a default security level never exceeds what the user's credentials support.",
  ["histories", "configurations"], "all sequences of addUser, register and release over several namespaces, engines and users",
  "Tests walk short fixed sequences; reference counts and late additions need interleaved histories.",
  ["snmp/security/usm/users.py", "snmp/security/usm/credentials.py", "snmp/security/usm/implementation.py"],
  [("UserRegistry/RemoteEngine/NamespaceConfig", "snmp/security/usm/users.py")],
  state=[("engines/namespaces", "registration counts and users", "snmp/security/usm/users.py")],
  observe=["addUser/registerRemoteEngine/getDefaultUser/... results", "signing ability"])

p("C21", "Privacy: ciphertext decrypts exactly, and no IV is ever reused",
  "For every payload, key, boots and time, and for each cipher implementation, the ciphertext is decrypted by any conforming peer to the payload (plus at most block padding), and the library decrypts every conforming ciphertext to the complete payload; malformed privacy parameters or ciphertext lengths are rejected with a decryption error. Successive encryptions under one key never repeat a salt/IV until the salt space is exhausted, and the salt sent always matches the IV used.",
  ["inputs", "histories"], "all payload lengths, keys, boots/time, salts and sequences of encryptions, both OpenSSL and pycryptodome back ends",
  "Tests decrypt one example per cipher (one of which fails on the pinned commit) and never compare consecutive salts, lengths or back ends.",
  ["snmp/security/usm/priv/openssl/__init__.py", "snmp/security/usm/priv/openssl/aes.py", "snmp/security/usm/priv/openssl/des.py", "snmp/security/usm/priv/pycryptodome/aes.py", "snmp/security/usm/priv/pycryptodome/des.py"],
  [("encrypt/decrypt/packIV/computeIV/salt", "snmp/security/usm/priv/*")],
  state=[("salt", "per-key salt counter", "snmp/security/usm/priv/*")],
  observe=["encrypt()/decrypt()"])

p("C22", "Keys follow RFC 3414 derivation for every secret and engine",
  "For every hash algorithm, secret and engine ID, the key used for a user is the digest of the secret repeated to exactly 1,048,576 octets, localized as the digest of key, engine ID, key; the authentication and privacy keys come from their own secrets, falling back to the common secret. MACs are HMACs of the whole message under that key truncated to the length the algorithm's standard prescribes.",
  ["inputs", "configurations"], "all secrets (any length), engine IDs and algorithms",
  "Tests check the published example per algorithm; secret lengths that do not divide 2^20 and secret fall-back combinations are sampled at best.",
  ["snmp/security/usm/auth.py", "snmp/security/usm/credentials.py", "snmp/security/usm/__init__.py"],
  [("computeKey/localizeKey/sign", "snmp/security/usm/auth.py"), ("Credentials", "snmp/security/usm/credentials.py")],
  observe=["computeKey/localize/sign", "octets fed to the hash"])

p("C23", "The multiplexor delivers every datagram once and stops on request",
  "Every datagram (up to the configured receive size) received on a registered socket while the multiplexor is listening, or waiting in the socket when listening (re)starts, is handed to the listener exactly once, unaltered, with the receiving socket and the sender's address, in arrival order per socket. stop() makes a running listen() return without losing or inventing datagrams, listening can be restarted with additional sockets any number of times, and close() closes every registered socket.",
  ["histories", "schedules"], "all sequences of register, listen, stop, restart, close and datagram arrivals over IPv4 and IPv6, for both implementations",
  "Tests send at most one datagram per run and cannot control the race between stop and arrival.",
  ["snmp/transport/posix/udp.py", "snmp/transport/generic/udp.py", "snmp/transport/udp.py"],
  [("listen/stop/register/close", "snmp/transport/posix/udp.py, snmp/transport/generic/udp.py")],
  observe=["TransportListener.hear calls", "listen() return"])

p("C24", "Engine: managers get the right transport, defaults and clean shutdown",
  "Engine.Manager returns a manager of the requested (or default) version that sends to exactly the given address, normalized with the default port, using the given or default community, user, level and namespace; managers with equal domain and local address share one socket and others get their own, and creating managers never interrupts those that exist. After shutdown (or leaving the with block, even on an exception or after an earlier shutdown) the listening thread has ended and every socket the engine opened is closed; invalid addresses, domains, versions and security models are refused with ValueError or TypeError, and existing managers keep working.",
  ["histories", "configurations"], "all sequences of manager creation, requests and shutdown, all address/domain/version/default combinations",
  "There are no engine tests.",
  ["snmp/engine.py", "snmp/dispatcher.py", "snmp/transport/udp.py", "snmp/transport/__init__.py"],
  [("Manager/v1Manager/v2cManager/v3Manager/shutdown", "snmp/engine.py"), ("connectTransport/shutdown", "snmp/dispatcher.py"), ("normalizeAddress", "snmp/transport/udp.py")],
  observe=["manager type", "datagrams at the agents", "thread and socket state"])

p("C25", "Hostile datagrams neither stop the listener nor disturb requests",
  "Whatever datagrams arrive, in whatever order and number (random octets, truncated or mutated messages, foreign versions, unsolicited or unsupported PDUs, forged discovery data), no exception leaves the dispatcher, the listener keeps serving, and every genuine response is still delivered to its request. No such datagram makes a later call of the application fail with an error that the datagram's sender chose to provoke.",
  ["inputs", "histories"], "all sequences of arbitrary datagrams interleaved with genuine traffic",
  "The dispatcher has no tests; hostile inputs are unbounded.",
  ["snmp/dispatcher.py", "snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/v3.py", "snmp/security/usm/implementation.py", "snmp/security/usm/timekeeper.py"],
  [("hear", "snmp/dispatcher.py"), ("IncomingMessageError hierarchy", "snmp/exception.py")],
  observe=["Dispatcher.hear", "subsequent requests"])

p("C26", "Values, bindings and messages compare, index and print faithfully",
  "Two values, bindings, PDUs or messages are equal exactly when they are of the same class and every field is equal (primitive values: the same type on the wire and the same content), whichever was built and whichever decoded, and a comparison never fails. Evaluating the representation (repr) of any of them yields an equal one; converting any of them to text never fails, and the text shows the name of every binding in order. A list of bindings behaves as the sequence of its bindings: length, truth, iteration, indices, slices and unpacking.",
  ["inputs"], "all values, bindings, PDUs and messages of every class, built or decoded, and all pairs that differ in one field",
  "Tests compare and print a few hand-written examples; a field that a comparison or representation forgets needs two values that differ in just that field.",
  ["snmp/asn1.py", "snmp/smi.py", "snmp/pdu.py", "snmp/message/core.py", "snmp/message/version.py", "snmp/message/v3.py", "snmp/security/usm/parameters.py", "snmp/utils.py"],
  [("__eq__, __iter__, __len__, __repr__, toString", "snmp/asn1.py, snmp/pdu.py, snmp/message/*.py"), ("VarBindList.__getitem__", "snmp/pdu.py")],
  observe=["==, !=, repr, str, indexing"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
