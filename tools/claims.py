CODEC = "executable TLA+ specification of BER (Ber.tla, Codec.tla); TLC evaluates it on every recorded call of the real code"
DONE.update({
 "C01": ("model_checking", CODEC, "Exhaustive over integer widths, first/second sub-identifier pairs and length boundaries; composites sampled from a seed."),
 "C02": ("model_checking", CODEC, "Exhaustive over short octet strings of a boundary alphabet, all tags and length octets; truncations, length lies and splices of sampled messages."),
 "C03": ("model_checking", CODEC, "All power-of-two borders of every type, full equality matrix of a value pool; off-border values sampled."),
 "C26": ("model_checking", CODEC, "Sampled values of every class, each compared with itself, with variants that differ in one field, and with other classes."),
 "C04": ("model_checking", CODEC, "All type pairs and IMPLIED flags for table indices, exhaustive short index tails of a boundary alphabet, sampled mutations."),
})
REQ = "TLA+ request contract (Requests.tla) and design model (ReqModel.tla): TLC checks the design, its behaviours are replayed into the real managers, and recorded executions are validated by TLC"
for c, n in (("C07", "Design exhaustive within bounds; code explored by model behaviours, random hostile histories and single-preemption schedules."),
             ("C08", "Identifier churn in 4-bit identifier spaces and sampled histories; the full 32-bit space is not exhausted."),
             ("C09", "Design exhaustive within bounds; code explored on sampled timelines under a virtual clock."),
             ("C10", "Design exhaustive within bounds; code explored on sampled timelines, with and without clock drift inside calls."),
             ("C11", "Sampled histories, identifier churn in a 4-bit space, weak references checked at every drop."),
             ("C12", "All single preemptions and forced listener/clock steps (sampled in the quick tier) of small programs, plus random schedules.")):
    DONE[c] = ("model_checking", REQ, n)
V3T = "TLA+ contract of the SNMPv3/USM manager (V3.tla) and design model (V3Model.tla): TLC checks the design, its behaviours are replayed into the real engine, and recorded executions with conforming and hostile agents are validated by TLC"
for c, n in (("C13", "Design exhaustive within bounds; code explored by model behaviours, the datagram matrix and random hostile histories."),
             ("C14", "Every datagram of sampled histories and schedules is opened by an independent agent and judged; cipher and hash primitives are trusted."),
             ("C15", "Every kind of forged, weaker, stale or misdirected message in every phase of a request, for every user and level; beyond that sampled."),
             ("C16", "Every report counter at every protection level in every phase; combinations of several reports are sampled."),
             ("C17", "Design exhaustive within bounds (no endless retransmission); code explored by its behaviours, the datagram matrix and sampled histories.")):
    DONE[c] = ("model_checking", V3T, n)
USMT = "TLA+ contract of the user-based security model (Usm.tla, UsmTime.tla) and design model (UsmModel.tla): TLC checks the design, its behaviours are replayed into the real UserBasedSecurityModule, and recorded executions are validated by TLC"
for c, n in (("C18", "Every octet of sampled messages corrupted, every security-parameter mutation, behaviours of the design model and random hostile histories; hash primitives are trusted."),
             ("C19", "Design exhaustive within bounds; all window borders and wrap-arounds, model behaviours and random clocks sampled in the code."),
             ("C20", "Short registry histories enumerated, model behaviours and random histories sampled.")):
    DONE[c] = ("model_checking", USMT, n)
DONE["C21"] = ("model_checking", "executable TLA+ specifications of privacy (Privacy.tla) and of IV use on the wire (V3.tla); TLC evaluates them on recorded calls of both cipher back ends and on recorded SNMPv3 histories with every two-thread preemption", "Lengths, keys and schedules enumerated within bounds; cipher primitives are trusted (checked against a second implementation).")
DONE["C22"] = ("model_checking", "executable TLA+ specification of RFC 3414 key derivation (Keys.tla); TLC evaluates it on the octet streams and keys recorded from the real code", "Secret lengths around every border, all hashes and sampled engine identifiers; hash primitives are trusted.")
DONE["C23"] = ("model_checking", "TLA+ contract (Mux.tla) and design model (MuxModel.tla) of the UDP multiplexor: TLC checks the design, its behaviours are replayed on the real loopback sockets through both implementations, and recorded histories are validated by TLC", "Behaviours of the design model and random histories on real sockets; kernel buffers never overflow in them.")
DONE["C24"] = ("model_checking", "TLA+ contract of the Engine life cycle (EngineLife.tla) validated by TLC on recorded histories of simulated and real engines", "Constructor arguments, defaults and shutdown histories sampled from a seed; real sockets and threads in part of them.")
DONE["C25"] = ("model_checking", "TLA+ contracts of the managers (Requests.tla, V3.tla) and of the engine (EngineLife.tla) validated by TLC on recorded histories in which structure-aware mutations of real messages hit a mixed v1/v2c/v3 engine", "Mutations sampled from a seed; every kind in every phase of small histories, plus a flood on real sockets.")
