"""What each check runs: (sub, variant, cases in quick, cases in thorough)."""
PBT = "stateful property-based testing against a reference model, with shrinking"
CHECKS = {
 "C01": dict(technique=PBT, note="Every event of random programs is compared with an exact model of channels and scheduler.",
    runs=[("prog", "asan", 30000, 1500000), ("prog", "plain", 60000, 4000000), ("prog", "archfb", 10000, 500000), ("crowd", "asan", 800, 40000), ("crowd", "plain", 2000, 150000)]),
 "C02": dict(technique=PBT, note="As C01 with choose-heavy programs, including invalid clauses.",
    runs=[("prog", "asan", 30000, 1500000), ("prog", "plain", 60000, 4000000), ("empty", "asan", 3000, 50000), ("crowd", "asan", 1000, 50000), ("crowd", "plain", 2000, 150000)]),
 "C03": dict(technique=PBT, note="Global execution order compared with a FIFO scheduler model; starvation under a virtual CPU clock.",
    runs=[("prog", "asan", 20000, 1000000), ("prog", "plain", 60000, 4000000), ("prog", "poll", 6000, 400000), ("starve", "asan", 6000, 200000), ("crowd", "asan", 800, 40000)]),
 "C04": dict(technique=PBT, note="Virtual clock: exact wake-up times, including late, early and interrupted polls and deadlines of any distance.",
    runs=[("prog", "asan", 20000, 1000000), ("prog", "plain", 60000, 4000000), ("prog", "poll", 6000, 400000), ("busy", "asan", 6000, 200000), ("busy", "poll", 1500, 50000), ("calls", "asan", 10000, 400000), ("calls", "poll", 3000, 100000), ("crowd", "asan", 600, 30000), ("crowd", "poll", 300, 15000)]),
 "C05": dict(technique=PBT, note="Cancellation model, including nested closes.",
    runs=[("prog", "asan", 30000, 1500000), ("prog", "plain", 60000, 4000000), ("calls", "asan", 5000, 250000), ("callback", "asan", 5000, 250000), ("calls", "poll", 1000, 50000), ("crowd", "asan", 800, 40000)]),
 "C06": dict(technique=PBT, note="Bundle model, including coincidence of deadline and last exit; launches that fail, several waiters.",
    runs=[("prog", "asan", 30000, 1500000), ("prog", "plain", 60000, 4000000), ("faults", "asan", 8000, 400000), ("faults", "plain", 10000, 1000000), ("crowd", "asan", 800, 40000)]),
 "C07": dict(technique=PBT, note="Handle table model over thousands of handles with re-entrant callbacks, and handles changing while an hclose waits.",
    runs=[("table", "asan", 12000, 400000), ("busy", "asan", 3000, 100000), ("hown_nomem", "asan", 5000, 200000), ("table", "plain", 15000, 800000), ("huge", "asan", 300, 10000), ("huge", "plain", 600, 20000)]),
 "C08": dict(technique="property-based testing with checksummed frames, canaries and a guard-page oracle", note="Locals, arguments and whole stacks compared after random switching; overflow must fault.",
    runs=[("frames", "asan", 10000, 400000), ("frames", "plain", 20000, 1000000), ("frames", "archfb", 10000, 600000), ("frames", "census", 3000, 100000), ("args", "plain", 30000, 1000000), ("args", "archfb", 10000, 500000),
          ("small", "asan", 5000, 200000), ("full", "plain", 6000, 200000), ("full", "archfb", 3000, 100000), ("overflow", "plain", 5000, 150000)]),
 "C10": dict(technique="property-based testing: model-checked programs run in parallel threads", note="Each thread is compared with its own exact model; alternating steps make interference visible at a known point.",
    runs=[("parallel", "asan", 4000, 200000), ("parallel", "thrfb", 3000, 150000), ("parallel", "plain", 8000, 400000), ("steps", "asan", 4000, 150000), ("steps", "thrfb", 3000, 100000), ("restart", "asan", 800, 30000), ("restart", "thrfb", 600, 20000), ("parallel", "poll", 2000, 100000), ("parallel", "tsan", 600, 30000), ("objects", "asan", 800, 40000), ("objects", "tsan", 400, 20000), ("exit", "asan", 4000, 150000), ("exit", "thrfb", 4000, 150000), ("exit", "plain", 4000, 200000)]),
 "D01": dict(technique="stateful property-based testing; oracle: poll(2) on the same descriptors and an exact clock", note="epoll and poll back ends.",
    runs=[("model", "asan", 25000, 1000000), ("model", "poll", 25000, 1000000), ("model", "plain", 30000, 2000000), ("many", "plain", 4000, 150000), ("many", "poll", 1500, 50000)]),
}
MBT = "stateful property-based testing with generated dialogues and hostile byte streams; oracle: message queue model, exact wire image, independent codec"
def m(note, *runs): return dict(technique=MBT, note=note, runs=list(runs))
CHECKS.update({
 "M01": m("Both ends over a scripted bytestream; the wire must be the exact prefix encoding.", ("roundtrip", "asan", 20000, 800000), ("garbage", "asan", 12000, 500000), ("roundtrip", "plain", 15000, 800000), ("many", "asan", 4000, 300000), ("huge", "asan", 400, 20000)),
 "M02": m("Delimiters of every length, payloads made of pieces of the delimiter; oracle: std::string search.", ("roundtrip", "asan", 18000, 800000), ("split", "asan", 18000, 800000), ("badargs", "asan", 5000, 50000), ("split", "plain", 15000, 800000), ("many", "asan", 4000, 300000), ("huge", "asan", 300, 20000)),
 "M03": m("Dialogues with terminators at any point; detach with every failure of the stream below.", ("dialogue", "asan", 22000, 800000), ("detach_errors", "asan", 15000, 500000), ("badargs", "asan", 5000, 50000), ("many", "asan", 4000, 300000), ("huge", "asan", 300, 20000)),
 "M04": m("Header dialogues compared field by field and byte by byte; mutated lines must be refused.", ("dialogue", "asan", 22000, 800000), ("malformed", "asan", 20000, 800000), ("many", "asan", 4000, 300000)),
 "M05": m("Independent RFC 6455 codec: wire images are decoded, foreign fragmentations and invalid frames are generated.", ("roundtrip", "asan", 12000, 400000), ("frames", "asan", 20000, 800000), ("many", "asan", 4000, 300000), ("huge", "asan", 300, 20000)),
 "M06": m("Close handshakes in every order, foreign and failing ones.", ("closing", "asan", 20000, 800000), ("scripted", "asan", 20000, 800000), ("many", "asan", 4000, 300000)),
 "M07": m("Library against library and against an independent handshake with at most one flaw.", ("pair", "asan", 10000, 400000), ("server", "asan", 15000, 500000), ("client", "asan", 15000, 500000), ("keys", "asan", 10000, 300000), ("many", "asan", 4000, 300000)),
 "M08": m("Library against library (wire compared with RFC 1928/1929 bytes) and against scripted peers with at most one flaw.", ("pair", "asan", 15000, 500000), ("client", "asan", 15000, 500000), ("proxy", "asan", 15000, 500000), ("args", "asan", 4000, 50000), ("many", "asan", 4000, 300000), ("names", "asan", 600, 20000)),
 "M09": m("TLS sessions over scripted wires: reference data, faults at any byte, allocation counts of OpenSSL, concurrent deadlines.", ("stream", "asan", 1500, 100000), ("broken", "asan", 2500, 150000), ("leak", "asan", 500, 30000), ("deadlines", "asan", 1500, 100000), ("misuse", "asan", 600, 10000), ("stream", "plain", 2500, 200000), ("many", "asan", 500, 40000), ("huge", "asan", 150, 5000)),
 "M10": m("Random walks of attaching, detaching and exchanging data at every level, and a differential run of one program over a bare and a stacked connection.", ("walk", "asan", 20000, 800000), ("same", "asan", 10000, 400000), ("walk", "poll", 4000, 200000)),
 "M11": m("Recorded streams are replayed with an arrival time per byte and a fault at any byte; the time and result of every call are predicted.", ("recv", "asan", 20000, 800000), ("send", "asan", 15000, 600000), ("attach", "asan", 6000, 300000)),
})
CHECKS.update({
 "S01": m("Positional patterns over every kind of connection, random sizes, lists, short transfers and spurious EAGAIN; slow readers and early closers.", ("stream", "asan", 4000, 200000), ("close", "asan", 1500, 80000), ("many", "asan", 1000, 60000), ("stream", "plain", 4000, 300000), ("stream", "poll", 1500, 80000), ("huge", "asan", 200, 10000)),
 "S02": m("Model of both ends through done, close, abrupt ends, failed and timed-out operations; exact result and time of blocked operations.", ("history", "asan", 5000, 250000), ("blocked", "asan", 6000, 300000), ("flood", "asan", 800, 20000), ("history", "poll", 1500, 80000)),
 "S03": m("Attempts of a third coroutine at random points of transfers over random stacks; a blocked operation then ends in every way.", ("stack", "asan", 3500, 200000), ("udp", "asan", 1200, 60000), ("fds", "asan", 4000, 200000), ("accept", "asan", 2000, 100000)),
 "S04": m("Random and malformed lists against the well-formedness rules and a contiguous buffer of the same bytes, on every kind of socket.", ("stack", "asan", 3500, 200000), ("conn", "asan", 3500, 150000), ("udp", "asan", 2000, 80000), ("same", "asan", 6000, 300000), ("bytes", "asan", 2500, 120000)),
 "S08": m("Literals and address operations against inet_pton, inet_ntop and getaddrinfo; generated interface lists.", ("literal", "asan", 15000, 800000), ("ops", "asan", 12000, 500000), ("ifaces", "asan", 8000, 500000)),
 "S09": m("A scripted name server (UDP and TCP) and generated resolv.conf, hosts and nsswitch.conf against a model of the lookup; wrong, late, lost and forged answers.", ("records", "asan", 1200, 60000), ("trouble", "asan", 1800, 150000), ("parallel", "asan", 800, 40000), ("servers", "asan", 800, 40000), ("setup", "asan", 800, 40000), ("config", "asan", 1500, 60000), ("secret", "asan", 300, 5000)),
 "S10": m("Scripted DNS answers and scripted outcomes of every connection attempt; the log of attempts in virtual time is compared with the schedule the documentation gives.", ("model", "asan", 2500, 150000), ("parallel", "asan", 500, 20000), ("faults", "asan", 1500, 80000), ("args", "asan", 500, 20000)),
 "S05": m("Histories mixing descriptors and data against a queue model; identity by fstat and by descriptor contents.", ("mixed", "asan", 6000, 300000), ("errors", "asan", 6500, 400000), ("blocked", "asan", 6500, 300000), ("foreign", "asan", 4000, 300000)),
 "S06": m("The full matrix of calls and handles over a zoo of live objects which are used before and after; calls with invalid arguments; numbers given up by attach, detach, hown and close.", ("matrix", "asan", 4500, 300000), ("args", "asan", 3000, 200000), ("layers", "asan", 5000, 300000), ("fds", "asan", 2500, 150000), ("matrix", "poll", 1000, 80000)),
 "C09": m("A random workload over every type of object, which closes all it opened in every way and after any outcome, is repeated with the same choices: blocks, bytes, descriptors and handle numbers may not grow; caller-supplied storage is canaried and left alone after closing.", ("repeat", "asan", 1300, 200000), ("repeat", "plain", 500, 80000), ("repeat", "poll", 400, 40000), ("many", "asan", 500, 20000), ("many", "plain", 300, 20000), ("saves", "asan", 500, 20000)),
 "C11": m("Every constructor with each of its allocations and descriptor creations failing in turn, among objects that are used before and after; the table of handles full to within a few, the cache of stacks empty.", ("constructors", "asan", 6000, 400000), ("constructors", "plain", 4000, 400000), ("constructors", "poll", 1500, 80000)),
 "S07": m("Several sockets and a foreign sender against a datagram queue model; exact results of blocked receives; floods.", ("model", "asan", 4000, 200000), ("blocked", "asan", 3000, 150000), ("flood", "asan", 1000, 20000)),
})
