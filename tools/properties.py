#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (kept in step here)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, note="", na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append((d, note, na))

S, F, I, H, C = "schedules", "fault_sequences", "inputs", "histories", "configurations"
TESTS = "The tests that pass here encode and decode a handful of frames and exercise the two transaction managers with a few sleeps; the ones that talk to devices need hardware and do not run, so no test sees a lost, late, duplicated or forged datagram or two calls at once. "

SLOTS = ("transaction table", "which invoke ids are in use and where the answer of each goes", "tsm/transactions.go")
BUF = ("receive buffers", "datagrams being decoded while the next one is received", "device.go ClientRun")

prop("C01", "A property read returns what the device answered to that very request",
 "When a property read succeeds, the object, property, array index and value returned are exactly those the addressed device put into its acknowledgement of a request this call sent, after the call began. Late, duplicated or reordered answers to other calls, answers of other services or other devices' requests never show up as its result. In particular every application data type arrives with its exact value, alone, in a list or inside constructed data (flattened; only parts in context tags whose type the tag does not tell may be left out).",
 [S, F, I, H], "every interleaving of concurrent callers, every sequence of loss, duplication, delay, late answer, device restart and forged peer request, every application-tagged value and array index",
 TESTS + "Matching an answer to its call depends on the reuse of invoke ids and on what arrives while a call waits.",
 ["readprop.go", "device.go", "tsm/transactions.go", "encoding/readprop.go", "encoding/appdata.go"],
 [("invoke ids are handed out in turn and answers are delivered by invoke id", "tsm/transactions.go"), ("decoding of the acknowledgement", "encoding/readprop.go")],
 [SLOTS, BUF], ["Client.ReadProperty", "datagrams on the socket"])

prop("C02", "No datagram crashes, hangs, starves or blinds the client",
 "Whatever datagrams arrive, from anyone and at any moment, no goroutine of the client panics, loops endlessly, blocks forever or allocates memory out of proportion to the datagram. After any sequence of them the client still answers further calls correctly.",
 [I, F, S, H], "every datagram (valid frames of every kind, truncated, extended, mutated, with hostile lengths and counts, and random bytes), in every order, while calls are in progress or idle",
 TESTS + "They decode only frames made by the same library; the input space of hostile frames and its interaction with calls in progress is unbounded.",
 ["device.go", "encoding", "datalink/udp.go", "utsm", "tsm/transactions.go"],
 [("bounds checks of every decoder", "encoding/decoder.go"), ("one goroutine per datagram", "device.go handleMsg")],
 [BUF], ["process state, memory, goroutines", "Client.ReadProperty after the storm"])

prop("C03", "Every call returns within its bounded time, whatever the network does",
 "Every client call returns (with a result or an error) within the bound its time-outs and attempts add up to, counted in the clock the process sees and not counting time its goroutines were kept from running. This holds for any number of concurrent callers, for peers that stay silent, answer late, answer many times or flood, for send failures and for a client closed in the middle of the call.",
 [S, F, H], "every schedule of up to 30 callers, every loss, delay, duplication, flood, outage, and close at any point",
 TESTS + "A hang needs an unlucky order of answer, time-out and reuse that a test cannot arrange.",
 ["tsm/transactions.go", "utsm/subscriber.go", "readprop.go", "readmulti.go", "writeprop.go", "writemulti.go", "whois.go", "whoisrouter.go", "whatnetwork.go"],
 [("contexts and timers around every wait", "tsm/transactions.go, utsm/subscriber.go")],
 [SLOTS], ["time from call to return"])

prop("C04", "Transactions, invoke ids and goroutines are never leaked",
 "However earlier calls ended (success, error, time-out, send failure, refusal to encode), once they have ended all twenty concurrent transactions are available again, every invoke id can be used again, and the number of goroutines is back at its idle value. No two transactions that are in progress at the same time use the same invoke id, and a call is refused a transaction only while twenty others are active.",
 [S, F, H], "every history of calls and faults, followed by 20 simultaneous and by more than 254 successive transactions",
 TESTS + "A leak shows only after hundreds of transactions with particular failures.",
 ["tsm/transactions.go", "device.go", "readprop.go", "readmulti.go", "writeprop.go", "writemulti.go"],
 [("slots are returned with defer", "readprop.go and siblings"), ("free list of invoke ids", "tsm/transactions.go")],
 [SLOTS], ["invoke ids on the wire", "goroutine count", "calls after the storm"])

prop("C05", "A write succeeds if and only if acknowledged, and writes exactly what was asked",
 "When a write of one or several properties succeeds, the addressed device has acknowledged a request sent by this call, and each request it executed for the call carried exactly the caller's objects, properties, array indexes, values, types and priorities. When the device refused every request it received, or no acknowledgement arrived in time, the write reports an error; an acknowledgement that does arrive in time makes it succeed.",
 [S, F, I, H], "every interleaving of callers, every fault sequence, every value of every supported type, array index and priority",
 TESTS + "No test writes to anything that answers.",
 ["writeprop.go", "writemulti.go", "encoding/writeprop.go", "encoding/writemultiple.go", "encoding/appdata.go", "tsm/transactions.go"],
 [("encoding of the request", "encoding/writeprop.go, encoding/writemultiple.go"), ("acknowledgements matched by invoke id", "tsm/transactions.go")],
 [SLOTS], ["Client.WriteProperty, Client.WriteMultiProperty", "executions at the device"])

prop("C06", "A refusal by the device reaches the caller with its class and code",
 "When the device answers every request of a call with an Error, the call fails and its error states the error class and error code the device sent; it is never reported as success, as a time-out or with another class or code.",
 [S, F, I, H], "every class and code (known, unknown, proprietary), every service, every interleaving with other calls, duplicates and delays",
 TESTS + "Errors are answers too: they can be late, duplicated, or belong to another call.",
 ["device.go", "encoding/apdu.go", "btypes/bacerr", "tsm/transactions.go"],
 [("decoding of the Error PDU and delivery by invoke id", "device.go handleMsg")],
 [SLOTS], ["error values of all four request calls"])

prop("C07", "Discovery reports every device that answers in time, once and as it is",
 "A discovery returns each device whose I-Am (instance within the asked range) arrives within ten seconds of the request and less than two seconds after the request or the previous answer, and no device twice. Every device returned is described by an I-Am that really arrived during the call: instance, vendor, max APDU, segmentation, network, hardware address, and the address it was sent from, also when routed or forwarded by a BBMD.",
 [S, F, H, C], "every order, timing, duplication and loss of I-Ams (answers within microseconds of the request included), concurrent discoveries with other ranges, routed and forwarded answers",
 TESTS + "Whether the answer that comes in the same microsecond as the request is seen depends on the schedule.",
 ["whois.go", "utsm", "device.go", "encoding/whois.go", "encoding/iam.go"],
 [("subscription registered before the request goes out", "utsm/subscriber.go"), ("I-Am published by instance", "device.go handleMsg")],
 [("subscriptions", "instance ranges callers are waiting for and what arrived for them", "utsm/utsm.go")], ["Client.WhoIs"])

prop("C08", "Router and network-number discovery report exactly the networks announced",
 "Asking which routers there are returns every network number of every I-Am-Router-To-Network that arrives within the same window as for device discovery, however many networks one message lists, and asking for the network number returns those of every Network-Number-Is; neither returns a network that was not announced during the call.",
 [S, F, H], "every number, order, timing and duplication of announcements with 0 to 80 networks each, concurrent calls of both kinds",
 TESTS + "There is no test of the network layer messages at all.",
 ["whoisrouter.go", "whatnetwork.go", "device.go", "encoding/npdu.go", "utsm"],
 [("decoding of the network list", "encoding/npdu.go"), ("subscription to network numbers", "whoisrouter.go, whatnetwork.go")],
 [("subscriptions", "what arrived for the callers", "utsm/utsm.go")], ["Client.WhoIsRouterToNetwork, Client.WhatIsNetworkNumber"])

prop("C09", "A device's object inventory is exact or an error",
 "Listing a device's objects returns exactly the objects of its object list, each under its own type and instance and with the name and description the device holds for it, or it returns an error; it never returns a partial or mixed-up inventory as success. When the device answers every request of a listing that runs undisturbed, the listing succeeds, whatever the length of the list (including empty) and whatever APDU size the device accepts.",
 [S, F, H, C], "object lists of any length, max APDU 50 to 1476, standard and proprietary types, every fault sequence and concurrent calls",
 TESTS + "The listing is a sequence of dozens of requests, any of which can fail, be retried or be answered late.",
 ["objectlist.go", "readmulti.go", "readprop.go", "btypes/object.go"],
 [("length, ranges and details are read piecewise", "objectlist.go")],
 None, ["Client.Objects"])

prop("C10", "A multi-property read returns every requested value in place, or an error",
 "When a read of several properties succeeds, the result has the requested objects and properties in the requested order (for all, required or optional properties: those the device lists) with exactly the values the device put into one acknowledgement of a request this call sent after it began (constructed data flattened; only parts in context tags whose type the tag does not tell may be left out); if the device could not read one of them the call reports an error. An acknowledgement that arrives in time makes the call succeed.",
 [S, F, I, H], "1 to 8 objects with 1 to 16 properties, every value type, constructed type and array index, partial errors, every interleaving and fault sequence",
 TESTS + "As for single reads, with a retransmission in between.",
 ["readmulti.go", "encoding/readmultipleack.go", "encoding/appdata.go", "tsm/transactions.go"],
 [("decoding of the nested result lists", "encoding/readmultipleack.go")],
 [SLOTS], ["Client.ReadMultiProperty"])

prop("C11", "Every frame sent is well formed, says what was asked and goes to the right place",
 "Every datagram the client sends is a correct BACnet/IP frame: BVLC length and function, network header with the destination network and hardware address of the target, hop count, expecting-reply flag, and an APDU an independent decoder reads back as exactly the call's parameters. It goes to the target's IP address and port, or to the local broadcast address when and only when the request is a broadcast; what cannot be encoded is refused with an error and not sent.",
 [I, S, C], "every call with every parameter (object types and instances up to the limits, all values, priorities, ranges, networks, MS/TP addresses, ports), local and routed targets, alone and concurrently",
 TESTS + "The tests compare the library's encoder with the library's decoder, so a mistake made on both sides passes.",
 ["encoding", "device.go", "datalink/udp.go", "btypes/address.go", "btypes/device.go", "iam.go", "whois.go"],
 [("encoders", "encoding"), ("choice of the BVLC function and address", "device.go Send, datalink/udp.go")],
 None, ["datagrams on the socket"])

prop("C12", "Requests are repeated only after a full time-out, at most once, and identically",
 "A call transmits its request at once; a single read never repeats it, and the other request calls repeat it once at most and only when the previous transmission was answered with an error or five seconds passed without an answer. Repetitions are byte for byte the same request with the same invoke id, nothing is transmitted after the call returned, and no call gives up before its last transmission had five seconds to be answered.",
 [S, F, H], "every timing of answers relative to the time-outs, duplicates, errors, lost and late answers, concurrent calls",
 TESTS + "A repetition at the wrong moment executes a write twice; only the clock and the schedule decide.",
 ["readprop.go", "readmulti.go", "writeprop.go", "writemulti.go", "tsm/transactions.go"],
 [("attempt loops and the receive time-out", "readmulti.go, writemulti.go, writeprop.go, tsm/transactions.go")],
 [SLOTS], ["datagrams on the socket with their times"])

prop("C13", "Clients and stores can be used from many goroutines without data races",
 "Any number of goroutines may use the same client, network and store objects at once, while datagrams arrive and while the client is closed, without two of them accessing the same memory unsynchronised, at least one writing.",
 [S, H], "every schedule of concurrent calls of all kinds, incoming traffic and close",
 TESTS + "They are not run with the race detector and hardly run anything concurrently.",
 ["device.go", "tsm", "utsm", "network", "helpers/store", "datalink/udp.go"],
 [("mutexes and channels of the managers", "tsm/transactions.go, utsm/utsm.go"), ("a buffer of its own per datagram", "device.go ClientRun")],
 [BUF, SLOTS], ["race detector inside the simulation"],
 note="The race detector's happens-before analysis runs inside each simulated execution; races it reports are between accesses of the repository's code.")

prop("C14", "Points used through the network package behave like one register",
 "Writes, releases and reads of present values, priority arrays and names through the network package, from any number of goroutines and under message faults, have results that some order of the calls explains in which each call takes effect between its start and its end: a read returns the value of the highest priority in use, or the default. Calls that failed may have taken effect or not; a priority outside 1..16 is refused.",
 [S, F, H], "every interleaving of up to 7 callers on shared points of all six commandable types, every fault sequence",
 TESTS + "Linearizability quantifies over concurrent histories.",
 ["network/write.go", "network/read.go", "network/points.go", "writeprop.go", "readprop.go", "btypes/priority"],
 [("each helper maps to one request", "network"), ("transactions are kept apart", "tsm/transactions.go")],
 [SLOTS], ["Device.PointWrite*, PointRelease*, PointRead*"],
 note="Histories are checked with a Wing-Gong search against a 16-slot register model; histories too large for the search budget are counted, not judged.")

prop("C15", "The transaction manager hands each answer to the transaction it is for, once",
 "An answer sent for an invoke id is received by the transaction that holds that id at the time, at most once and unchanged, or the sender is told it could not be delivered, which happens only when no transaction holds the id or the one that held it has ended; it never reaches a transaction started later with the same id, and neither sender nor receiver blocks longer than its time-out. At most the configured number of ids are held at once, no id is held twice, and waiting for one ends as soon as one is free or the waiter's context ends.",
 [S, H], "every interleaving of acquiring, sending (several senders, unknown ids), receiving with any time-out, returning ids, and context cancellation",
 TESTS + "The manager's own test sends one answer to each of a few transactions.",
 ["tsm/transactions.go"], [("per-transaction channel and lock", "tsm/transactions.go")], [SLOTS], ["TSM.ID, Send, Receive, Put"])

prop("C16", "A subscription receives everything published for its range while it lasts",
 "A subscriber receives, in publication order and exactly once, everything published for an id within its range from the moment its request is made until it ends, and nothing else; it ends when nothing arrived for its idle time-out or when its overall time-out has passed, not earlier. Publishing never blocks, whoever subscribes.",
 [S, H], "every interleaving of up to 6 subscribers and publishers, overlapping ranges, bursts, gaps close to the time-outs, failing requests",
 TESTS + "The manager's test subscribes thrice and asserts nothing about what is received.",
 ["utsm/utsm.go", "utsm/subscriber.go"], [("queue per subscriber, idle timer", "utsm/subscriber.go")],
 [("subscriptions", "ranges and queued values", "utsm/utsm.go")], ["Manager.Subscribe, SubscribeAfter, Publish"])

prop("C17", "Closing a client stops it completely and harms nothing else",
 "Closing a client at any moment, once or several times, from any goroutine, closes its socket, ends its receive loop and leaves no goroutine behind once its calls have ended; calls in progress end within their normal bounds with an error or a correct result, and later calls fail or return nothing instead of hanging or panicking. The port can be used again at once, an attempt to make a client that fails leaves nothing behind, and the process's standard streams stay open.",
 [S, F, H], "close at every point of every workload, several closers, with and without the close-logs option, then clients with addresses that cannot be, then reopening on the same port",
 TESTS + "No test closes a client that is being used.",
 ["device.go", "datalink/udp.go", "network/base.go"],
 [("ClientClose, Close and the receive loop", "device.go"), ("the socket", "datalink/udp.go")],
 None, ["Client.Close, Client.ClientClose", "sockets and goroutines"])

prop("C18", "Transient socket errors cost at most the datagrams concerned",
 "When sending or receiving fails for a while with the errors an operating system reports (no buffers, unreachable, refused, interrupted), the client goes on receiving afterwards, calls whose request could not be sent report an error, and every other guarantee of reads, writes, discovery and transactions holds throughout. One receive loop serves a client however often it is started.",
 [F, S, H], "every placement of send and receive errors among the datagrams of every workload, repeated starts of the receive loop",
 TESTS + "The tests use no socket that ever fails.",
 ["device.go", "datalink/udp.go", "readprop.go", "whois.go"],
 [("receive loop goes on after an error", "device.go ClientRun"), ("errors of Send are returned", "device.go Send")],
 None, ["all client calls"])

prop("C19", "The registry returns exactly what was registered last under a key",
 "Looking up a network or a device returns the object most recently registered under that key, with the identity it was registered with and ready for use, or an error if there is none or it is of the other kind; entries do not expire, and a registration that fails changes nothing. A device already obtained stays what it was when others register under its key. Concurrent registrations and look-ups behave as if done one after the other.",
 [S, H], "every interleaving of up to 6 callers registering and looking up networks and devices under shared keys, with pauses of up to more than a year",
 TESTS + "The store's tests set and get one key.",
 ["network/store.go", "network/device.go", "helpers/store"],
 [("cache keyed by id", "helpers/store"), ("type checks on look-up", "network/store.go")],
 [("registry", "networks and devices by id", "helpers/store")], ["Store.NewNetwork, UpdateDevice, GetNetwork, GetDevice"])

prop("C20", "Inventory helpers report what the device holds",
 "Device objects, point lists, point details, device details and discoveries obtained through the network package state what the device in question holds (object list in order, name, unit, vendor, max APDU, segmentation, address), never another device's or object's data. Values that could not be read are left empty or reported as an error, and when nothing goes wrong nothing is missing.",
 [S, F, H, C], "devices of all sizes, local and routed, every fault sequence, concurrent inventories of different devices",
 TESTS + "The network package's tests need real devices.",
 ["network/discover.go", "network/objects.go", "network/points.go", "network/read.go", "network/whois.go", "network/device.go"],
 [("helpers read property by property through the client", "network")],
 None, ["Device.GetDevicePoints, DeviceObjects, GetDeviceDetails, PointDetails, DeviceDiscover, Network.NetworkDiscover"])

prop("C21", "Calls leave their arguments alone and results are the caller's own",
 "No call modifies the request, device or options passed to it, not even when it is repeated, fails or runs concurrently with another call on the same arguments, and nothing a call returned is changed by calls or datagrams that come later, nor by what other callers do with their own results: results share no memory with one another.",
 [S, F, H], "every call with shared and unshared arguments, every interleaving and fault sequence",
 TESTS + "No test looks at an argument after the call.",
 ["whois.go", "readprop.go", "readmulti.go", "writeprop.go", "writemulti.go", "objectlist.go", "btypes/address.go", "network"],
 [("arguments are passed by value or copied", "all call sites")],
 [BUF], ["arguments and results after the call"])

prop("C22", "Encoding and decoding are inverse to each other for every value in range",
 "Whatever the encoder writes for any header, address, tag or value in its range, the decoder reads back as the same, and re-encoding yields the same bytes.",
 [I], "every value in range", "The tests sample a handful of values per codec.",
 ["encoding"], [("encoder and decoder pairs", "encoding")],
 na="A pure function of its input: no schedule, clock, fault or second party for a simulator to control. The codecs' effect on the wire is judged, through whole runs, by C01, C05, C10 and C11.")
prop("C23", "An object inventory survives conversion to JSON and back",
 "Marshalling an object inventory to JSON and unmarshalling it yields an equal inventory.",
 [I], "every inventory", "One sample is tested.", ["btypes/object.go", "btypes/object_map.go"], [("JSON conversion", "btypes")],
 na="A pure function of its input, with nothing for a simulator to control.")
prop("C24", "Address and subnet helpers accept exactly the valid values",
 "IP address, subnet and port validation accept exactly the well-formed values, and the broadcast address computed for an interface is the one of its subnet.",
 [I, C], "every string and prefix length", "A few samples are tested.", ["helpers/validation", "helpers/ipbytes", "datalink/udp.go"], [("validation helpers", "helpers")],
 na="Pure functions of their input, with nothing for a simulator to control. The broadcast address in use is judged, for the simulated configurations, by C11.")

prop("C25", "Use leaves nothing behind in memory",
 "What a client keeps in memory does not grow with use. Once the calls made have returned and the datagrams that arrived have been handled, neither live heap memory nor goroutines remain for them, however often that is repeated, however the calls ended (answered, refused, timed out, failed to send) and whatever the datagrams were.",
 [S, F, H, I], "every repeated workload of calls, incoming datagrams, faults and outages, on the client and through the network package",
 TESTS + "A leak of a few bytes per call shows only after the same work has been done many times.",
 ["device.go", "answer.go", "tsm/transactions.go", "utsm/utsm.go", "utsm/subscriber.go", "whois.go", "whoisrouter.go", "whatnetwork.go", "helpers/store", "network"],
 [("a transaction is removed from the table when its call ends", "tsm/transactions.go Put"), ("a subscription is removed when its call ends", "utsm/utsm.go removeSubscriber"), ("one goroutine per received datagram, which ends", "device.go ClientRun")],
 [SLOTS, BUF], ["live heap after a collection, goroutines"])

NOTE = "Seeded exploration: every run is one exactly repeatable simulated execution of the real code (scheduler, clock, randomness, sockets and peers simulated). A clean batch is evidence for the seeds explored, not a proof. Trusts the patched Go runtime, the harness's own BACnet codec and device model, and the instrumentation."

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    man = dict(version=1, setup_cmd="bash /verif/setup.sh",
      hooks=dict(guard="none", enable="The simulator goes in through 'go build -overlay': instrumented copies of /repo's sources, of parts of the standard library's runtime and net packages, and the harness. Nothing is added to /repo; its source is unchanged by the machinery.", source_commits=[]),
      checks=[dict(property=d["id"], quick_cmd=f"bash /verif/check.sh {d['id']} quick", thorough_cmd=f"bash /verif/check.sh {d['id']} thorough",
                   technique="deterministic simulation with fault injection (seeded search)" + (" + race detector inside the simulation" if d["id"] == "C13" else ""),
                   level="exploration", level_note=(NOTE + " " + n).strip()) for d, n, na in P if na is None],
      not_applicable=[dict(property=d["id"], reason=na) for d, _, na in P if na],
      notes="One driver (sim/cmd/simctl) builds and runs every check; see DESIGN.md. VERIF_RUNS overrides the number of runs.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
main()
