#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, O, R, M, S = "lnwire/", "offers/", "routes/", "onionmsg/", "rpcserver/"
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note,
      state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state,
                  observe=observe))


COMMON = ("Exploration: held on the executions of the run, with the real code "
          "built from /repo; nothing is said about inputs or schedules that "
          "were not driven. ")

p("C01", "Encoding and decoding of offers, invoice requests and invoices agree",
  "Encoding any valid BOLT 12 offer, invoice request or invoice writes exactly "
  "one well-formed TLV stream with the fields' specified types, canonical "
  "order and minimal truncated integers (absent fields write no record), and "
  "decoding such a stream gives back every field, every signature and the "
  "same bytes when re-encoded. Public keys (33 bytes or x only), feature "
  "vectors, texts, hashes, times and 64-bit amounts and quantities keep their "
  "value at every size and boundary.",
  ["inputs"], "All BOLT 12 messages: every subset of fields, boundary-valued "
  "integers, long byte strings, any feature bits, unknown odd records.",
  "Unit tests round-trip a handful of hand-written messages through the same "
  "encoder and decoder, so an error made consistently on both sides, or at a "
  "value they do not use (zero, 255/256, 2^63, empty vectors), is not seen.",
  [L+"bolt12_offer.go", L+"bolt12_invoice.go", L+"bolt12_invoice_request.go",
   L+"bolt12_shared.go", L+"tu64.go"],
  [("offer records", L+"bolt12_offer.go EncodeOffer/DecodeOffer"),
   ("invoice records", L+"bolt12_invoice.go EncodeInvoice/DecodeInvoice"),
   ("invoice request records", L+"bolt12_invoice_request.go"),
   ("truncated integers", L+"tu64.go")],
  "differential runtime monitor: an independent TLV codec judges every encode "
  "and decode of generated messages",
  COMMON + "Trusts the harness's own codec, written from BOLT 1 and BOLT 12.")

p("C02", "BOLT 12 decoders are total and reject malformed streams",
  "For any byte string the offer, invoice request and invoice decoders return "
  "a message or an error: they never panic, hang or allocate without bound. "
  "Streams that are truncated, out of order, hold duplicate types, "
  "non-minimal lengths or integers, fields of the wrong length, or keys that "
  "are not on the curve are refused, and every stream that is well formed is "
  "accepted with the values it holds.",
  ["inputs"], "All byte strings, in particular structural mutations of valid "
  "streams.",
  "The tests decode valid messages and a few named errors; the space of "
  "malformed streams is untested.",
  [L+"bolt12_offer.go", L+"bolt12_invoice.go", L+"bolt12_invoice_request.go",
   L+"bolt12_shared.go", L+"tu64.go"],
  [("stream decoding", L+"bolt12_shared.go"),
   ("x-only keys, signatures", L+"bolt12_shared.go, "+L+"bolt12_signature.go"),
   ("minimal integers", L+"tu64.go")],
  "differential runtime monitor with crash detection over mutated streams",
  COMMON + "Verdicts of an independent parser; whether unknown even types are "
  "refused is not judged.")

p("C03", "Merkle roots commit to exactly the received non-signature records",
  "The merkle root of a decoded BOLT 12 message is the BOLT 12 root over all "
  "of its non-signature records exactly as they were received, including "
  "unknown and empty ones, for every number of records. The same holds for "
  "locally created messages with respect to their encoding, and the root "
  "changes whenever any record does, and never because of signature records.",
  ["inputs"], "All record sets: number of leaves, types, values, unknown "
  "records, messages received or created.",
  "Tests compare roots for a few spec vectors with few leaves; tree shape for "
  "other leaf counts, unknown records and non-reproducible encodings are not "
  "covered.",
  [L+"bolt12_merkle.go", L+"bolt12_shared.go", L+"bolt12_offer.go",
   L+"bolt12_invoice.go", L+"bolt12_invoice_request.go"],
  [("tree construction", L+"bolt12_merkle.go CalculateRoot"),
   ("leaves and nonces", L+"bolt12_merkle.go"),
   ("root over received bytes", L+"bolt12_shared.go")],
  "differential runtime monitor: roots against an independent merkle tree",
  COMMON + "SHA-256 is trusted.")

p("C04", "A signature validates iff it signs this message under its own key",
  "A BOLT 12 message with a signature passes signature validation exactly "
  "when it is a BIP 340 signature of the message's own tagged digest (message "
  "name, field name and merkle root) by the key the message names as its "
  "signer. Altering any committed field, the signature, the signer, or "
  "presenting a signature made for another kind of message or field fails "
  "validation, and invoice requests signed by this code validate.",
  ["inputs"], "All signed messages and all alterations of one of them.",
  "Tests verify one valid and one corrupt signature per message.",
  [L+"bolt12_signature.go", L+"bolt12_offer.go", L+"bolt12_invoice.go",
   L+"bolt12_invoice_request.go", L+"bolt12_merkle.go"],
  [("tagged digest", L+"bolt12_signature.go signatureDigest"),
   ("validation", L+"bolt12_signature.go validateSignature")],
  "differential runtime monitor: verdicts against BIP 340 verification of an "
  "independently derived digest",
  COMMON + "Trusts btcec's Schnorr implementation for the curve arithmetic.")

p("C05", "Semantic validation accepts exactly the messages the rules allow",
  "Validating a message succeeds exactly when its kind's rules hold: an offer "
  "needs a node id, a description and a minimum quantity not above a set "
  "maximum; an invoice an amount, payment hash, creation time, node id and "
  "description; an invoice request an offer id, payer key and signature; and "
  "any signature present must be valid. No other field, and no combination of "
  "fields, affects the verdict.",
  ["inputs"], "All combinations of set, unset, zero and boundary-valued "
  "fields.",
  "Tests flip one field at a time from one valid message; combinations and "
  "boundaries are not covered.",
  [L+"bolt12_offer.go", L+"bolt12_invoice.go", L+"bolt12_invoice_request.go"],
  [("offer rules", L+"bolt12_offer.go Validate"),
   ("invoice rules", L+"bolt12_invoice.go Validate"),
   ("request rules", L+"bolt12_invoice_request.go Validate")],
  "runtime monitor: acceptance compared with an executable statement of the "
  "rules over generated field combinations",
  COMMON + "The rules are those the repository documents for each Validate; "
  "nothing that depends on the current time is judged.")

p("C06", "Invoice requests are only created within the bounds of their offer",
  "Creating an invoice request for an offer succeeds exactly when the "
  "requested amount and quantity satisfy the offer (at least the offer's "
  "amount, a quantity within its inclusive bounds when and only when it has "
  "any), including for very large values. A created request names the "
  "offer it answers by its root, carries the requested amount, quantity, "
  "payer key and note unchanged, and is valid once signed.",
  ["inputs"], "All offers and all requested amounts, quantities, features, "
  "payer keys and notes.",
  "Tests cover a few amounts and quantities for offers with both bounds.",
  [L+"bolt12_invoice_request.go", L+"bolt12_offer.go"],
  [("construction", L+"bolt12_invoice_request.go NewInvoiceRequest"),
   ("rules", L+"bolt12_invoice_request.go Validate")],
  "runtime monitor: outcome and content compared with an executable rule",
  COMMON)

p("C07", "Offer strings decode exactly per the bech32-without-checksum grammar",
  "A string decodes as an offer exactly when it is the human readable part "
  "lno, the separator 1 and bech32 characters of one case, where '+' followed "
  "by optional whitespace may join two bech32 characters, and the data's "
  "padding and TLVs are valid. All ways of splitting and casing a string "
  "decode to the same offer, and no string makes the decoder panic.",
  ["inputs"], "All strings: splits, whitespace, case, characters, lengths, "
  "prefixes, padding.",
  "Tests run the nine format vectors of the specification.",
  [O+"bech32.go", O+"encoding.go"],
  [("joins", O+"encoding.go DecodeOfferStr and its clean-up of '+'"),
   ("bech32 without checksum", O+"bech32.go")],
  "differential runtime monitor: an independent grammar judges each edited "
  "string",
  COMMON + "Leniency about leading and trailing whitespace is not judged.")

p("C08", "Onion payload and reply path encoding agree with the wire format",
  "Every onion message payload (reply path, encrypted data, any final "
  "payloads) encodes to one canonical TLV payload and decodes back to the "
  "same value, with reply paths of any length and final payloads in order "
  "of type. Payloads whose lengths do not fit, final payload types outside "
  "of the final range and malformed, truncated or trailing data are refused "
  "with an error, never a panic, and never read past their own record.",
  ["inputs"], "All payloads and all byte strings given to the decoder.",
  "Tests use one reply path of one or two hops and one payload.",
  [L+"onion_msg_payload.go"],
  [("payload codec", L+"onion_msg_payload.go Encode/DecodeOnionMessagePayload"),
   ("reply path", L+"onion_msg_payload.go encode/decodeReplyPath"),
   ("final types", L+"onion_msg_payload.go FinalHopPayload.Validate")],
  "differential runtime monitor against an independent codec",
  COMMON)

p("C09", "Onion message and route data encoding agree with the wire format",
  "An onion_message (blinding point, length-prefixed onion) and the blinded "
  "route data of a hop (next node, next blinding override) encode to the "
  "specified bytes and decode back to the same value for all sizes. "
  "Messages whose onion can't be described by the length prefix, truncated "
  "ones, and invalid keys are refused without a panic.",
  ["inputs"], "All onion sizes, all keys, all byte strings.",
  "Tests round-trip one message and one route data.",
  [L+"onion_message.go", L+"route_blinding.go"],
  [("onion message codec", L+"onion_message.go Encode/Decode"),
   ("route data", L+"route_blinding.go")],
  "differential runtime monitor against an independent codec",
  COMMON)

p("C10", "A built route is processed by every hop and only the last gets content",
  "A message built for a list of hops, optionally ending in someone else's "
  "blinded path, can be processed by each hop in turn with nothing but its "
  "own key: each hop learns only the next hop, and blinding keys chain from "
  "our hops into the destination's path. The recipient gets exactly the "
  "final payloads, reply path and (for a blinded destination) its own "
  "encrypted data that were requested, also when we are sending directly to "
  "the introduction node.",
  ["inputs"], "All routes of up to 27 hops, blinded destinations, reply "
  "paths, payloads and keys.",
  "Tests check fields of mock-encrypted routes of two or three hops; only "
  "itests with real lnd nodes peel an onion.",
  [R+"blinded.go", M+"onion.go", L+"onion_msg_payload.go"],
  [("route construction", R+"blinded.go CreateBlindedRoute"),
   ("path to a blinded destination", R+"blinded.go createPathToBlind"),
   ("direct sends", R+"blinded.go directToBlinded")],
  "runtime monitor: independent nodes peel each real onion hop by hop and a "
  "monitor checks what each one learns",
  COMMON + "Trusts the sphinx library's onion processing and the harness's "
  "own route blinding.")

p("C11", "Oversized and invalid route requests fail with an error",
  "A route request succeeds exactly when it is valid and its payloads fit an "
  "onion of 1300 bytes and 27 hops. Every other request (too many hops, "
  "too much data, no hops, missing keys, a route that does not lead to the "
  "introduction node, invalid final payloads or reply path) returns an "
  "error and no message, and never panics.",
  ["inputs"], "All requests, in particular around the size and hop limits.",
  "Tests use short routes that fit.",
  [R+"blinded.go", L+"onion_msg_payload.go"],
  [("request rules", R+"blinded.go validate"),
   ("limits", R+"blinded.go createOnionMessage, CreateBlindedRoute")],
  "runtime monitor with crash detection: outcome against a size model",
  COMMON)

p("C12", "Blinded routes to ourselves use an eligible peer and work",
  "A blinded route generated for this node is introduced by a peer that we "
  "have an active channel with, that is announced in the graph with at least "
  "one public channel, and that advertises every required (even) feature "
  "requested, preferring the most public channels; if there is none, or a "
  "lookup other than not found fails, the request fails with an error. "
  "Whenever such a peer exists a route is returned, and messages sent into "
  "it are relayed to us alone and can be decrypted by us.",
  ["inputs", "configurations", "fault_sequences"],
  "All local channel sets, graph entries and features, all required "
  "features, and failures of each lnd lookup.",
  "Tests use one to three hand-made peers.",
  [R+"blinded.go", S+"impl_generate_blinded_route.go"],
  [("peer selection", R+"blinded.go getRelayingPeers"),
   ("path construction", R+"blinded.go buildBlindedRoute"),
   ("RPC", S+"impl_generate_blinded_route.go")],
  "runtime monitor: eligibility oracle over the simulated graph, and the "
  "returned path is used and peeled",
  COMMON + "lnd is simulated.")

p("C13", "Messages and blinded paths are fresh and reveal nothing in the clear",
  "Every onion message sent or forwarded has the same size, whatever its "
  "content, number of hops or position on the route. Blinding points, "
  "blinded node keys, ephemeral keys, encrypted data and onions never repeat "
  "across messages or generated routes, even for identical requests, and no "
  "payload, node key (other than the introduction node's) or route data "
  "appears in the clear.",
  ["inputs", "histories"], "All sequences of sends, forwards and route "
  "generations.",
  "Freshness and non-repetition are properties of histories; tests look at "
  "single messages with fixed keys.",
  [M+"messenger.go", R+"blinded.go", M+"onion.go"],
  [("fresh session and blinding keys", M+"messenger.go SendMessage/multiHopPath"),
   ("path keys", R+"blinded.go buildBlindedRoute"),
   ("forwarded size", M+"onion.go, "+M+"messenger.go forwardMessage")],
  "runtime monitor over recorded histories: uniqueness, constant size and "
  "absence of cleartext",
  COMMON + "Cryptographic strength itself can't be observed.")

p("C14", "Messages reach their recipient exactly once, in order and unchanged",
  "In a network of running nodes every message that a node's API accepted "
  "for sending is delivered exactly once to the subscribers of its payload "
  "types at its recipient and to nobody else, with its payloads and reply "
  "path unchanged, as long as every node on its path runs and the links "
  "deliver. Messages that take the same path are delivered in the order sent, "
  "replies to a reply path reach their author, and lost, replayed or junk "
  "messages on the links neither affect other messages nor cause duplicates.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "All topologies, concurrent sends, kinds of destination, and losses, "
  "duplications and junk on the links.",
  "Only the itest with real lnd nodes sends messages end to end, one at a "
  "time, over three nodes; unit tests mock the neighbours.",
  [M+"messenger.go", R+"blinded.go", S+"impl_sendonionmessage.go",
   S+"impl_subscribe_onion_payload.go"],
  [("sending", M+"messenger.go SendMessage"),
   ("receiving and forwarding", M+"messenger.go handleOnionMessage"),
   ("delivery", M+"messenger.go, "+S+"impl_subscribe_onion_payload.go")],
  "offline trace checker (exactly-once, FIFO, conservation) over event logs "
  "of whole simulated networks",
  COMMON + "lnd and its transport are simulated; gRPC is real.",
  observe=["SendOnionMessage and SubscribeOnionPayload clients",
           "the simulated links"])

p("C15", "An intermediate node forwards exactly the right message, once",
  "A node that is an intermediate hop sends exactly one message, to the next "
  "node its encrypted data names, with the peeled onion and the blinding "
  "point derived from its own (or the override if its data has one), and "
  "delivers nothing to its own subscribers. A node that is the last hop "
  "delivers and forwards nothing, and a failure to forward one message is "
  "not retried elsewhere and does not affect others.",
  ["inputs", "fault_sequences"], "All positions in a route, route data "
  "(with overrides, padding and unknown records), and send failures.",
  "Tests mock the onion processing and check one forward.",
  [M+"messenger.go", M+"onion.go", M+"node_ecdh.go"],
  [("decision", M+"messenger.go handleOnionMessage"),
   ("forwarding", M+"messenger.go forwardMessage"),
   ("blinding", M+"onion.go")],
  "runtime monitor: each observed send is compared with an independent "
  "peeling of the incoming message",
  COMMON + "lnd is simulated, onions are real.")

p("C16", "Hostile messages and faults never stop the processing of others",
  "Whatever peers send (malformed wire messages, onions, payloads, reply "
  "paths, route data, other custom messages), and whatever fails while one "
  "message is handled (signer, sending, payload handlers), the node does not "
  "crash, hang, shut down or leak, acts on no part of an invalid message, "
  "and processes every valid message that arrives before or after.",
  ["inputs", "fault_sequences", "histories"],
  "All byte strings as messages, at every layer, in all batches with valid "
  "messages; signer, network and handler failures.",
  "Tests inject single mocked failures; hostile bytes never reach the real "
  "processing in them.",
  [M+"messenger.go", M+"onion.go", L+"onion_message.go",
   L+"onion_msg_payload.go", L+"route_blinding.go"],
  [("error handling in the receive loop", M+"messenger.go manageOnionMessages"),
   ("decoding", M+"messenger.go handleOnionMessage, processOnion")],
  "runtime monitor with crash and hang detection under structured hostile "
  "workloads and fault injection",
  COMMON + "Verdicts for each message come from an independent processor.")

p("C17", "A replayed onion is processed at most once",
  "For as long as a node runs, an onion message that it has already "
  "processed (as recipient or forwarder) has no further effect when it "
  "arrives again, no matter how many messages came between, which peer "
  "sends it, or whether handling it failed the first time after processing. "
  "Different messages are never mistaken for replays, even if they have "
  "equal content.",
  ["histories", "schedules"], "All sequences of messages and copies of "
  "them, including altered copies.",
  "One test replays one mocked message.",
  [M+"messenger.go", M+"onion.go"],
  [("replay log", M+"messenger.go (sphinx router's replay log)"),
   ("onion processing", M+"messenger.go processOnion")],
  "offline checker over recorded delivery histories (at-most-once, no loss)",
  COMMON + "Replays across restarts are not covered: the log is in memory.")

p("C18", "Handler registration is linearizable",
  "Under concurrent registration and deregistration of handlers, with "
  "messages arriving meanwhile, there is at most one handler per payload "
  "type: each registration fails exactly if a handler is registered and "
  "each deregistration exactly if none is. Each payload goes to the one "
  "handler registered when it is handled or to none, types outside the "
  "final range are refused, and types do not affect each other.",
  ["schedules", "histories"], "All concurrent histories of registrations, "
  "deregistrations and deliveries.",
  "Tests register sequentially on one goroutine.",
  [M+"messenger.go"],
  [("registration", M+"messenger.go RegisterHandler, handleRegistration"),
   ("dispatch", M+"messenger.go manageOnionMessages")],
  "linearizability checking of recorded concurrent histories",
  COMMON)

p("C19", "Starting, stopping and failing of the service is clean at any moment",
  "Starting, stopping, and failures of lnd's streams are clean in every "
  "order and at every moment: second starts and stops, and registrations "
  "before the start or after the stop, return errors; stop returns, pending "
  "calls return, no goroutine or lnd subscription survives, and no handler "
  "runs after stop has returned. A failing lnd stream is reported to the shutdown request "
  "exactly once and only then, never by an orderly stop.",
  ["schedules", "fault_sequences", "histories"],
  "All orders and interleavings of start, stop, calls, messages and stream "
  "failures.",
  "Tests start and stop once.",
  [M+"messenger.go", S+"server.go"],
  [("lifecycle", M+"messenger.go Start/Stop"),
   ("server", S+"server.go Start/Stop")],
  "runtime monitor (goroutine and subscription conservation, no event after "
  "stop) over randomized lifecycles",
  COMMON + "Concurrent calls of Start and Stop are not judged.")

p("C20", "A message goes to the right peer over a real connection, or fails",
  "Sending to a node uses a route through the network when one is found; "
  "with direct connection allowed it first sees to it that the target is a "
  "peer, connecting with its announced addresses if it is not and waiting "
  "for the connection, and sends only once connected. The message goes to "
  "the first hop exactly once, and each failure (no route, no address, "
  "failing lnd calls, no connection, cancelled call) is returned as an "
  "error with nothing sent. Sends do not wait for each other.",
  ["inputs", "fault_sequences", "configurations"],
  "All views of the network, delays of connections and failing calls.",
  "Tests mock one outcome of each call in a fixed order.",
  [M+"messenger.go"],
  [("direct connection", M+"messenger.go lookupAndConnect"),
   ("routes", M+"messenger.go multiHopPath"),
   ("send", M+"messenger.go SendMessage")],
  "runtime monitor of every call to lnd, with fault injection at each of "
  "them; sent onions are peeled to their recipient",
  COMMON + "lnd is simulated.")

p("C21", "The send API validates requests and reports precise status codes",
  "A send request over the API succeeds exactly when it names one valid "
  "destination (a node, or a blinded path with an introduction node, a "
  "blinding point and hops), final payload types in range and a reply path, "
  "if any, of valid keys; otherwise it fails with InvalidArgument before anything is "
  "asked of lnd or sent. Content is passed on unchanged, a destination "
  "without a route to it is NotFound, and other failures are Internal.",
  ["inputs", "fault_sequences"], "All requests, valid or not in any subset "
  "of fields, and failures of lnd.",
  "Tests cover a dozen hand-written requests against a mocked messenger.",
  [S+"impl_sendonionmessage.go", S+"common.go", M+"messenger.go"],
  [("parsing", S+"impl_sendonionmessage.go, "+S+"common.go"),
   ("status codes", S+"impl_sendonionmessage.go")],
  "runtime monitor at the gRPC boundary: status and effects against an "
  "executable rule",
  COMMON)

p("C22", "A subscription delivers its payloads, holds its type, and cleans up",
  "While a subscription to a payload type is open it receives every payload "
  "of that type that arrives, once, in order, with value and reply path "
  "unchanged, and no other subscription to the type can be "
  "opened. When it ends for any reason (cancelled, client gone, failing "
  "stream, server stopping) the type becomes available again, messages and "
  "other subscriptions continue undisturbed, and the client sees a fitting "
  "status.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of arriving messages, competing subscribers, "
  "cancellations, dead clients, stream failures and shutdown.",
  "Tests run one subscription against mocks.",
  [S+"impl_subscribe_onion_payload.go", M+"messenger.go"],
  [("subscription loop", S+"impl_subscribe_onion_payload.go"),
   ("registration", M+"messenger.go RegisterHandler")],
  "offline trace checker over subscription histories with injected faults",
  COMMON)

p("C23", "The decode API reports an offer exactly as it was encoded",
  "Decoding an offer over the API reports its minimum amount, description, "
  "features, expiry, issuer, quantity bounds, x-only node id and signature "
  "with exactly the values in the string, and unset for absent ones. Strings "
  "that are not a valid offer fail with an error (InvalidArgument if empty) "
  "and no offer, and calls are independent of each other and of earlier "
  "ones.",
  ["inputs", "schedules"], "All offer strings; concurrent clients.",
  "Tests decode one offer.",
  [S+"impl_decodeoffer.go", S+"common.go", O+"encoding.go",
   L+"bolt12_offer.go"],
  [("composition of the response", S+"impl_decodeoffer.go"),
   ("status codes", S+"impl_decodeoffer.go")],
  "differential runtime monitor at the gRPC boundary",
  COMMON + "Offers whose text fields are not UTF-8 are not judged.")

p("C24", "No API does anything before the node is ready; permissions are exact",
  "A call of any API made before the service has started successfully has "
  "no effect: it waits for the start, and fails as Unavailable if its client "
  "gives up before; after a successful start all waiting and later calls are "
  "served. The macaroon permissions list "
  "exactly the methods the service serves, each with its documented entity "
  "and action.",
  ["schedules", "fault_sequences"], "All orders of calls, cancellations and "
  "starts that are slow, fail or succeed.",
  "Tests call handlers directly on a ready server.",
  [S+"server.go", S+"macaroons.go", S+"common.go"],
  [("readiness", S+"server.go waitForReady"),
   ("permissions", S+"macaroons.go")],
  "runtime monitor: effects of calls (on lnd) against the start's outcome; "
  "live service methods against the permission table",
  COMMON)

p("C25", "Startup retries, configuration and shutdown behave as documented",
  "A node started with R retries tries to reach lnd at most R+1 times with "
  "the configured wait in between, succeeds with the first success, and "
  "otherwise fails with the last error. Configurations and options are "
  "accepted exactly when valid and are applied as given; a complete "
  "instance serves its API and exchanges messages through lnd's real client "
  "until stopped, and a failing lnd stream requests shutdown once.",
  ["fault_sequences", "configurations", "schedules"],
  "All numbers of retries and failures, configurations, options, and "
  "moments of failure.",
  "Nothing tests startup; itests start one configuration.",
  ["boltnd.go", "config.go", S+"server.go"],
  [("connection attempts", "boltnd.go getLNDClient"),
   ("configuration", "config.go Validate"),
   ("shutdown", "boltnd.go NewBoltnd, Start, Stop")],
  "runtime monitor over whole instances against a fake lnd behind real "
  "TLS gRPC, with injected connection faults",
  COMMON + "Waits are judged by a lower bound only.")

p("C26", "No data races under concurrent use of the whole system",
  "Under any concurrent use of the public APIs (calls, subscriptions, "
  "cancellations, arriving messages, lnd failures, starts and stops, "
  "decoding and encoding in parallel) the code makes no two unsynchronized "
  "accesses to the same memory of which one is a write. No request affects "
  "another through shared memory.",
  ["schedules"], "All interleavings of concurrent API use.",
  "Tests are sequential, or use one goroutine beside the test.",
  [M+"messenger.go", S+"server.go", S+"impl_subscribe_onion_payload.go",
   R+"blinded.go", "boltnd.go", L+"bolt12_shared.go"],
  [("channels and the messenger's loop", M+"messenger.go"),
   ("ready and quit channels", S+"server.go")],
  "Go race detector over a concurrent whole-system workload",
  COMMON + "The race detector only sees the interleavings that occur.")

with open(root+"/properties.jsonl", "w") as f:
    for q in P:
        anchors = {"files": q["files"], "mechanism": [
            {"name": a, "where": b} for a, b in q["mech"]]}
        if q["observe"]:
            anchors["observe_at"] = list(q["observe"])
        f.write(json.dumps({
            "id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]},
            "why_tests_cant": q["why"], "anchors": anchors}) + "\n")

with open(root+"/MANIFEST.json", "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": q["id"],
            "quick_cmd": "./check.sh %s quick" % q["id"],
            "thorough_cmd": "./check.sh %s thorough" % q["id"],
            "evidence_file": "evidence/%s.json" % q["id"],
            "technique": q["technique"], "level": "exploration",
            "level_note": q["note"]} for q in P],
        "not_applicable": [],
        "notes": "No hooks: every check drives /repo's exported API from "
                 "the module in harness/, built against the working tree.",
    }, f, indent=1)
    f.write("\n")
