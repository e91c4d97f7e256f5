#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

p("C01", "Offers, invoice requests and invoices round trip on the wire",
  "Encoding any offer, invoice request or invoice and decoding the bytes gives back the same value in every field. The bytes are exactly the documented stream: one record per populated field with its assigned type number and canonical value encoding (feature vectors as the bare bitmap), in ascending type order. Decoding a canonical stream and encoding the result reproduces it byte for byte.",
  ["inputs"], "every combination of populated fields and every representable field value, including boundary values such as the unix epoch, maximal integers and empty or very long strings",
  "The tests round trip a handful of fixed structs through the repository's own encoder and decoder, so a symmetrical change of a type number or an unlucky field value passes.",
  ["lnwire/bolt12_offer.go", "lnwire/bolt12_invoice_request.go", "lnwire/bolt12_invoice.go", "lnwire/bolt12_shared.go", "lnwire/tu64.go"],
  [("record lists built from populated fields", "lnwire: Offer.records, InvoiceRequest.records, Invoice.records"),
   ("stream decode into typed fields", "lnwire: DecodeOffer, DecodeInvoiceRequest, DecodeInvoice"),
   ("truncated integers and feature vectors", "lnwire/tu64.go, lnwire/bolt12_shared.go")],
  ["EncodeOffer/DecodeOffer", "EncodeInvoiceRequest/DecodeInvoiceRequest", "EncodeInvoice/DecodeInvoice"])

p("C02", "Onion message structures round trip; what cannot be carried is refused",
  "An onion message, an onion payload (reply path, encrypted data and any set of final-hop records, including empty ones) and blinded route data decode to exactly what was encoded, in the documented byte layout. A value the layout cannot carry, such as a reply path with no hops or with more hops or data than its counters can express, or a final-hop record below the reserved range, is refused with an error rather than truncated.",
  ["inputs"], "every structure, with any number of hops, any data lengths including 0, 65535 and beyond, and any set and order of final-hop record types",
  "The tests encode a few small fixed structures and never reach counter limits, empty records or several records at once.",
  ["lnwire/onion_message.go", "lnwire/onion_msg_payload.go", "lnwire/route_blinding.go"],
  [("onion message layout", "lnwire/onion_message.go: Encode, Decode"),
   ("payload and reply path records", "lnwire/onion_msg_payload.go: EncodeOnionMessagePayload, DecodeOnionMessagePayload, encodeReplyPath, decodeReplyPath, encodeBlindedHop"),
   ("blinded route data stream", "lnwire/route_blinding.go")],
  ["OnionMessage.Encode/Decode", "EncodeOnionMessagePayload/DecodeOnionMessagePayload", "EncodeBlindedRouteData/DecodeBlindedRouteData"])

p("C03", "The Merkle root covers exactly the records that were on the wire",
  "The root reported for a decoded offer, invoice request or invoice is the BOLT 12 Merkle root of the records that were on the wire, leaving out only the signature range (types 240 to 1000). Every other record counts: ones the decoder does not know, empty ones, and ones holding default values. The root of a set of records does not depend on the order in which they are handed over.",
  ["inputs"], "every well-formed stream of records: any number of records (1 to dozens), any known and unknown types, any values",
  "Existing vectors stop at three records and never contain an unknown, empty or default-valued record; the tree shape only matters from five records on.",
  ["lnwire/bolt12_merkle.go", "lnwire/bolt12_shared.go"],
  [("leaf, nonce and branch hashing", "lnwire/bolt12_merkle.go: CreateTLVLeaves, CreateTLVBranches, CalculateRoot, orderNodes"),
   ("root of a decoded stream", "lnwire/bolt12_shared.go: decodeMerkleRoot; lnwire/bolt12_merkle.go: unknownRecordsFromParsed")],
  ["MerkleRoot of decoded offers, invoice requests, invoices", "MerkleRoot(records)"])

p("C04", "Signatures bind every byte of a message to its signer and message type",
  "An offer, invoice request or invoice carrying a signature made by its own key over its own root, tagged for its message type, passes validation. Changing, adding or removing any record outside the signature range, altering the signature or the key, or using a signature made for another message type or another field makes validation fail; an invoice request without a signature fails too.",
  ["inputs"], "every message, every key, and every single mutation of the signed stream or its signature",
  "The tests check one good and one bad signature per message over structs built in memory; they do not mutate decoded messages or swap signatures across message types.",
  ["lnwire/bolt12_signature.go", "lnwire/bolt12_offer.go", "lnwire/bolt12_invoice.go", "lnwire/bolt12_invoice_request.go", "lnwire/bolt12_merkle.go"],
  [("tagged digest and BIP-340 verification", "lnwire/bolt12_signature.go: signatureDigest, validateSignature"),
   ("per-message validation", "lnwire: Offer.Validate, InvoiceRequest.Validate, Invoice.Validate")],
  ["Validate after decode", "InvoiceRequest.SignatureDigest"])

p("C05", "Decoders accept exactly the well-formed byte strings and never crash",
  "Decoding any byte string as an offer, invoice request, invoice, onion message, onion payload or blinded route data ends with a value or an error, without crashing. Malformed input is rejected: truncated records, types out of order or repeated, non-minimal or over-long integers, fixed-size fields of another size, invalid public keys, and reply paths whose contents do not fill their record exactly. A well-formed input is accepted with exactly the field values that are on the wire.",
  ["inputs"], "every byte string; in particular every mutation, truncation and splice of well-formed streams",
  "Tests decode a few well-formed byte strings; peers and users supply arbitrary bytes.",
  ["lnwire/bolt12_offer.go", "lnwire/bolt12_invoice_request.go", "lnwire/bolt12_invoice.go", "lnwire/onion_message.go", "lnwire/onion_msg_payload.go", "lnwire/route_blinding.go", "lnwire/tu64.go"],
  [("stream decode", "lnwire: DecodeOffer, DecodeInvoiceRequest, DecodeInvoice, OnionMessage.Decode, DecodeOnionMessagePayload, DecodeBlindedRouteData"),
   ("reply path bounds", "lnwire/onion_msg_payload.go: decodeReplyPath, decodeBlindedHop")],
  ["return values of the decoders"])

p("C06", "Offer strings are accepted exactly when they spell a valid offer",
  "An offer string is accepted exactly when, after removing every \"+\" that stands between two bech32 characters together with the whitespace that follows it, it is an all-lower or all-upper case \"lno1\" string of bech32 characters whose bits, with zero padding of fewer than five bits, spell a valid offer. Any placement of such joins and either case give the same offer; strings with leading, trailing or doubled joins, stray whitespace, mixed case, another prefix or foreign characters are rejected.",
  ["inputs"], "every string; every valid offer with every placement of joins and whitespace and every single-character corruption",
  "The tests cover the ten vectors of the specification file, whose positive cases they skip.",
  ["offers/bech32.go", "offers/encoding.go"],
  [("join and whitespace removal", "offers/bech32.go: stripOffer"),
   ("checksum-less bech32", "offers/bech32.go: decodeBech32, toBytes"),
   ("prefix, bit regrouping, offer validation", "offers/encoding.go: DecodeOfferStr")],
  ["DecodeOfferStr"])

p("C07", "Invoice requests can be made exactly within the offer's terms",
  "Making an invoice request from an offer succeeds exactly when the amount is at least the offer's minimum and the quantity fits the offer: required and within the bounds if the offer sets a minimum or a maximum (an unset bound does not limit), and absent if it sets neither. The request names the offer by its root, inherits its chain and features, and carries the amount, quantity, key and note asked for. Once signed by the payer key it survives encoding, decoding and validation.",
  ["inputs"], "every offer (any amount and any combination of quantity bounds) and every requested amount, quantity, key and note",
  "The tests enumerate a few amounts and only offers that set both quantity bounds.",
  ["lnwire/bolt12_invoice_request.go"],
  [("amount and quantity rules", "lnwire/bolt12_invoice_request.go: NewInvoiceRequest"),
   ("digest to be signed", "lnwire/bolt12_invoice_request.go: InvoiceRequest.SignatureDigest")],
  ["NewInvoiceRequest result", "decode and validate of the signed request"])

p("C08", "Validation enforces required fields and quantity ranges, and nothing else",
  "Leaving signatures aside, an offer is valid exactly when it has a node key and a description and its minimum quantity does not exceed its maximum; an invoice request exactly when it has an offer reference, a payer key and a signature; and an invoice exactly when it has an amount, a payment hash, a creation time, a node key and a description. Each of these holds for values decoded from the wire as for values built in memory, whatever optional fields are present.",
  ["inputs"], "every subset of present fields with arbitrary values for those present",
  "The tests remove one field at a time from one fixed struct.",
  ["lnwire/bolt12_offer.go", "lnwire/bolt12_invoice_request.go", "lnwire/bolt12_invoice.go"],
  [("required field checks", "lnwire: Offer.Validate, InvoiceRequest.Validate, Invoice.Validate")],
  ["Validate error value"])

p("C09", "A message sent along any path reaches its destination, once, unaltered",
  "A message sent to a node over any sequence of relaying nodes is delivered at that node exactly once: the handler registered there for each final payload type receives exactly the payload bytes and the reply path that were supplied. No handler runs for types that were not sent, and no handler runs on any other node. If several messages are sent, in any interleaving, each one is delivered and none is mixed with another.",
  ["inputs", "histories"], "every path length that fits in a packet, every set of final payloads, optional reply path, sets of registered handlers and sequences of messages between any nodes",
  "Unit tests mock the network: a message is never processed by a second node. The itests need a live lnd and use two hops.",
  ["onionmsg/messenger.go", "routes/blinded.go", "lnwire/onion_msg_payload.go", "onionmsg/onion.go"],
  [("path blinding and onion construction", "routes/blinded.go: CreateBlindedRoute, createPathToBlind, blindedToSphinx"),
   ("peeling, forwarding and hand-off to handlers", "onionmsg/messenger.go: processOnion, handleOnionMessage, forwardMessage")],
  ["handler invocations on every node of a simulated network", "custom messages passed to each node's lnd"])

p("C10", "A message sent to a blinded route reaches its creator with everything in it",
  "A message sent to a blinded route is delivered exactly once to the node that created the route, with every final payload and the reply path that were supplied, whether the sender is directly connected to the route's introduction node or reaches it over other hops. A recipient that answers over the reply path it received reaches the node that created that reply path. Nobody but the final recipient gets the payloads.",
  ["inputs", "histories"], "every blinded route length and creator, every lead-in path from zero hops up, every set of payloads, and request/reply exchanges of any depth",
  "The unit test of the direct case uses no payloads and checks no delivery; the other cases compare intermediate structures, not what recipients get.",
  ["routes/blinded.go", "onionmsg/messenger.go", "rpcserver/common.go"],
  [("joining a clear path to a blinded one", "routes/blinded.go: createPathToBlind, blindedToSphinx"),
   ("direct connection to the introduction node", "routes/blinded.go: directToBlinded"),
   ("ephemeral key switch at the joint", "onionmsg/messenger.go: forwardMessage")],
  ["handler invocations on every node of a simulated network"])

p("C11", "Building a message yields a complete packet or an error, never a crash",
  "For any hops, blinded destination, reply path and payloads, building an onion message either fails with an error or yields a packet of the standard size which the hops, peeling it in turn, can follow to the last hop and which gives the last hop every payload and the reply path. Requests that do not fit in a packet, have no hops, miss a key, or whose path does not end at the introduction node are refused. Building never crashes and never alters what the caller passed in a way that changes a second build.",
  ["inputs"], "every number of hops and blinded hops (including more than a packet can carry), every size of payload and encrypted data",
  "Tests use paths of at most three hops and payloads of a few bytes.",
  ["routes/blinded.go"],
  [("request validation", "routes/blinded.go: BlindedRouteRequest.validate"),
   ("packet assembly", "routes/blinded.go: CreateBlindedRoute, blindedToSphinx, directToBlinded, createOnionMessage")],
  ["CreateBlindedRoute result peeled with independent routers"])

p("C12", "Messages in transit reveal neither contents, path nor sender's reuse of keys",
  "Every onion message put on the wire has the same length whatever it carries and wherever it is on its path. None contains a payload, the reply path or the identity of any node on the path in the clear; the blinding point differs from the packet's own ephemeral key, changes at every hop, and neither is ever reused across messages, even for identical requests (blinding points that a blinded destination itself prescribes aside). Only real identities of the immediate neighbours are used to address a message, and beyond its own part a node finds nothing in the packet but noise, which does not tell how long the path is.",
  ["inputs", "histories"], "every message and every hop of its path; repeated sends of the same request",
  "No test looks at bytes in transit or compares two sends.",
  ["onionmsg/messenger.go", "routes/blinded.go"],
  [("fresh session and blinding keys per message", "onionmsg/messenger.go: SendMessage"),
   ("per-hop blinding and encryption", "routes/blinded.go: CreateBlindedRoute; onionmsg/messenger.go: forwardMessage")],
  ["bytes passed to each simulated lnd"])

p("C13", "Relays forward only well-formed onions, to the stated next hop, once",
  "A node forwards an onion message only if it authenticates, is not a replay, carries no recipient payload for this hop, and has decryptable data naming a next node; it then sends exactly one message, to exactly that node, with the re-randomised packet and with the stated replacement blinding point if there is one and the derived one otherwise. In every other case nothing is sent and no handler runs. A message is never both delivered and forwarded.",
  ["inputs", "fault_sequences"], "every packet a peer can craft: corrupted bytes, replays, missing or garbled hop data, payloads for the recipient placed at a relay, any next node and any override",
  "Tests call the handling function with mocked packet processing, so cryptographic processing, replay detection and the bytes forwarded are not exercised.",
  ["onionmsg/messenger.go", "onionmsg/onion.go", "lnwire/route_blinding.go"],
  [("relay checks", "onionmsg/messenger.go: handleOnionMessage"),
   ("hop data decryption", "onionmsg/onion.go: decryptBlobFunc"),
   ("next blinding point and forwarding", "onionmsg/messenger.go: forwardMessage"),
   ("replay log", "onionmsg/messenger.go: NewOnionMessenger")],
  ["custom messages passed to lnd", "handler invocations"])

p("C14", "Nothing a peer sends and no failing handler stops message processing",
  "Whatever sequence of messages peers send (random bytes, truncated or corrupted onions, other message types, onions whose payload or hop data is garbage), and whether or not handlers or sends fail, the node keeps running, does not ask for shutdown, and handles every valid message that arrives later. A handler that fails does not keep a message's other payloads from their handlers. Messages of other types are ignored.",
  ["histories", "fault_sequences", "inputs"], "every sequence of good and bad incoming messages with any pattern of handler and send failures",
  "One test feeds three mocked outcomes; no real malformed packet is ever processed.",
  ["onionmsg/messenger.go"],
  [("per-message error containment", "onionmsg/messenger.go: manageOnionMessages")],
  ["shutdown callback", "handler invocations and forwards after bad input"])

p("C15", "Handler registration behaves as a map from payload type to one handler",
  "Registering a type succeeds exactly when it is in the final-payload range, the messenger is running and the type has no handler; deregistering succeeds exactly when it has one; each failure reports its own cause and changes nothing. A message's payload goes to the handler registered for its type when the message is processed, and to none after deregistration. This also holds when many callers register and deregister concurrently while messages arrive.",
  ["histories", "schedules"], "every sequence and interleaving of registrations, deregistrations and incoming messages over any types",
  "One sequential scenario with three calls is tested.",
  ["onionmsg/messenger.go"],
  [("serialised registration in the event loop", "onionmsg/messenger.go: handleRegistration, registerHandler, manageOnionMessages")],
  ["errors of RegisterHandler/DeregisterHandler", "handler invocations"],
  [("handler table", "payload type to handler", "onionmsg/messenger.go: Messenger.onionMsgHandlers")])

p("C16", "The messenger starts once, stops cleanly, and reports a dead stream once",
  "A messenger can be started once and stopped once, further calls fail; stopping returns after all its work has ended, even with registrations and messages in flight, and pending or later registrations then fail rather than hang. When its message stream cannot be opened, reports an error or is closed it asks its owner to shut down exactly once with the cause, fails registrations, and can still be stopped; a normal stop asks for nothing.",
  ["histories", "schedules", "fault_sequences"], "every ordering of start, stop, registrations, incoming messages and stream failures",
  "Tests start a messenger with a mock and stop it at one point.",
  ["onionmsg/messenger.go"],
  [("start/stop flags, quit channel and wait group", "onionmsg/messenger.go: Start, Stop, handleRegistration"),
   ("stream failure propagation", "onionmsg/messenger.go: manageOnionMessages")],
  ["return values", "shutdown callback", "live goroutines"])

p("C17", "Direct sends connect when needed, wait a bounded time, then send or fail",
  "A direct send to a current peer neither looks it up nor connects. Otherwise the node is looked up in the graph and one permanent connection is made to its first advertised address, and the message goes out as soon as the peer shows up; if there is no address, a lookup, connection or peer listing fails, the peer does not show up within the bounded number of checks, or the caller cancels, the send fails with that cause and nothing is sent. A direct send never asks for a route.",
  ["fault_sequences", "histories"], "every initial peer set, address list, point at which the peer appears, fault at any call, and cancellation at any point",
  "Tests walk a few scripted mock sequences.",
  ["onionmsg/messenger.go"],
  [("lookup, connect and bounded wait", "onionmsg/messenger.go: lookupAndConnect, findPeer")],
  ["calls made to lnd", "error of SendMessage"])

p("C18", "Routed sends follow the path lnd returns or fail without sending",
  "A send that is not direct asks lnd for one route to the destination (the introduction node for a blinded destination), with a minimal amount and no fee limit so that any channel path qualifies, and hands exactly one message to the first hop of the route returned, to be relayed over precisely those hops. If there is no route, the query fails, or a hop is unusable, the send fails with a distinguishable no-path error or the cause, and nothing is sent and no connection is made. A failure to hand over the message is reported to the caller.",
  ["inputs", "fault_sequences"], "every route reply (any length, missing or invalid hop keys), every query or send error, clear and blinded destinations",
  "Tests script one reply of each kind and do not verify which nodes the packet can be opened by.",
  ["onionmsg/messenger.go"],
  [("path query", "onionmsg/messenger.go: multiHopPath, queryRoutesRequest"),
   ("no-path error", "onionmsg/messenger.go: SendMessage")],
  ["QueryRoutes request", "custom message passed to lnd", "error of SendMessage"])

p("C19", "Generated blinded routes enter through the best eligible peer and lead home",
  "A blinded route generated for the node is introduced by a peer with which it has an active channel, which is known in the graph, has public channels, and advertises every required feature asked for; of these it is one with the most channels. Anyone can use the route to reach the node, and every generated route uses fresh keys. If the node has no active channels, no peer is eligible, or a lookup fails for another reason than the peer being unknown, generation fails with that cause.",
  ["inputs", "configurations", "fault_sequences"], "every set of channels and peers (any features, channel counts, missing from the graph), requested features, and lookup failures",
  "Tests check selection on two peers and compare the route's structure, not whether it works.",
  ["routes/blinded.go"],
  [("peer eligibility", "routes/blinded.go: getRelayingPeers, createRelayCheck"),
   ("selection and blinding", "routes/blinded.go: buildBlindedRoute, BlindedRouteGenerator.ReplyPath")],
  ["ReplyPath result used in a simulated network"])

p("C20", "The send RPC validates, translates faithfully and reports distinct errors",
  "A send request that names exactly one well-formed destination and only final-range payloads is passed on exactly as given: destination, reply path, every payload and the direct-connect choice. A request with none or both destinations, malformed keys, a blinded destination without hops or an out-of-range payload type is refused as an invalid argument with no effect on the network. A missing path is reported as not found, any other failure as internal, and success only if the message was handed to lnd.",
  ["inputs", "fault_sequences"], "every request message and every failure below it",
  "Tests cover one request of each kind against a mocked messenger.",
  ["rpcserver/impl_sendonionmessage.go", "rpcserver/common.go"],
  [("request parsing", "rpcserver/impl_sendonionmessage.go: parseSendOnionMessageRequest; rpcserver/common.go: parseReplyPath"),
   ("error codes", "rpcserver/impl_sendonionmessage.go: SendOnionMessage")],
  ["gRPC status code", "message decoded by the recipient", "calls made to lnd"])

p("C21", "The decode RPC returns exactly the fields of the offer",
  "For a valid offer string the decode call returns every field of the offer as it is in the string: amount, description, feature bits, expiry, issuer, quantity bounds, x-only node id and signature in hex, with unset fields left at their zero value. An empty string is an invalid argument, and any string that is not a valid offer is an error. Decoding has no side effects and gives the same answer every time.",
  ["inputs"], "every valid offer and every invalid string",
  "The only test decodes an empty string.",
  ["rpcserver/impl_decodeoffer.go", "offers/encoding.go"],
  [("response composition", "rpcserver/impl_decodeoffer.go: composeDecodeOfferResponse")],
  ["DecodeOffer response and status code"])

p("C22", "Payload subscriptions deliver in order without loss and always clean up",
  "While a subscription is open, every payload of its type that reaches the node is streamed to the subscriber in arrival order with its reply path, none lost, duplicated or mixed with other types. However the subscription ends (client cancel, stream failure, server shutdown) the call returns with a matching status and the type becomes available again, even if payloads are still queued; a second subscription to an active type is refused as unavailable and leaves the first intact. A slow, stuck or failing subscriber never prevents the node from shutting down, and once its subscription has ended never delays other messages.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of subscriptions, incoming messages, cancellations, stream failures and shutdown",
  "Tests deliver one payload to a mocked messenger and never combine queued payloads with failures.",
  ["rpcserver/impl_subscribe_onion_payload.go", "onionmsg/messenger.go"],
  [("hand-off from message loop to stream", "rpcserver/impl_subscribe_onion_payload.go: handleSubscribeOnionPayload"),
   ("deregistration on exit", "rpcserver/impl_subscribe_onion_payload.go: handleSubscribeOnionPayload")],
  ["stream contents", "status of the call", "later subscriptions and messages"])

p("C23", "The blinded route RPC returns the generated route as is",
  "A request for a blinded route with feature bits that fit the feature range yields a route, introduced by an eligible peer for exactly those features, whose introduction node, blinding point and hops (ids and encrypted data, in order) let a sender who copies them into a send request reach this node. A feature beyond the range is an invalid argument and triggers no lookup; any failure to produce a route is an internal error.",
  ["inputs", "fault_sequences"], "every list of requested features, every peer set, every lookup failure",
  "Tests mock the generator and return a route without hops.",
  ["rpcserver/impl_generate_blinded_route.go", "rpcserver/common.go"],
  [("feature parsing", "rpcserver/impl_generate_blinded_route.go: parseGenerateBlindedRouteRequest"),
   ("route composition", "rpcserver/common.go: composeBlindedRoute")],
  ["GenerateBlindedRoute response used to send", "status code"])

p("C24", "RPCs wait for startup; the server starts and stops once and ends cleanly",
  "A call made before the server is ready has no effect until it is, then completes normally; if its caller gives up first it fails as unavailable. The server can be started once and stopped once, with further calls failing, and failing startup leaves it stoppable and never ready. Stopping ends open subscriptions with an abort status and stops message processing.",
  ["histories", "schedules", "fault_sequences"], "every ordering of calls, start (succeeding or failing), cancellation and stop",
  "Tests open the ready gate by hand and never run the server's own start or stop.",
  ["rpcserver/server.go"],
  [("ready gate", "rpcserver/server.go: waitForReady, Start"),
   ("stop", "rpcserver/server.go: Stop")],
  ["status codes", "blocking behaviour of calls"])

p("C25", "Only configurations that can work are accepted, and retries are honoured",
  "A configuration is accepted exactly when it has a client configuration with a required lnd version that is at least the minimum version and includes every minimum build tag, and a non-negative wait. Settings derived from an embedding lnd carry its first listener, macaroon, certificate and network (mainnet, testnet or regtest; others are refused). Startup attempts the connection one time more than the configured number of retries, then fails with an error, and never starts twice.",
  ["configurations"], "every version, tag set, wait, retry count, listener list and network selection",
  "There are no tests of configuration or startup.",
  ["config.go", "boltnd.go"],
  [("validation", "config.go: Config.Validate"),
   ("derivation from lnd", "config.go: OptionLNDConfig"),
   ("connection attempts", "boltnd.go: Boltnd.Start")],
  ["NewBoltnd error", "connection attempts seen by a loopback listener"])

p("C26", "Node key operations always use the node identity key",
  "The shared secret computed through lnd for any public key equals the one computed with the node's identity private key, the reported public key is the node's identity key, and an error from lnd is passed on. Every request to the signer names the node identity key and the given point.",
  ["inputs", "fault_sequences"], "every key pair and every failure of the signer or of the initial lookup",
  "The test uses one fixed answer of a mocked signer.",
  ["onionmsg/node_ecdh.go"],
  [("key locator and identity lookup", "onionmsg/node_ecdh.go: NewNodeECDH, ECDH, PubKey")],
  ["ECDH result", "DeriveSharedKey arguments"])

p("C27", "Every RPC method is guarded by a fitting macaroon permission",
  "Each method of the published service has a non-empty macaroon permission entry under its full method name and no other entries exist. Sending a message requires write permission on peers; the other methods require read permission on off-chain data.",
  ["configurations"], "every method of the service descriptor, including ones added later",
  "No test compares the permission table with the service.",
  ["rpcserver/macaroons.go", "boltnd.go"],
  [("permission table", "rpcserver/macaroons.go; boltnd.go: Permissions")],
  ["Permissions against the gRPC service descriptor"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
for d in P:
    assert len(d["title"]) <= 80, d["id"]
    n = d["statement"].count(". ") + 1
    assert n <= 3, (d["id"], n)
print(len(P))
