#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)
C="src/contract.rs";H="src/ibc/handshake.rs";R="src/ibc/relay.rs";S="src/types/state.rs";K="src/ibc/types/packet.rs"
M="src/ibc/types/metadata.rs";G="src/ibc/types/stargate.rs";CM="src/types/cosmos_msg.rs";Q="src/types/query_msg.rs";CB="src/types/callbacks.rs"
EV="src/ibc/types/events.rs";MS="src/types/msg.rs";HP="src/helpers.rs"
OWN=("ownership","stored owner, managed by cw-ownable","cw_ownable::OWNERSHIP")
CH=("CHANNEL_STATE","the one ICA channel and its status",S)
ST=("STATE","ICA info (address, channel, encoding) and callback address",S)

p("C01","Only the owner can make the contract act",
  "Creating a channel, closing it, sending messages or queries to the interchain account and changing the callback address succeed only when the caller is the contract's current owner. Any other caller gets an error, with no state change and no outgoing message. An ownership change is always decided for the actual caller at the current block, and an accepted one takes effect.",
  ["inputs","histories"],"every execute message, every caller, every reachable stored ownership (including none, pending transfer)",
  "Tests try one non-owner call of one message (UpdateCallbackAddress); the other messages and any caller/state combination are never exercised.",
  [C],[("cw_ownable::assert_owner at the head of each handler",C),("cw_ownable::update_ownership(deps, block, sender, action)",C)],[OWN],["contract::execute"])
p("C02","The contract always has an owner, chosen at instantiation",
  "Instantiation makes the requested address, or the instantiating caller when none is requested, the owner. Renouncing ownership is always rejected and changes nothing, so after instantiation the contract never becomes ownerless; no other message than an ownership update touches the stored ownership.",
  ["inputs","histories"],"every instantiate/execute message and every later history of messages, IBC events, replies and migrations",
  "The only test checks the default owner; renounce and the requested owner are untested, and a history quantifier is out of reach of samples.",
  [C],[("initialize_owner",C),("RenounceOwnership rejected before delegation",C)],[OWN],["contract::instantiate","contract::execute"])
p("C03","A channel can only be opened by the contract's own request",
  "A channel-open-init is accepted only if the contract itself requested it, i.e. as the consequence of an instantiation or of the owner's create-channel message, and every such request authorises exactly one channel-open-init. Authorisation is given only together with sending the open-init message, and it is used up when an open-init is accepted.",
  ["histories","inputs"],"every interleaving of owner messages with IBC events submitted by arbitrary relayers",
  "No test calls the channel-open entry point at all.",
  [C,H,S],[("ALLOW_CHANNEL_OPEN_INIT written true only with the message, false on use",C+", "+H)],[("ALLOW_CHANNEL_OPEN_INIT","one-shot permission",S)],["handshake::ibc_channel_open"])
p("C04","A channel can only be closed by the owner's request on this side",
  "A channel-close-init is accepted only if the owner requested the closing through the contract, and every request authorises exactly one channel-close-init. A close request is accepted only while the recorded channel is open, gives the authorisation and sends exactly one close message naming the recorded channel.",
  ["histories","inputs"],"every interleaving of owner messages with relayer-submitted IBC events",
  "No test closes a channel.",
  [C,H,S],[("ALLOW_CHANNEL_CLOSE_INIT one-shot flag",C+", "+H),("is_open check in close_channel",C)],[("ALLOW_CHANNEL_CLOSE_INIT","one-shot permission",S),CH],["contract::execute","handshake::ibc_channel_close"])
p("C05","Channel-open-init accepts only a valid ICS-27 proposal",
  "A channel-open-init is accepted only if the counterparty port is `icahost` and its version metadata (as proposed, or as derived by the contract when the proposal is empty) has version ics27-1, the channel's own connection, the proto3 encoding, the sdk_multi_msg transaction type and an address that is empty or valid. Every other proposal is rejected, and the version answered is exactly the accepted metadata.",
  ["inputs"],"every channel description and version string a relayer can submit",
  "Tests call the metadata check on two fixed values and never the handshake step.",
  [H,M],[("host port check and IcaMetadata::validate",H+", "+M)],None,["handshake::ibc_channel_open"])
p("C06","A completed handshake records the account exactly as the host named it",
  "A channel-open-ack is accepted only if the counterparty's version metadata passes the same validation as a proposal and names a non-empty, valid account address, and the controller's own port is not the host port. On acceptance the recorded interchain account has the metadata's address and encoding and the acknowledged channel's id, and the recorded channel is that channel, open, carrying the counterparty's version; nothing else of the contract's configuration changes.",
  ["inputs","histories"],"every channel, counterparty version and stored state",
  "No test performs a channel-open-ack.",
  [H,M,S],[("on_acknowledgement",H),("set_ica_info / new_open_channel",S)],[ST,CH],["handshake::ibc_channel_connect","query GetContractState, GetChannel"])
p("C07","At most one channel is active at any time",
  "While the recorded channel is open, neither a channel-open-init nor a channel-open-ack is accepted, so an open channel is never silently replaced by another one.",
  ["histories","schedules"],"every interleaving of handshakes, including two started before either completes",
  "Needs two overlapping handshakes; tests perform none.",
  [H],[("is_open checks returning ActiveChannelAlreadySet",H)],[CH],["handshake::ibc_channel_open","handshake::ibc_channel_connect"])
p("C08","Host-side roles are refused and all IBC entry points exist",
  "The contract never acts as the host side: a channel-open-try, a channel-open-confirm and an incoming packet never succeed and never change state. All entry points the chain needs for a controller (instantiate, execute, query, reply, migrate and the IBC channel and packet hooks) are exported by the contract build.",
  ["inputs","configurations"],"every host-side handshake message or packet, every stored state",
  "Tests never call these entry points and never build the wasm exports.",
  [H,R,C],[("unreachable! arms",H+", "+R),("#[entry_point] exports",C+", "+H+", "+R)],None,["handshake::ibc_channel_open","handshake::ibc_channel_connect","relay::ibc_packet_receive"])
p("C09","The recorded channel is closed exactly when the channel really closes",
  "A close notification (init or confirm) is accepted only for exactly the recorded channel and only while it is recorded open, and then records it as closed. The recorded channel and its status change in no other way than by a completed handshake, an accepted close notification, or a packet timeout on an ordered channel; no other message, event, reply or migration changes them.",
  ["histories","inputs"],"every sequence of entry-point calls",
  "Requires quantifying over all entry points and all histories; tests perform no channel event.",
  [H,R,S,C],[("ibc_channel_close::{init,confirm}",H),("writers of CHANNEL_STATE",H+", "+R)],[CH],["handshake::ibc_channel_close","query GetChannel"])
p("C10","A timeout closes exactly the ordered channel the packet was sent on",
  "When a packet times out, the recorded channel becomes closed if it is ordered and is the channel that packet was sent on. If the channel is unordered, or the packet belongs to a different (earlier) channel, the recorded channel is left as it was.",
  ["histories","inputs"],"every packet, every stored channel, every order of timeouts and re-openings",
  "No test delivers a timeout.",
  [R,S],[("is_ordered && channel id equality guard",R)],[CH],["relay::ibc_packet_timeout"])
p("C11","Every acknowledgement is reported once, faithfully, to the callback contract",
  "For every acknowledged packet, if a callback address is recorded, exactly one callback message is sent, to that address, without funds, carrying the original packet, the relayer and the acknowledgement: result bytes for a success, the error text for an error. If no callback address is recorded, no message is sent; an acknowledgement that cannot be parsed is an error.",
  ["inputs","histories"],"every acknowledgement bytes, packet, relayer and stored configuration",
  "Tests only parse two fixed acknowledgements; the handler is never called.",
  [R,CB,K],[("ibc_packet_ack::{success,error}",R),("IcaControllerCallbackMsg::into_cosmos_msg",CB)],[ST],["relay::ibc_packet_ack"])
p("C12","Timeouts and completed handshakes are reported once to the callback contract",
  "For every timed-out packet and every accepted channel-open-ack, if a callback address is recorded, exactly one callback message is sent to that address, without funds: a timeout carries the original packet and relayer, a handshake carries the opened channel, the account address and the encoding. If no callback address is recorded, no message is sent.",
  ["inputs","histories"],"every timeout, every accepted handshake, every stored configuration",
  "No test delivers a timeout or handshake event.",
  [R,H,CB],[("ibc_packet_timeout::callback",R),("on_acknowledgement callback",H)],[ST],["relay::ibc_packet_timeout","handshake::ibc_channel_connect"])
p("C13","Acknowledgements are published as events identifying the packet",
  "Every accepted acknowledgement emits exactly one `acknowledge_packet` event with the packet's sequence, source port and source channel, plus the base64 result for a success or the error text for an error, whether or not a callback is sent.",
  ["inputs"],"every packet and acknowledgement",
  "Events are never inspected by a test.",
  [EV,R],[("events::packet_ack",EV)],None,["relay::ibc_packet_ack"])
p("C14","Pending queries are tied to their packet and settled exactly once",
  "When a packet with queries has been sent, the queries are remembered under exactly the channel and sequence number of that packet. They are forgotten when that packet is acknowledged (success or error) or times out, and no other packet's queries are affected.",
  ["histories","inputs"],"every sequence of sends, replies, acknowledgements and timeouts",
  "No test sends a query packet, handles a reply or acknowledges one.",
  [C,R,K,S],[("reply::send_query_packet",C),("PENDING_QUERIES remove in ack/timeout",R)],[("QUERY","paths of the packet being sent",S),("PENDING_QUERIES","(channel, sequence) -> paths",S)],["contract::reply","relay::ibc_packet_ack","relay::ibc_packet_timeout"])
p("C15","Query results are delivered only for queries and match them in order",
  "An acknowledgement callback carries a query result if and only if the packet contained queries: for a success it is decoded from the last message response of that acknowledgement, for an error it is the error text. A response count different from the number of queries, or an undecodable response, gives an error result instead of data; otherwise there is one response per query, in the order the queries were sent, with the host's block height.",
  ["inputs","histories"],"every acknowledgement payload and remembered query list",
  "No test decodes a query response.",
  [R,Q,K],[("result_from_response",Q),("decode_module_query_safe_resp_last_index",K),("may_load().map()",R)],[("PENDING_QUERIES","(channel, sequence) -> paths",S)],["relay::ibc_packet_ack"])
p("C16","The packet contains all messages in order, then the queries, and nothing else",
  "A send produces one ICS-27 execute-transaction packet whose transaction contains one entry per requested message, in the given order, followed, only if queries were given, by a single query entry holding all queries in the given order, signed by the interchain account. The memo is carried unchanged, and an encoding other than proto3 is refused.",
  ["inputs","configurations"],"every list of messages and queries, memo and encoding, in every feature configuration",
  "No test builds a packet from messages.",
  [K,C],[("IcaPacketData::from_cosmos_msgs",K)],None,["contract::execute","IcaPacketData::from_cosmos_msgs"])
p("C17","Packets are sent on the account's channel with the requested timeout",
  "A send emits exactly one IBC packet message and nothing else: on the recorded interchain account's channel, timing out the requested number of seconds after the current block time, or 600 seconds if not specified, without a block-height timeout. Sending is refused while no interchain account is recorded.",
  ["inputs","histories"],"every send message, block time and stored state",
  "No test sends a packet.",
  [C,K],[("to_ibc_msg",K),("get_ica_info",S)],[ST],["contract::execute"])
p("C18","Every message is converted faithfully and signed by the account",
  "Each supported message is converted to the corresponding host-chain message type with every field carried over to its counterpart unchanged, the interchain account as the acting address, and nothing invented beyond documented defaults. A pre-encoded message passes through with its type and bytes unchanged.",
  ["inputs","configurations"],"every supported message variant and every field value, with and without the staking feature",
  "Tests only parse a vote weight; no conversion is checked.",
  [CM],[("convert_to_proto_any and convert_to_any::*",CM)],None,["convert_to_proto_any","contract::execute"])
p("C19","Unsupported messages and queries abort, they are never dropped",
  "A send containing a message or query the contract does not support never succeeds: it is never silently skipped, reordered or replaced by another message. Exactly the documented message and query kinds are supported.",
  ["inputs","configurations"],"every message and query variant",
  "No test sends an unsupported message.",
  [CM,Q],[("panic! in the default arms",CM+", "+Q)],None,["convert_to_proto_any","query_to_protobuf"])
p("C20","Every query is sent to the right host method with all its parameters",
  "Each supported query is sent under the gRPC method path of the host module that answers it, encoded as that method's request with every parameter carried over to its counterpart; a pre-encoded query passes through with path and bytes unchanged and is marked as such.",
  ["inputs"],"every supported query variant and parameter value",
  "No test converts a query.",
  [Q],[("query_to_protobuf / convert_to_protobuf",Q)],None,["query_to_protobuf"])
p("C21","Every query response is decoded as the answer to that query",
  "For every query kind that can be sent, the response is decoded as the matching response type and returned as the matching result variant with every field taken from its counterpart; a pre-encoded query's response is returned as raw bytes with its path. A path the contract cannot decode gives an error.",
  ["inputs"],"every path and response bytes",
  "No test decodes a query response.",
  [Q],[("from_protobuf::response",Q)],None,["from_protobuf::response","relay::ibc_packet_ack"])
p("C22","A send waits for its sequence number only when it contains queries",
  "The packet message of a send asks for a reply, on success only and under the query reply id, if and only if the send contains queries, and the queries are then remembered for that reply. A reply is accepted only under that id; it moves the remembered queries to the sequence number found in the reply's data and sends nothing.",
  ["histories","inputs"],"every send, every reply",
  "No test executes a send or a reply.",
  [C,K],[("SubMsg::reply_on_success",C),("contract::reply dispatch",C)],[("QUERY","paths of the packet being sent",S)],["contract::execute","contract::reply"])
p("C23","The open-init request is built from the effective channel options",
  "Instantiation and create-channel send exactly one channel-open-init message: from the contract's own port and address, over the options' connection, to the options' counterparty port (icahost if none), with the options' ordering (ordered if none), and with ICS-27 version metadata for the options' two connections, an empty address and the proto3 encoding.",
  ["inputs"],"every option combination and contract address",
  "One test compares the message with the output of the very function under test.",
  [C,G],[("new_ica_channel_open_init_cosmos_msg",G)],None,["contract::instantiate","contract::execute"])
p("C24","Channel options are remembered and reused",
  "The options of the latest instantiation or create-channel that supplied options are remembered; a create-channel without options uses exactly the remembered ones and is refused when there are none. Nothing else changes the remembered options.",
  ["histories","inputs"],"every sequence of messages",
  "Tests look at the stored options only right after instantiation.",
  [C],[("create_channel options branch",C)],[("CHANNEL_OPEN_INIT_OPTIONS","last options",S)],["contract::execute"])
p("C25","The callback address is validated and changed only on request",
  "The recorded callback address is always absent or an address the chain accepted as valid, given at instantiation or by the owner's latest update (none clears it). No handshake, packet event, reply, migration or other message changes it, and updating it changes nothing else, in particular not the recorded interchain account.",
  ["histories","inputs"],"every sequence of entry-point calls",
  "One test updates the address once without an account recorded.",
  [C,H,R,S],[("addr_validate",C),("load-modify-save of STATE",C+", "+H)],[ST],["contract::instantiate","contract::execute","query GetContractState"])
p("C26","Migration only moves forward and keeps all state",
  "A migration succeeds only if the stored contract name is this contract's, the stored version is strictly lower than the new one, and any recorded interchain account uses the proto3 encoding. A successful migration records the new name and version and changes nothing else; it sends no message.",
  ["histories","inputs"],"every stored name, version and state",
  "Tests try three versions and two encodings; equality, pre-release order and foreign names are not tried.",
  [C,"src/types/keys.rs"],[("validate_semver, validate_channel_encoding",C)],[("contract_info","cw2 name and version","cw2")],["contract::migrate"])
p("C27","Stored data stays where earlier versions put it and never collides",
  "Every stored item keeps the storage key it has in released versions, since migration does not rewrite data, and no two items share or overlap keys. Stored records keep the field and variant names they have in released versions.",
  ["histories","configurations"],"every item, every version upgrade",
  "Tests read and write through the same constants, so a renamed key or field passes.",
  [S,M,MS],[("Item::new / Map::new constants, serde attributes",S)],None,["raw storage","query responses"])
p("C28","Wire formats match ICS-27, the host chain and the callback receivers",
  "The JSON of the packet (type, data, memo), of the version metadata, of acknowledgements and of callback messages, and the protobuf fields and type name of the query message, have exactly the names, tags and nesting the counterparties expect; optional fields are left out when absent. What the contract sends as a callback is what a receiver using the library's callback type and macro accepts.",
  ["inputs","configurations"],"every message sent, in every feature configuration",
  "Three tests check fixed strings of metadata and acknowledgements only.",
  [K,M,CB,Q,"derive/src/lib.rs",MS],[("serde and prost derives",K+", "+M+", "+CB+", "+Q),("ica_callback_execute","derive/src/lib.rs")],None,["serialized messages"])
p("C29","Smart queries report the stored state and change nothing",
  "The three queries return, respectively, exactly the recorded contract state, the recorded channel and the current ownership, or an error if it cannot be read. No query writes state.",
  ["inputs","histories"],"every query and stored state",
  "No test calls the query entry point.",
  [C],[("contract::query",C)],None,["contract::query"])
p("C30","Packet events never abort and the contract is deterministic",
  "Handling an acknowledgement or timeout never aborts on any packet or acknowledgement data: it either succeeds or returns an error. No entry point depends on anything but its arguments and the contract's storage and chain queries (no clock, randomness, hash-order or floating point).",
  ["inputs","configurations"],"every packet and acknowledgement; every entry point",
  "Absence of a panic or of nondeterminism over all inputs cannot be sampled; no test calls these entry points.",
  [R,Q,K,C,H],[("Result-based error handling in relay",R)],None,["relay::ibc_packet_ack","relay::ibc_packet_timeout"])
p("C31","External-contract helpers address the right contract and code",
  "Every message built by the helper types targets the wrapped contract address or code id, carries the given message, label, admin and salt unchanged and no funds, and every query helper asks the wrapped contract the query it is named after. The address predicted for a salted instantiation is derived from the queried checksum of that same code, the calling contract as creator and the same salt as in the message.",
  ["inputs"],"every helper call",
  "No test uses the helpers.",
  [HP],[("CwIcaControllerContract, CwIcaControllerCode, CwIcaControllerContractQuerier",HP)],None,["helpers"])
p("C32","The owner example contract only obeys its admin and its own controllers",
  "In the example owner contract, creating a controller or sending an action succeeds only for its admin, each created controller gets a fresh number and is recorded under the address predicted for it, and a callback is accepted only from a recorded controller and updates only that controller's record, and only on a channel-open callback. The admin and the recorded controllers are never refused while the records they name can be read.",
  ["inputs","histories"],"every caller, message and stored state",
  "The example contract has no tests.",
  ["testing/contracts/cw-ica-owner/src/contract.rs","testing/contracts/cw-ica-owner/src/state.rs"],[("verify_admin, CONTRACT_ADDR_TO_ICA_ID lookup","testing/contracts/cw-ica-owner/src/contract.rs")],None,["cw-ica-owner execute"])
p("C33","The callback counter example records every packet callback once",
  "In the example callback counter, each acknowledgement callback is appended once to the success or error list according to the acknowledgement, each timeout callback once to the timeout list, a channel-open callback changes nothing, and the query returns exactly the recorded lists.",
  ["inputs","histories"],"every callback message and stored state",
  "The example contract has no tests.",
  ["testing/contracts/callback-counter/src/contract.rs","testing/contracts/callback-counter/src/state.rs"],[("ica_callback_handler","testing/contracts/callback-counter/src/contract.rs")],None,["callback-counter execute, query"])
p("C34","The contract's messages and query answers keep their documented JSON form",
  "Every message the contract accepts (instantiate, execute, query, migrate) is read from the field and variant names of its published schema, with optional fields optional and required ones required, and every query answer is written with the names of the published schema, so that clients of the released contract keep working.",
  ["inputs"],"every message and answer, every field",
  "Tests build messages as Rust values, so a renamed, newly required or dropped field passes.",
  [MS,S,CB],[("cw_serde derives and serde attributes",MS+", "+S)],None,["contract entry points' JSON input and output","schema/"])
p("C35","Valid requests and handshakes are never refused",
  "An owner's request, an instantiation, a channel-open-init the contract asked for, a channel-open-ack, the reply to a query packet and a migration succeed whenever they are valid: they are refused only for a wrong caller, an invalid address or metadata, a missing request, an already open channel (or, for closing, none open), a missing account, options or remembered queries, unsupported content, a version that is not higher, or stored data that cannot be read. No other condition on the message, the sender or the history makes them fail.",
  ["inputs","histories"],"every message and event, every stored state",
  "Tests show that a few valid calls succeed; a call refused only for some input or after some history is not among them.",
  [C,H,M,K,S],[("every error return of the entry points",C+", "+H)],None,["contract::execute","contract::instantiate","handshake::ibc_channel_open","handshake::ibc_channel_connect"])
p("C36","Library functions for other contracts mean what they say",
  "What the crate offers to other contracts does what it says, for every input and without ever aborting. Decoding a transaction or query response out of an acknowledgement, at an index or the last one, gives exactly that response decoded as the requested type, and an error for an error acknowledgement, a missing index, an empty list or bytes that do not decode. The counterparty port of the channel options is the given one, else icahost. A channel-open-init message built from options, controller port and controller connection carries each of these values. Constructors, setters and predicates of the contract's state, channel state, ICA info and ICA metadata set or report exactly what they name and leave everything else alone.",
  ["inputs"],"every acknowledgement, index, option set and stored value",
  "Tests decode one hand-written acknowledgement and build one message; the other indices, types, options and setters are not exercised.",
  [K,"src/types/msg.rs",S,M,G],[("decode helpers of the acknowledgement data",K),("counterparty port default and open-init builder","src/types/msg.rs, "+G),("state constructors, setters and predicates",S)],None,["AcknowledgementData","ChannelOpenInitOptions","State","ChannelState","IcaMetadata"])
p("C37","An open-init without a version re-proposes the account or uses the options",
  "When the chain asks to open a channel without a proposed version, the contract answers with the metadata of the channel it has recorded, unchanged, so that a re-opened channel asks for the same account; only when no channel is recorded or its version is not ICS-27 metadata does it answer with fresh metadata: version ics27-1, the remembered connection (which has to be the channel's), the remembered counterparty connection, no address, proto3 and sdk_multi_msg.",
  ["inputs","histories"],"every open-init with an empty version, every recorded channel, every remembered option set",
  "Tests derive the metadata once, from options, and never after an earlier channel.",
  [M,H],[("IcaMetadata::from_channel",M),("empty version branch of open-init",H)],[CH,("CHANNEL_OPEN_INIT_OPTIONS","remembered channel options",S)],["handshake::ibc_channel_open"])
p("C38","A refused call names its true reason",
  "Every refusal with one of the contract's own errors is true: the error that is returned names a condition that really holds for this message, event and stored state (ownership errors only for a caller or an ownership action that is not allowed, 'active channel already set' only with an open channel, 'invalid connection', 'invalid version', 'unsupported transaction type', 'unsupported encoding', 'invalid address' and 'invalid host port' only when that part of the handshake is wrong, 'ICA info not set' only without an account, 'not allowed' only for an event the contract did not ask for, and so on), whatever the order of the checks; and the values quoted in the error are the required one and the one that was found, in this order.",
  ["inputs","histories"],"every refused message and event, every stored state",
  "Tests look at a few error texts for one wrong value each; which error a message wrong in another part or after another history gets is not exercised.",
  [C,H,M,K,S,"src/types/error.rs"],[("ContractError variants and their texts","src/types/error.rs"),("every error return of the entry points",C+", "+H),("IcaMetadata::validate",M)],None,["errors of the contract's entry points"])
p("C39","No call does more than it is documented to do",
  "A successful call has only its documented effects. Instantiation and create-channel send one channel-open-init request, close-channel one close request, a send one packet, a completed handshake, an acknowledgement and a timeout at most one callback to the recorded callback contract, without funds; every other call (ownership and callback updates, replies, migration, the other handshake events) sends nothing, so that no call can move the contract's funds or make it act towards another contract. Each call changes only the stored items it is about: options and the open permission for create-channel, the close permission for close-channel, the remembered queries for a send, ownership for an ownership update, the contract state for a callback update, and so on; smart queries change none. No call returns response data of its own.",
  ["inputs","histories"],"every successful call of every entry point, every stored state",
  "Tests compare the messages of a few calls; an additional message or write that needs attached funds, an old record or a special history is not seen.",
  [C,H,K,"src/ibc/relay.rs",S],[("every response built by the entry points",C+", "+H+", src/ibc/relay.rs"),("stored items",S)],None,["messages, data and storage of the contract's entry points"])
p("C40","Account, channel and packets always belong to the same channel",
  "At every point of the contract's history the recorded interchain account and the recorded channel belong together: a new contract has neither, a completed handshake records both at once with the same channel id and as open, nothing ever deletes or changes one without the other, and afterwards the recorded channel changes only by being closed. Packets and close requests are sent on, and queries are remembered under, exactly this channel.",
  ["histories"],"every sequence of calls and events, by induction over all accepting paths",
  "Tests run one handshake; the relation between the two records after re-opening, timeouts, failed handshakes or migrations is not sampled.",
  [H,C,"src/ibc/relay.rs",S],[("the only writer of account and channel",H),("set_ica_info, ChannelState::new_open_channel, close",S)],[CH,("STATE","account information and callback address",S)],["GetContractState","GetChannel","packets sent"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
