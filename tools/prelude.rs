#![allow(dead_code, unused_imports, deprecated)]
use cosmos_sdk_proto::traits::Message;
use cosmwasm_std::testing::*;
use cosmwasm_std::*;
use cw_ica_controller::contract::{execute, instantiate, migrate, query, reply};
use cw_ica_controller::ibc::handshake::*;
use cw_ica_controller::ibc::relay::*;
use cw_ica_controller::ibc::types::metadata::*;
use cw_ica_controller::ibc::types::packet::acknowledgement::Data as Ack;
use cw_ica_controller::types::callbacks::IcaControllerCallbackMsg as Cb;
use cw_ica_controller::types::msg::options::ChannelOpenInitOptions as Options;
use cw_ica_controller::types::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg};
use cw_ica_controller::types::query_msg::{self, IcaQueryResponse, IcaQueryResult};
use cw_ica_controller::types::state::{self, ChannelState, ContractState};

type Deps_ = OwnedDeps<MockStorage, MockApi, MockQuerier>;
fn opts() -> Options {
    Options { connection_id: "connection-0".into(), counterparty_connection_id: "connection-1".into(), counterparty_port_id: None, channel_ordering: None }
}
fn who(n: &str) -> Addr { MockApi::default().addr_make(n) }
fn inf(n: &str) -> MessageInfo { message_info(&who(n), &[]) }
fn setup(callback: bool) -> Deps_ {
    let mut d = mock_dependencies();
    let m = InstantiateMsg { owner: None, channel_open_init_options: opts(), send_callbacks_to: callback.then(|| who("cb").to_string()) };
    instantiate(d.as_mut(), mock_env(), inf("owner"), m).unwrap();
    d
}
fn meta(addr: &str) -> String {
    IcaMetadata::new("ics27-1".into(), "connection-0".into(), "connection-1".into(), addr.into(), TxEncoding::Protobuf, "sdk_multi_msg".into()).to_string()
}
fn chan(id: &str, order: IbcOrder, version: &str) -> IbcChannel {
    IbcChannel::new(
        IbcEndpoint { port_id: "wasm.contract".into(), channel_id: id.into() },
        IbcEndpoint { port_id: "icahost".into(), channel_id: "channel-99".into() },
        order, version, "connection-0")
}
fn open_init(d: &mut Deps_, id: &str, order: IbcOrder, version: &str) -> bool {
    ibc_channel_open(d.as_mut(), mock_env(), IbcChannelOpenMsg::OpenInit { channel: chan(id, order, version) }).is_ok()
}
fn open_ack(d: &mut Deps_, id: &str, order: IbcOrder, addr: &str) -> Result<IbcBasicResponse, String> {
    ibc_channel_connect(d.as_mut(), mock_env(), IbcChannelConnectMsg::OpenAck { channel: chan(id, order, &meta("")), counterparty_version: meta(addr) }).map_err(|e| e.to_string())
}
fn opened(callback: bool, order: IbcOrder) -> Deps_ {
    let mut d = setup(callback);
    assert!(open_init(&mut d, "channel-0", order.clone(), &meta("")));
    open_ack(&mut d, "channel-0", order, "ica0").unwrap();
    d
}
fn channel(d: &Deps_) -> ChannelState { from_json(query(d.as_ref(), mock_env(), QueryMsg::GetChannel {}).unwrap()).unwrap() }
fn contract_state(d: &Deps_) -> ContractState { from_json(query(d.as_ref(), mock_env(), QueryMsg::GetContractState {}).unwrap()).unwrap() }
fn packet(ch: &str, seq: u64) -> IbcPacket {
    IbcPacket::new(vec![1u8], IbcEndpoint { port_id: "wasm.contract".into(), channel_id: ch.into() },
        IbcEndpoint { port_id: "icahost".into(), channel_id: "channel-99".into() }, seq, IbcTimeout::with_timestamp(Timestamp::from_seconds(9)))
}
fn send(msgs: Vec<CosmosMsg>, queries: Vec<QueryRequest<Empty>>, memo: Option<&str>, timeout: Option<u64>) -> ExecuteMsg {
    ExecuteMsg::SendCosmosMsgs { messages: msgs, queries, packet_memo: memo.map(Into::into), timeout_seconds: timeout }
}
fn do_send(d: &mut Deps_, m: ExecuteMsg) -> Response { execute(d.as_mut(), mock_env(), inf("owner"), m).unwrap() }
fn do_reply(d: &mut Deps_, seq: u64) {
    let data = anybuf::Anybuf::new().append_uint64(1, seq).into_vec();
    reply(d.as_mut(), mock_env(), Reply { id: 1, payload: Binary::default(), gas_used: 0,
        result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(data.into()), msg_responses: vec![] }) }).unwrap();
}
fn sent(r: &Response) -> (String, Binary, IbcTimeout) {
    match &r.messages[0].msg { CosmosMsg::Ibc(IbcMsg::SendPacket { channel_id, data, timeout }) => (channel_id.clone(), data.clone(), timeout.clone()), m => panic!("{m:?}") }
}
fn tx(r: &Response) -> Vec<cosmos_sdk_proto::Any> {
    let p: cw_ica_controller::ibc::types::packet::IcaPacketData = from_json(sent(r).1).unwrap();
    cw_ica_controller::ibc::types::packet::CosmosTx::decode(p.data.as_slice()).unwrap().messages
}
fn query_ack(responses: Vec<Vec<u8>>, height: u64) -> Ack {
    let r = query_msg::proto::MsgModuleQuerySafeResponse { height, responses };
    let t = cosmos_sdk_proto::cosmos::base::abci::v1beta1::TxMsgData { data: vec![], msg_responses: vec![cosmos_sdk_proto::Any { type_url: "x".into(), value: r.encode_to_vec() }] };
    Ack::Result(t.encode_to_vec().into())
}
fn do_ack(d: &mut Deps_, ch: &str, seq: u64, a: &Ack) -> Result<IbcBasicResponse, String> {
    let m = IbcPacketAckMsg::new(IbcAcknowledgement::new(to_json_binary(a).unwrap()), packet(ch, seq), who("relayer"));
    ibc_packet_ack(d.as_mut(), mock_env(), m).map_err(|e| e.to_string())
}
fn do_timeout(d: &mut Deps_, ch: &str, seq: u64) -> IbcBasicResponse {
    ibc_packet_timeout(d.as_mut(), mock_env(), IbcPacketTimeoutMsg::new(packet(ch, seq), who("relayer"))).unwrap()
}
/// the callback carried by a response, with its addressee
fn callback(r: &IbcBasicResponse) -> Option<(String, serde_cb::Msg)> {
    assert!(r.messages.len() <= 1);
    r.messages.first().map(|m| match &m.msg {
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => { assert!(funds.is_empty()); (contract_addr.clone(), serde_cb::parse(msg)) }
        m => panic!("{m:?}"),
    })
}
mod serde_cb {
    use super::*;
    pub type Msg = Cb;
    pub fn parse(b: &Binary) -> Cb {
        let s = String::from_utf8(b.to_vec()).unwrap();
        let inner = s.strip_prefix("{\"receive_ica_callback\":").unwrap().strip_suffix('}').unwrap();
        serde_json_wasm::from_str(inner).unwrap()
    }
}
fn result_of(r: &IbcBasicResponse) -> Option<IcaQueryResult> {
    match callback(r).unwrap().1 { Cb::OnAcknowledgementPacketCallback { query_result, .. } => query_result, m => panic!("{m:?}") }
}
fn pending(d: &Deps_, ch: &str, seq: u64) -> bool { state::PENDING_QUERIES.has(d.as_ref().storage, (ch, seq)) }
fn balance_q() -> QueryRequest<Empty> { QueryRequest::Bank(BankQuery::Balance { address: "a".into(), denom: "stake".into() }) }
fn raw_q() -> QueryRequest<Empty> { QueryRequest::Wasm(WasmQuery::Smart { contract_addr: "c".into(), msg: Binary::from(b"{}") }) }
fn balance_r(n: &str) -> Vec<u8> {
    cosmos_sdk_proto::cosmos::bank::v1beta1::QueryBalanceResponse { balance: Some(cosmos_sdk_proto::cosmos::base::v1beta1::Coin { denom: "stake".into(), amount: n.into() }) }.encode_to_vec()
}
