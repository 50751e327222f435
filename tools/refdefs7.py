"""behaviour-preserving edits, seventh batch: helpers shared between the entry points, one type per step, library idioms"""
from refdefs2 import *  # noqa: the file names
R = {}
# ---------------------------------------------------------------- relay.rs
R['r7-rl-unified-ack'] = [
    (REL, ("    match from_json(&ack.acknowledgement.data)? {", "/// Implements the IBC module's `OnTimeoutPacket` handler."),
     """    let acknowledgement: AcknowledgementData = from_json(&ack.acknowledgement.data)?;
    ibc_packet_ack::handle(deps, ack.original_packet, ack.relayer, acknowledgement)
}

"""),
    (REL, ("    /// Handles the successful acknowledgement of an ica packet.", "mod ibc_packet_timeout {"),
     """    /// Handles both kinds of acknowledgement
    #[allow(clippy::needless_pass_by_value)]
    pub fn handle(
        deps: DepsMut,
        packet: IbcPacket,
        relayer: Addr,
        ica_acknowledgement: AcknowledgementData,
    ) -> Result<IbcBasicResponse, ContractError> {
        let key = (packet.src.channel_id.as_str(), packet.sequence);
        let pending = state::PENDING_QUERIES.may_load(deps.storage, key)?;
        let (event, query_result) = match &ica_acknowledgement {
            AcknowledgementData::Result(res) => {
                let query_result = match pending {
                    Some(paths) => {
                        let resp_msg =
                            ica_acknowledgement.decode_module_query_safe_resp_last_index()?;
                        Some(query_msg::result_from_response(paths, &resp_msg))
                    }
                    None => None,
                };
                (events::packet_ack::success(&packet, res), query_result)
            }
            AcknowledgementData::Error(err) => (
                events::packet_ack::error(&packet, err),
                pending.map(|_| query_msg::IcaQueryResult::Error(err.clone())),
            ),
        };
        state::PENDING_QUERIES.remove(deps.storage, key);

        let response = IbcBasicResponse::default().add_event(event);
        match state::STATE.load(deps.storage)?.callback_address {
            Some(contract_addr) => {
                let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                    ica_acknowledgement,
                    original_packet: packet,
                    relayer,
                    query_result,
                }
                .into_cosmos_msg(contract_addr)?;
                Ok(response.add_message(callback_msg))
            }
            None => Ok(response),
        }
    }
}

"""),
]
R['r7-rl-with-callback'] = [
    (REL, ("        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {", "    /// Handles the unsuccessful"),
     """        let callback_address = state::STATE.load(deps.storage)?.callback_address;
        crate::ibc::relay::with_callback(
            IbcBasicResponse::default().add_event(success_event),
            callback_address,
            || IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement,
                original_packet: packet,
                relayer,
                query_result,
            },
        )
    }

"""),
    (REL, ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgement", "mod ibc_packet_timeout {"),
     """        crate::ibc::relay::with_callback(
            IbcBasicResponse::default().add_event(error_event),
            state.callback_address,
            || IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement: AcknowledgementData::Error(err),
                original_packet: packet,
                relayer,
                query_result,
            },
        )
    }
}

"""),
    (REL, ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout", "    }\n}\n"),
     """        crate::ibc::relay::with_callback(IbcBasicResponse::default(), state.callback_address, || {
            IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                original_packet: packet,
                relayer,
            }
        })
"""),
    (REL, "mod ibc_packet_ack {\n", """/// Adds the callback to the response if there is a callback address
fn with_callback(
    response: IbcBasicResponse,
    address: Option<cosmwasm_std::Addr>,
    msg: impl FnOnce() -> crate::types::callbacks::IcaControllerCallbackMsg,
) -> Result<IbcBasicResponse, ContractError> {
    let Some(address) = address else {
        return Ok(response);
    };
    Ok(response.add_message(msg().into_cosmos_msg(address)?))
}

mod ibc_packet_ack {
"""),
]
R['r7-rl-take-pending'] = [
    (REL, """        let query_result = state::PENDING_QUERIES
            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
            .map(
                |paths|""", """        let query_result = super::take_pending(deps.storage, &packet)?
            .map(
                |paths|"""),
    (REL, "        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));\n\n        if let Some(contract_addr) = state::STATE", "        if let Some(contract_addr) = state::STATE"),
    (REL, ("        let query_result = state::PENDING_QUERIES\n            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?\n            .map(|_|", "        if let Some(contract_addr) = state.callback_address"),
     """        let query_result = super::take_pending(deps.storage, &packet)?
            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));

"""),
    (REL, "mod ibc_packet_ack {\n", """/// Removes the paths of a pending query packet
fn take_pending(
    storage: &mut dyn cosmwasm_std::Storage,
    packet: &cosmwasm_std::IbcPacket,
) -> cosmwasm_std::StdResult<Option<Vec<(String, bool)>>> {
    let key = (packet.src.channel_id.as_str(), packet.sequence);
    let paths = state::PENDING_QUERIES.may_load(storage, key)?;
    state::PENDING_QUERIES.remove(storage, key);
    Ok(paths)
}

mod ibc_packet_ack {
"""),
]
R['r7-rl-events-push'] = [
    (REL, """            Ok(IbcBasicResponse::default()
                .add_message(callback_msg)
                .add_event(success_event))
        } else {
            Ok(IbcBasicResponse::default().add_event(success_event))
        }""", """            let mut response = IbcBasicResponse::default();
            response.events.push(success_event);
            response
                .messages
                .push(cosmwasm_std::SubMsg::new(callback_msg));
            Ok(response)
        } else {
            let mut response = IbcBasicResponse::default();
            response.events.push(success_event);
            Ok(response)
        }"""),
]
R['r7-rl-timeout-match-pair'] = [
    (REL, ("    if channel_state.is_ordered()\n", "    ibc_packet_timeout::callback(deps"),
     """    let same_channel = channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id;
    match (channel_state.is_ordered(), same_channel) {
        (true, true) => {
            channel_state.close();
            state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
        }
        (true, false) | (false, _) => {}
    }

"""),
]
R['r7-rl-destructure'] = [
    (REL, ("    // This lets the ICA controller know whether", "/// Implements the IBC module's `OnTimeoutPacket` handler."),
     """    let IbcPacketAckMsg {
        acknowledgement,
        original_packet,
        relayer,
        ..
    } = ack;
    let cosmwasm_std::IbcAcknowledgement { data, .. } = acknowledgement;
    match from_json::<AcknowledgementData>(data.as_slice()) {
        Ok(AcknowledgementData::Error(reason)) => {
            ibc_packet_ack::error(deps, original_packet, relayer, reason)
        }
        Ok(AcknowledgementData::Result(response)) => {
            ibc_packet_ack::success(deps, original_packet, relayer, response)
        }
        Err(invalid) => Err(invalid.into()),
    }
}

"""),
]
R['r7-rl-context'] = [
    (REL, ("    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)\n", "/// Implements the IBC module's `OnRecvPacket` handler."),
     """    TimeoutContext {
        storage: deps.storage,
        packet: msg.packet,
        relayer: msg.relayer,
    }
    .finish()
}

struct TimeoutContext<'a> {
    storage: &'a mut dyn cosmwasm_std::Storage,
    packet: cosmwasm_std::IbcPacket,
    relayer: cosmwasm_std::Addr,
}

impl TimeoutContext<'_> {
    fn finish(self) -> Result<IbcBasicResponse, ContractError> {
        let Self {
            storage,
            packet,
            relayer,
        } = self;
        state::PENDING_QUERIES.remove(storage, (&packet.src.channel_id, packet.sequence));
        let state::ContractState {
            callback_address, ..
        } = state::STATE.load(storage)?;
        callback_address
            .map(|address| {
                crate::types::callbacks::IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                    original_packet: packet,
                    relayer,
                }
                .into_cosmos_msg(address)
                .map(|msg| IbcBasicResponse::new().add_message(msg))
                .map_err(ContractError::from)
            })
            .unwrap_or_else(|| Ok(IbcBasicResponse::new()))
    }
}

"""),
    (REL, ("mod ibc_packet_timeout {", "\0END"), ""),
]
# ---------------------------------------------------------------- handshake.rs
R['r7-hs-reject-if'] = [
    (HS, "        if channel.counterparty_endpoint.port_id != keys::HOST_PORT_ID {\n            return Err(ContractError::InvalidHostPort);\n        }\n",
     "        reject_if(\n            channel.counterparty_endpoint.port_id != keys::HOST_PORT_ID,\n            ContractError::InvalidHostPort,\n        )?;\n"),
    (HS, "        if channel.endpoint.port_id == keys::HOST_PORT_ID {\n            return Err(ContractError::InvalidControllerPort);\n        }\n",
     "        reject_if(\n            channel.endpoint.port_id == keys::HOST_PORT_ID,\n            ContractError::InvalidControllerPort,\n        )?;\n"),
    (HS, "        if metadata.address.is_empty() {\n            return Err(ContractError::InvalidIcaAddress);\n        }\n",
     "        reject_if(metadata.address.is_empty(), ContractError::InvalidIcaAddress)?;\n"),
    (HS, "mod ibc_channel_open {\n    use crate::types::callbacks::IcaControllerCallbackMsg;\n", """mod ibc_channel_open {
    use crate::types::callbacks::IcaControllerCallbackMsg;

    fn reject_if(condition: bool, error: ContractError) -> Result<(), ContractError> {
        if condition {
            Err(error)
        } else {
            Ok(())
        }
    }
"""),
]
R['r7-hs-metadata-from-slice'] = [
    (HS, """            serde_json_wasm::from_str(&channel.version).map_err(|_| {
                ContractError::UnknownDataType(
                    "cannot unmarshal ICS-27 interchain accounts metadata".to_string(),
                )
            })?
        };""", """            parse_metadata(channel.version.as_str())?
        };"""),
    (HS, """            serde_json_wasm::from_str(&counterparty_version).map_err(|_| {
                ContractError::UnknownDataType(
                    "cannot unmarshal ICS-27 interchain accounts metadata".to_string(),
                )
            })?;""", """            parse_metadata(&counterparty_version)?;"""),
    (HS, "mod ibc_channel_close {\n", """fn parse_metadata(version: &str) -> Result<IcaMetadata, ContractError> {
    match serde_json_wasm::from_slice(version.as_bytes()) {
        Ok(metadata) => Ok(metadata),
        Err(_) => Err(ContractError::UnknownDataType(String::from(
            "cannot unmarshal ICS-27 interchain accounts metadata",
        ))),
    }
}

mod ibc_channel_close {
"""),
    (HS, "    use crate::types::callbacks::IcaControllerCallbackMsg;\n", "    use super::parse_metadata;\n    use crate::types::callbacks::IcaControllerCallbackMsg;\n"),
]
R['r7-hs-state-builder'] = [
    (HS, ("        // update state with the ica info\n", "        channel.version = counterparty_version;"),
     """        // update state with the ica info
        state = state.with_ica_info(
            &metadata.address,
            &channel.endpoint.channel_id,
            metadata.encoding.clone(),
        );
        state::STATE.save(deps.storage, &state)?;

"""),
    (ST, "        pub fn delete_ica_info(&mut self) {", """        #[must_use]
        pub fn with_ica_info(
            self,
            ica_address: impl Into<String>,
            channel_id: impl Into<String>,
            encoding: TxEncoding,
        ) -> Self {
            Self {
                ica_info: Some(IcaInfo::new(ica_address, channel_id, encoding)),
                ..self
            }
        }

        /// Deletes the ICA information
        pub fn delete_ica_info(&mut self) {"""),
]
R['r7-hs-close-stored-helper'] = [
    (HS, ("        // Validate that this is the stored channel\n        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n        if channel_state.channel != channel {\n            return Err(ContractError::InvalidChannelInContractState);\n        }\n        if !channel_state.is_open() {\n            return Err(ContractError::InvalidChannelStatus {\n                expected: state::ChannelStatus::Open.to_string(),\n                actual: channel_state.channel_status.to_string(),\n            });\n        }\n\n        // Update the channel state\n        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n\n        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())\n    }\n\n", "    /// Handles the `ChanCloseConfirm`"),
     """        OpenChannel::find(deps.storage, &channel)?.close(deps.storage)?;
        Ok(IbcBasicResponse::new())
    }

    /// The stored channel, known to be open
    struct OpenChannel(state::ChannelState);

    impl OpenChannel {
        fn find(
            storage: &dyn cosmwasm_std::Storage,
            channel: &IbcChannel,
        ) -> Result<Self, ContractError> {
            let stored = state::CHANNEL_STATE.load(storage)?;
            if stored.channel.ne(channel) {
                Err(ContractError::InvalidChannelInContractState)
            } else if stored.is_open() {
                Ok(Self(stored))
            } else {
                Err(ContractError::InvalidChannelStatus {
                    expected: state::ChannelStatus::Open.to_string(),
                    actual: stored.channel_status.to_string(),
                })
            }
        }

        fn close(mut self, storage: &mut dyn cosmwasm_std::Storage) -> Result<(), ContractError> {
            self.0.close();
            Ok(state::CHANNEL_STATE.save(storage, &self.0)?)
        }
    }

"""),
    (HS, ("        // Validate that this is the stored channel\n", "\0END"),
     """        let open = OpenChannel::find(deps.storage, &channel)?;
        open.close(deps.storage)?;
        Ok(IbcBasicResponse::default())
    }
}
"""),
]
# ---------------------------------------------------------------- metadata.rs
R['r7-md-tx-type-const'] = [
    (MD, '        if self.tx_type != "sdk_multi_msg" {', '        if self.tx_type != TX_TYPE {'),
    (MD, '            tx_type: "sdk_multi_msg".to_string(),\n        })', '            tx_type: TX_TYPE.to_owned(),\n        })'),
    (MD, "fn validate_ica_address(", "const TX_TYPE: &str = \"sdk_multi_msg\";\n\nfn validate_ica_address("),
]
R['r7-md-new-positional'] = [
    (MD, ("        Ok(Self {\n            version: ICA_VERSION", "    /// Validates"),
     """        let ChannelOpenInitOptions {
            connection_id,
            counterparty_connection_id,
            ..
        } = options;
        Ok(Self::new(
            ICA_VERSION.into(),
            connection_id,
            counterparty_connection_id,
            Default::default(),
            TxEncoding::Protobuf,
            "sdk_multi_msg".into(),
        ))
    }

"""),
    (MD, "use super::keys::ICA_VERSION;", "use super::keys::ICA_VERSION;\nuse crate::types::msg::options::ChannelOpenInitOptions;"),
]
R['r7-md-prev-flatten'] = [
    (MD, ("        if let Ok(channel_state) = CHANNEL_STATE.load(deps.storage) {", "        let options = CHANNEL_OPEN"),
     """        let previous = CHANNEL_STATE
            .may_load(deps.storage)
            .ok()
            .flatten()
            .map(|channel_state| channel_state.channel.version)
            .and_then(|version| serde_json_wasm::from_str::<Self>(&version).ok());
        if let Some(previous_metadata) = previous {
            return Ok(previous_metadata);
        }

"""),
]
R['r7-md-validate-asm'] = [
    (MD, ("        if self.version != ICA_VERSION {", "    }\n}\n\nimpl std::fmt::Display for IcaMetadata"),
     """        let Self {
            version,
            controller_connection_id,
            host_connection_id: _,
            address,
            encoding,
            tx_type,
        } = self;
        if version.as_str() != ICA_VERSION {
            return Err(ContractError::InvalidVersion {
                expected: ICA_VERSION.to_string(),
                actual: version.to_string(),
            });
        }
        if *controller_connection_id != channel.connection_id {
            return Err(ContractError::InvalidConnection);
        }
        match encoding {
            TxEncoding::Protobuf => {}
            other @ TxEncoding::Proto3Json => {
                return Err(ContractError::UnsupportedPacketEncoding(other.to_string()))
            }
        }
        if !address.is_empty() {
            validate_ica_address(address)?;
        }
        if tx_type == "sdk_multi_msg" {
            Ok(())
        } else {
            Err(ContractError::UnsupportedTxType(tx_type.clone()))
        }
"""),
]
# ---------------------------------------------------------------- state.rs
R['r7-st-status-as-str'] = [
    (ST, ("            match self {\n                Self::Uninitialized => write!(f,", "        }\n    }\n}\n"),
     """            f.write_str(self.as_str())
"""),
    (ST, "    impl std::fmt::Display for ChannelStatus {", """    impl ChannelStatus {
        /// The name ibc-go uses
        #[must_use]
        pub const fn as_str(&self) -> &'static str {
            match self {
                Self::Uninitialized => "STATE_UNINITIALIZED_UNSPECIFIED",
                Self::Init => "STATE_INIT",
                Self::TryOpen => "STATE_TRYOPEN",
                Self::Open => "STATE_OPEN",
                Self::Closed => "STATE_CLOSED",
                Self::Flushing => "STATE_FLUSHING",
                Self::FlushComplete => "STATE_FLUSHCOMPLETE",
            }
        }
    }

    impl std::fmt::Display for ChannelStatus {"""),
]
R['r7-st-info-ok-or'] = [
    (ST, """            self.ica_info
                .as_ref()
                .map_or(Err(ContractError::IcaInfoNotSet), |s| Ok(s.clone()))""",
     """            let Some(info) = &self.ica_info else {
                return Err(ContractError::IcaInfoNotSet);
            };
            Ok(IcaInfo {
                ica_address: info.ica_address.clone(),
                channel_id: info.channel_id.clone(),
                encoding: info.encoding.clone(),
            })"""),
]
# ---------------------------------------------------------------- packet.rs
R['r7-pk-helpers'] = [
    (PK, ("                let mut proto_anys = messages\n", "                if !queries.is_empty() {"),
     "                let mut proto_anys = convert_messages(messages, ica_address)?;\n\n"),
    (PK, ("                    let (abci_queries, _paths): (", "                    #[cfg(feature = \"export\")]\n                    #[allow(clippy::used_under"),
     "                    let (abci_queries, _paths) = convert_queries(queries);\n\n"),
    (PK, "impl IcaPacketData {\n", """fn convert_messages(
    messages: Vec<CosmosMsg>,
    ica_address: &str,
) -> StdResult<Vec<cosmos_sdk_proto::Any>> {
    let mut converted = Vec::with_capacity(messages.len());
    for message in messages {
        converted.push(
            convert_to_proto_any(message, ica_address.to_owned())
                .map_err(|e| StdError::generic_err(e.to_string()))?,
        );
    }
    Ok(converted)
}

#[cfg(feature = "query")]
type Queries = (
    Vec<crate::types::query_msg::proto::AbciQueryRequest>,
    Vec<(String, bool)>,
);

#[cfg(feature = "query")]
fn convert_queries(queries: Vec<cosmwasm_std::QueryRequest<cosmwasm_std::Empty>>) -> Queries {
    queries
        .into_iter()
        .map(crate::types::query_msg::query_to_protobuf)
        .map(|(path, data, is_stargate)| {
            let request = crate::types::query_msg::proto::AbciQueryRequest {
                path: path.clone(),
                data,
            };
            (request, (path, is_stargate))
        })
        .unzip()
}

impl IcaPacketData {
"""),
]
R['r7-pk-from-cosmos-tx'] = [
    (PK, """        let cosmos_tx = CosmosTx { messages };
        let data = cosmos_tx.encode_to_vec();
        Self::new(data, memo)""", """        let mut packet = Self::from(CosmosTx { messages });
        packet.memo = memo;
        packet"""),
    (PK, "impl IcaPacketData {\n", """impl From<CosmosTx> for IcaPacketData {
    fn from(tx: CosmosTx) -> Self {
        let mut data = Vec::with_capacity(tx.encoded_len());
        tx.encode(&mut data)
            .expect("a vector grows as it has to");
        Self::new(data, None)
    }
}

impl IcaPacketData {
"""),
]
R['r7-pk-decode-helper'] = [
    (PK, """            let msg_resp = tx_msg_data.msg_responses.get(index).ok_or_else(|| {
                StdError::generic_err("no MsgData found at the given index".to_string())
            })?;

            Ok(query_msg::proto::MsgModuleQuerySafeResponse::decode(
                msg_resp.value.as_slice(),
            )?)
""", "            decode_response(tx_msg_data.msg_responses.get(index))\n"),
    (PK, """            let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {
                StdError::generic_err("no MsgData found at the given index".to_string())
            })?;

            Ok(query_msg::proto::MsgModuleQuerySafeResponse::decode(
                msg_resp.value.as_slice(),
            )?)
""", "            decode_response(tx_msg_data.msg_responses.last())\n"),
    (PK, "    impl Data {\n", """    #[cfg(feature = "query")]
    fn decode_response(
        response: Option<&cosmos_sdk_proto::Any>,
    ) -> Result<query_msg::proto::MsgModuleQuerySafeResponse, ContractError> {
        match response {
            Some(any) => query_msg::proto::MsgModuleQuerySafeResponse::decode(any.value.as_slice())
                .map_err(ContractError::from),
            None => Err(ContractError::Std(StdError::generic_err(
                "no MsgData found at the given index",
            ))),
        }
    }

    impl Data {
"""),
]
R['r7-pk-timeout-map-or'] = [
    (PK, """            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));""",
     """            .plus_seconds(timeout_seconds.map_or(DEFAULT_TIMEOUT_SECONDS, u64::from));"""),
]
R['r7-pk-send-helper'] = [
    (PK, """        Ok(IbcMsg::SendPacket {
            channel_id: channel_id.into(),
            data: to_json_binary(&self)?,
            timeout: IbcTimeout::with_timestamp(timeout_timestamp),
        })""", """        to_json_binary(self).map(|data| IbcMsg::SendPacket {
            data,
            timeout: timeout_timestamp.into(),
            channel_id: channel_id.into(),
        })"""),
    (PK, "use cosmwasm_std::{to_json_binary, CosmosMsg, Env, IbcMsg, IbcTimeout, StdError, StdResult};", "use cosmwasm_std::{to_json_binary, CosmosMsg, Env, IbcMsg, StdError, StdResult};"),
]
# ---------------------------------------------------------------- cosmos_msg.rs
R['r7-cm-generic-any'] = [
    (CM, "    pub fn bank(msg: BankMsg, from_address: String) -> Result<Any, EncodeError> {\n        match msg {\n            BankMsg::Send { to_address, amount } => Any::from_msg(&MsgSend {",
     """    fn any<M: cosmos_sdk_proto::prost::Name>(msg: M) -> Result<Any, EncodeError> {
        let mut value = Vec::with_capacity(msg.encoded_len());
        msg.encode(&mut value)?;
        Ok(Any {
            type_url: M::type_url(),
            value,
        })
    }

    pub fn bank(msg: BankMsg, from_address: String) -> Result<Any, EncodeError> {
        match msg {
            BankMsg::Send { to_address, amount } => any(MsgSend {"""),
    (CM, "            } => Any::from_msg(&MsgUpdateAdmin {", "            } => any(MsgUpdateAdmin {"),
    (CM, "            WasmMsg::ClearAdmin { contract_addr } => Any::from_msg(&MsgClearAdmin {", "            WasmMsg::ClearAdmin { contract_addr } => any(MsgClearAdmin {"),
]
R['r7-cm-staking-early'] = [
    (CM, """            StakingMsg::Delegate { validator, amount } => {
                Any::from_msg(&cosmos_sdk_proto::cosmos::staking::v1beta1::MsgDelegate {
                    delegator_address,
                    validator_address: validator,
                    amount: Some(ProtoCoin {
                        denom: amount.denom,
                        amount: amount.amount.to_string(),
                    }),
                })
            }""", """            StakingMsg::Delegate { validator, amount } => {
                use cosmos_sdk_proto::cosmos::staking::v1beta1::MsgDelegate;
                let cosmwasm_std::Coin { denom, amount } = amount;
                let mut coin = ProtoCoin::default();
                coin.denom = denom;
                coin.amount = amount.u128().to_string();
                let delegate = MsgDelegate {
                    delegator_address,
                    validator_address: validator,
                    ..MsgDelegate {
                        amount: Some(coin),
                        ..Default::default()
                    }
                };
                return Any::from_msg(&delegate);
            }"""),
]
R['r7-cm-wasm-exec-helper'] = [
    (CM, """            } => Any::from_msg(&MsgExecuteContract {
                sender,
                contract: contract_addr,
                msg: msg.to_vec(),
                funds: funds
                    .into_iter()
                    .map(|coin| ProtoCoin {
                        denom: coin.denom,
                        amount: coin.amount.to_string(),
                    })
                    .collect(),
            }),
            WasmMsg::Instantiate {""", """            } => execute_contract(sender, contract_addr, &msg, funds),
            WasmMsg::Instantiate {"""),
    (CM, "    pub fn wasm(msg: WasmMsg, sender: String) -> Result<Any, EncodeError> {", """    fn execute_contract(
        sender: String,
        contract: String,
        msg: &[u8],
        funds: Vec<cosmwasm_std::Coin>,
    ) -> Result<Any, EncodeError> {
        let mut coins = Vec::new();
        coins.extend(funds.iter().map(|coin| ProtoCoin {
            amount: format!("{}", coin.amount),
            denom: coin.denom.to_string(),
        }));
        Any::from_msg(&MsgExecuteContract {
            sender,
            contract,
            msg: msg.into(),
            funds: coins,
        })
    }

    pub fn wasm(msg: WasmMsg, sender: String) -> Result<Any, EncodeError> {"""),
]
# ---------------------------------------------------------------- query_msg.rs
R['r7-qm-kind-enum'] = [
    (QM, ("        match path {\n            x if x.starts_with(\"/cosmos.bank.v1beta1.Query/\") =>", "    fn bank_response("),
     """        match Module::of(path) {
            Some(Module::Bank) => bank_response(path, resp),
            Some(Module::Wasm) => wasm_response(path, resp),
            #[cfg(feature = "staking")]
            Some(Module::Staking) => staking_response(path, resp),
            None => Err(ContractError::UnknownDataType(path.to_string())),
        }
    }

    enum Module {
        Bank,
        Wasm,
        #[cfg(feature = "staking")]
        Staking,
    }

    impl Module {
        fn of(path: &str) -> Option<Self> {
            if path.starts_with("/cosmos.bank.v1beta1.Query/") {
                return Some(Self::Bank);
            }
            if path.starts_with("/cosmwasm.wasm.v1.Query/") {
                return Some(Self::Wasm);
            }
            #[cfg(feature = "staking")]
            if path.starts_with("/cosmos.staking.v1beta1.Query/") {
                return Some(Self::Staking);
            }
            None
        }
    }

    /// Converts the response of a bank query
"""),
]
R['r7-qm-responses-helper'] = [
    (QM, """    paths
        .into_iter()
        .zip(resp_msg.responses.iter())
        .map(|((path, is_stargate), resp)| from_protobuf::response(&path, resp, is_stargate))
        .collect::<Result<_, _>>()
        .map_or_else(
            |e| IcaQueryResult::Error(e.to_string()),
            |responses| IcaQueryResult::Success {
                height: resp_msg.height,
                responses,
            },
        )""", """    match convert_all(&paths, &resp_msg.responses) {
        Err(reason) => IcaQueryResult::Error(reason.to_string()),
        Ok(responses) => IcaQueryResult::Success {
            responses,
            height: resp_msg.height,
        },
    }"""),
    (QM, "#[cfg(feature = \"export\")]\n#[must_use]\npub fn result_from_response(", """#[cfg(feature = "export")]
fn convert_all(
    paths: &[(String, bool)],
    responses: &[Vec<u8>],
) -> Result<Vec<IcaQueryResponse>, crate::types::ContractError> {
    std::iter::zip(paths, responses)
        .map(|((path, is_stargate), data)| from_protobuf::response(path, data, *is_stargate))
        .collect()
}

#[cfg(feature = "export")]
#[must_use]
pub fn result_from_response("""),
]
R['r7-qm-optional-helper'] = [
    (QM, """                    resp.contract_info.map(|info| {
                        ContractInfoResponse::new(
                            info.code_id,
                            cosmwasm_std::Addr::unchecked(info.creator),
                            if info.admin.is_empty() {
                                None
                            } else {
                                Some(cosmwasm_std::Addr::unchecked(info.admin))
                            },
                            false,
                            if info.ibc_port_id.is_empty() {
                                None
                            } else {
                                Some(info.ibc_port_id)
                            },
                        )
                    }),""", """                    resp.contract_info.map(|info| {
                        ContractInfoResponse::new(
                            info.code_id,
                            cosmwasm_std::Addr::unchecked(info.creator),
                            non_empty(info.admin).map(cosmwasm_std::Addr::unchecked),
                            false,
                            non_empty(info.ibc_port_id),
                        )
                    }),"""),
    (QM, "    fn bank_response(path: &str, resp: &[u8])", """    fn non_empty(value: String) -> Option<String> {
        match value.as_str() {
            "" => None,
            _ => Some(value),
        }
    }

    fn bank_response(path: &str, resp: &[u8])"""),
]
R['r7-qm-delegation-fn'] = [
    (QM, """                        delegation: resp
                            .delegation_response
                            .and_then(|del_resp| {
                                del_resp.delegation.map(|del| -> StdResult<_> {
                                    Ok(Delegation {
                                        delegator: del.delegator_address,
                                        validator: del.validator_address,
                                        amount: convert_to_coin(
                                            del_resp.balance.unwrap_or_default(),
                                        )?,
                                    })
                                })
                            })
                            .transpose()?,""", """                        delegation: match resp.delegation_response {
                            Some(del_resp) => convert_delegation(del_resp)?,
                            None => None,
                        },"""),
    (QM, """                            .filter_map(|del_resp| {
                                del_resp.delegation.map(|del| -> StdResult<_> {
                                    Ok(Delegation {
                                        delegator: del.delegator_address,
                                        validator: del.validator_address,
                                        amount: convert_to_coin(
                                            del_resp.balance.unwrap_or_default(),
                                        )?,
                                    })
                                })
                            })
                            .collect::<StdResult<_>>()?,""", """                            .filter_map(|del_resp| convert_delegation(del_resp).transpose())
                            .collect::<StdResult<_>>()?,"""),
    (QM, "        use super::{\n            Delegation, IcaAllDelegationsResponse,", "        use super::{\n            IcaAllDelegationsResponse,"),
    (QM, "    #[cfg(feature = \"staking\")]\n    fn staking_response(", """    #[cfg(feature = "staking")]
    fn convert_delegation(
        response: cosmos_sdk_proto::cosmos::staking::v1beta1::DelegationResponse,
    ) -> StdResult<Option<super::Delegation>> {
        let Some(delegation) = response.delegation else {
            return Ok(None);
        };
        let amount = convert_to_coin(response.balance.unwrap_or_default())?;
        Ok(Some(super::Delegation {
            delegator: delegation.delegator_address,
            validator: delegation.validator_address,
            amount,
        }))
    }

    #[cfg(feature = "staking")]
    fn staking_response("""),
]
# ---------------------------------------------------------------- contract.rs
R['r7-ct-request-channel'] = [
    (CT, ("    let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(\n        env.contract.address.to_string(),\n        msg.channel_open_init_options", "/// Handles the execution of the contract."),
     """    request_channel(deps, &env, msg.channel_open_init_options)
}

/// Allows a channel handshake and asks the chain for it
fn request_channel(
    deps: DepsMut,
    env: &Env,
    options: crate::types::msg::options::ChannelOpenInitOptions,
) -> Result<Response, ContractError> {
    state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;
    Ok(Response::new().add_message(new_ica_channel_open_init_cosmos_msg(
        env.contract.address.to_string(),
        options.connection_id,
        options.counterparty_port_id,
        options.counterparty_connection_id,
        None,
        options.channel_ordering,
    )))
}

"""),
    (CT, "    state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n\n    request_channel", "    request_channel"),
    (CT, ("        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n\n        let ica", "    /// Submits a [`IbcMsg::CloseChannel`]."),
     "        super::request_channel(deps, &env, options)\n    }\n\n"),
    (CT, "        keys, new_ica_channel_open_init_cosmos_msg, state,", "        keys, state,"),
]
R['r7-ct-context'] = [
    (CT, "        ExecuteMsg::CloseChannel {} => execute::close_channel(deps, info),", "        ExecuteMsg::CloseChannel {} => execute::Call { deps, info }.close_channel(),"),
    (CT, ("    #[allow(clippy::needless_pass_by_value)]\n    pub fn close_channel(", "    /// Sends an array of [`CosmosMsg`] to the ICA host."),
     """    pub struct Call<'a> {
        pub deps: DepsMut<'a>,
        pub info: MessageInfo,
    }

    impl Call<'_> {
        fn authorized(&self) -> Result<(), ContractError> {
            Ok(cw_ownable::assert_owner(self.deps.storage, &self.info.sender)?)
        }

        pub fn close_channel(self) -> Result<Response, ContractError> {
            self.authorized()?;

            let state::ChannelState {
                channel,
                channel_status,
            } = state::CHANNEL_STATE.load(self.deps.storage)?;
            if channel_status != state::ChannelStatus::Open {
                return Err(ContractError::InvalidChannelStatus {
                    expected: state::ChannelStatus::Open.to_string(),
                    actual: channel_status.to_string(),
                });
            }

            state::ALLOW_CHANNEL_CLOSE_INIT.save(self.deps.storage, &true)?;

            let channel_id = channel.endpoint.channel_id;
            Ok(Response::new().add_message(IbcMsg::CloseChannel { channel_id }))
        }
    }

"""),
]
R['r7-ct-semver-parse'] = [
    (CT, """        let version: semver::Version = keys::CONTRACT_VERSION.parse()?;
        let prev_version: semver::Version = prev_cw2_version.version.parse()?;
        if prev_version >= version {""", """        let version = semver::Version::parse(keys::CONTRACT_VERSION)?;
        let prev_version = semver::Version::parse(&prev_cw2_version.version)?;
        let upgrade = prev_version < version;
        if !upgrade {"""),
]
R['r7-ct-reply-sequence-helper'] = [
    (CT, """                #[allow(deprecated)] // TODO: Remove deprecated `.data` field
                let sequence = anybuf::Bufany::deserialize(&resp.data.unwrap_or_default())?
                    .uint64(1)
                    .unwrap();""", """                let sequence = sequence(resp)?;"""),
    (CT, "    /// Handles the reply to the query packet.\n", """    fn sequence(resp: cosmwasm_std::SubMsgResponse) -> Result<u64, ContractError> {
        #[allow(deprecated)]
        let data = match resp.data {
            Some(data) => data,
            None => cosmwasm_std::Binary::default(),
        };
        let fields = anybuf::Bufany::deserialize(data.as_slice())?;
        Ok(fields.uint64(1).unwrap())
    }

    /// Handles the reply to the query packet.
"""),
]
R['r7-ct-send-parts'] = [
    (CT, "        let contract_state = state::STATE.load(deps.storage)?;\n        let ica_info = contract_state.get_ica_info()?;\n        let has_queries = !queries.is_empty();\n",
     """        let crate::types::state::IcaInfoView {
            address,
            channel_id,
            encoding,
        } = state::STATE.load(deps.storage)?.get_ica_info()?.into();
        let reply_wanted = queries.len() > 0;
"""),
    (CT, "            &ica_info.encoding,\n            packet_memo,\n            &ica_info.ica_address,\n", "            &encoding,\n            packet_memo,\n            &address,\n"),
    (CT, "        let send_packet_msg = ica_packet.to_ibc_msg(&env, ica_info.channel_id, timeout_seconds)?;\n\n        let send_packet_submsg = if has_queries {", "        let send_packet_msg = ica_packet.to_ibc_msg(&env, channel_id, timeout_seconds)?;\n\n        let send_packet_submsg = if reply_wanted {"),
    (ST, "mod contract {\n", """/// What a packet needs to know of the account
pub struct IcaInfoView {
    pub address: String,
    pub channel_id: String,
    pub encoding: crate::ibc::types::metadata::TxEncoding,
}

impl From<contract::IcaInfo> for IcaInfoView {
    fn from(info: contract::IcaInfo) -> Self {
        let contract::IcaInfo {
            ica_address: address,
            channel_id,
            encoding,
        } = info;
        Self {
            address,
            channel_id,
            encoding,
        }
    }
}

mod contract {
"""),
]
# ---------------------------------------------------------------- others
R['r7-ev-from-packet'] = [
    (EV, """        vec![
            Attribute::new(SEQUENCE, packet.sequence.to_string()),
            Attribute::new(SRC_PORT, packet.src.port_id.clone()),
            Attribute::new(SRC_CHANNEL, packet.src.channel_id.clone()),
        ]""", """        let cosmwasm_std::IbcEndpoint {
            port_id,
            channel_id,
        } = &packet.src;
        let sequence = packet.sequence.to_string();
        [
            (SEQUENCE, &sequence),
            (SRC_PORT, port_id),
            (SRC_CHANNEL, channel_id),
        ]
        .into_iter()
        .map(Attribute::from)
        .collect()"""),
]
R['r7-cb-wasm-execute'] = [
    (CB, """        let execute = WasmMsg::Execute {
            contract_addr: contract_addr.into(),
            msg: self.into_json_binary()?,
            funds: vec![],
        };

        Ok(execute.into())""", """        let execute = cosmwasm_std::wasm_execute(
            contract_addr,
            &ReceiverExecuteMsg::ReceiveIcaCallback(self),
            Vec::new(),
        )?;
        Ok(CosmosMsg::Wasm(execute))"""),
    (CB, "    to_json_binary, Addr, Binary, CosmosMsg, IbcChannel, IbcPacket, StdResult, WasmMsg,", "    to_json_binary, Addr, Binary, CosmosMsg, IbcChannel, IbcPacket, StdResult,"),
]
R['r7-sg-default-channel'] = [
    (SG, ("        MsgChannelOpenInit {\n            port_id: port_id.into(),", "    }\n}\n"),
     """        let mut counterparty = Counterparty::default();
        counterparty.port_id = counterparty_port_id;

        let mut channel = Channel::default();
        channel.set_state(State::Init);
        channel.set_ordering(ordering);
        channel.counterparty = Some(counterparty);
        channel.connection_hops.push(connection_id.into());
        channel.version = version.into();

        MsgChannelOpenInit {
            port_id: port_id.into(),
            channel: channel.into(),
            signer: signer.into(),
        }
"""),
]
R['r7-hp-self-addr'] = [
    (HP, """        let msg = to_json_binary(&msg.into())?;
        Ok(WasmMsg::Execute {
            contract_addr: self.addr().into(),
            msg,
            funds: vec![],
        }
        .into())""", """        to_json_binary(&msg.into()).map(|msg| {
            CosmosMsg::from(WasmMsg::Execute {
                contract_addr: self.0.to_string(),
                funds: Default::default(),
                msg,
            })
        })"""),
]
