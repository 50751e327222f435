"""behaviour-preserving edits, eighth batch: trait objects, extension traits, guards, lazy iterators, closures and macros"""
from refdefs2 import *  # noqa: the file names
R = {}
# ---------------------------------------------------------------- relay.rs
R['r8-rl-dyn-event'] = [
    (REL, ("        let success_event = events::packet_ack::success(&packet, &res);", "        let query_result = state::PENDING_QUERIES"),
     """        let describe: &dyn Fn() -> cosmwasm_std::Event = &|| events::packet_ack::success(&packet, &res);
        let success_event = describe();
        let ica_acknowledgement = AcknowledgementData::Result(res);
"""),
]
R['r8-rl-and-then'] = [
    (REL, ("        let query_result = state::PENDING_QUERIES\n            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?\n            .map(\n", "        state::PENDING_QUERIES.remove"),
     """        let mut query_result = None;
        state::PENDING_QUERIES
            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
            .into_iter()
            .try_for_each(|paths| -> Result<(), ContractError> {
                let resp_msg = ica_acknowledgement.decode_module_query_safe_resp_last_index()?;
                query_result = Some(query_msg::result_from_response(paths, &resp_msg));
                Ok(())
            })?;

"""),
]
R['r8-rl-trait-ext'] = [
    (REL, """mod ibc_packet_ack {
    use cosmwasm_std::{Addr, Binary, IbcPacket};
""", """mod ibc_packet_ack {
    use cosmwasm_std::{Addr, Binary, IbcPacket};

    /// How a packet is known to the stores of this contract
    trait Identified {
        fn id(&self) -> (&str, u64);
    }

    impl Identified for IbcPacket {
        fn id(&self) -> (&str, u64) {
            (self.src.channel_id.as_str(), self.sequence)
        }
    }
"""),
    (REL, """            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
            .map(|_| query_msg""", """            .may_load(deps.storage, packet.id())?
            .map(|_| query_msg"""),
    (REL, """            .transpose()?;

        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
""", """            .transpose()?;

        state::PENDING_QUERIES.remove(deps.storage, packet.id());
"""),
]
R['r8-rl-timeout-update'] = [
    (REL, ("    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n    if channel_state.is_ordered()", "    ibc_packet_timeout::callback"),
     """    let channel_state = state::CHANNEL_STATE.load(deps.storage)?;
    let concerned = [
        channel_state.is_ordered(),
        channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id,
    ]
    .iter()
    .all(|holds| *holds);
    if concerned {
        let mut closed = channel_state;
        closed.close();
        state::CHANNEL_STATE.save(deps.storage, &closed)?;
    }

"""),
]
R['r8-rl-timeout-iter-msgs'] = [
    (REL, ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout", "\0END"),
     """        let messages = state
            .callback_address
            .into_iter()
            .map(|contract_addr| {
                IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                    original_packet: packet.clone(),
                    relayer: relayer.clone(),
                }
                .into_cosmos_msg(contract_addr)
            })
            .collect::<Result<Vec<_>, _>>()?;

        Ok(IbcBasicResponse::default().add_messages(messages))
    }
}
"""),
]
R['r8-rl-responder-struct'] = [
    (REL, ("        let state = state::STATE.load(deps.storage)?;\n\n        state::PENDING_QUERIES.remove", "\0END"),
     """        let callback_address = state::STATE.load(deps.storage)?.callback_address;

        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));

        Responder {
            to: callback_address,
        }
        .respond(|| IcaControllerCallbackMsg::OnTimeoutPacketCallback {
            original_packet: packet,
            relayer,
        })
    }

    struct Responder {
        to: Option<Addr>,
    }

    impl Responder {
        fn respond<F>(self, message: F) -> Result<IbcBasicResponse, ContractError>
        where
            F: FnOnce() -> IcaControllerCallbackMsg,
        {
            let response = IbcBasicResponse::default();
            self.to.map_or_else(
                || Ok(response.clone()),
                |addr| Ok(response.clone().add_message(message().into_cosmos_msg(addr)?)),
            )
        }
    }
}
"""),
]
# ---------------------------------------------------------------- handshake.rs
R['r8-hs-channel-checks-table'] = [
    (HS, ("        if channel_state.channel != channel {\n            return Err(ContractError::InvalidChannelInContractState);\n        }\n        if !channel_state.is_open() {\n            return Err(ContractError::InvalidChannelStatus {\n                expected: state::ChannelStatus::Open.to_string(),\n                actual: channel_state.channel_status.to_string(),\n            });\n        }\n\n        // Update the channel state\n        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n\n        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())\n    }\n\n    /// Handles the `ChanCloseConfirm`", "\0END"),
     """        ensure_closable(&channel_state, &channel)?;

        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }

    fn ensure_closable(
        stored: &state::ChannelState,
        channel: &IbcChannel,
    ) -> Result<(), ContractError> {
        let checks: [&dyn Fn() -> Result<(), ContractError>; 2] = [
            &|| {
                if &stored.channel == channel {
                    Ok(())
                } else {
                    Err(ContractError::InvalidChannelInContractState)
                }
            },
            &|| {
                if stored.is_open() {
                    return Ok(());
                }
                Err(ContractError::InvalidChannelStatus {
                    expected: state::ChannelStatus::Open.to_string(),
                    actual: stored.channel_status.to_string(),
                })
            },
        ];
        checks.iter().try_for_each(|check| check())
    }

    /// Handles the `ChanCloseConfirm` for the IBC module.
    #[allow(clippy::needless_pass_by_value)]
    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        ensure_closable(&channel_state, &channel)?;

        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }
}
"""),
]
R['r8-hs-update-close'] = [
    (HS, ("        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;", "    /// Handles the `ChanCloseConfirm`"),
     """        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;

        // Validate that this is the stored channel
        state::CHANNEL_STATE.update(
            deps.storage,
            |mut channel_state| -> Result<_, ContractError> {
                if channel_state.channel != channel {
                    return Err(ContractError::InvalidChannelInContractState);
                }
                if !channel_state.is_open() {
                    return Err(ContractError::InvalidChannelStatus {
                        expected: state::ChannelStatus::Open.to_string(),
                        actual: channel_state.channel_status.to_string(),
                    });
                }
                channel_state.close();
                Ok(channel_state)
            },
        )?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }

"""),
]
R['r8-hs-take-flag-macro'] = [
    (HS, """mod ibc_channel_open {
""", """/// Uses up a permission, failing with the given error where there is none.
macro_rules! use_up {
    ($flag:expr, $storage:expr, $error:expr) => {{
        let allowed = $flag.load($storage).unwrap_or_default();
        if !allowed {
            return Err($error);
        }
        $flag.save($storage, &false)?;
    }};
}

mod ibc_channel_open {
"""),
    (HS, ("        if !state::ALLOW_CHANNEL_OPEN_INIT", "        // Validate the host port"),
     """        use_up!(
            state::ALLOW_CHANNEL_OPEN_INIT,
            deps.storage,
            ContractError::ChannelOpenInitNotAllowed
        );

"""),
    (HS, ("        if !state::ALLOW_CHANNEL_CLOSE_INIT", "        // Validate that this is the stored channel"),
     """        use_up!(
            state::ALLOW_CHANNEL_CLOSE_INIT,
            deps.storage,
            ContractError::ChannelCloseInitNotAllowed
        );

"""),
]
R['r8-hs-labeled-block'] = [
    (HS, ("        let metadata: IcaMetadata = if channel.version.is_empty() {", "        metadata.validate(&channel)?;"),
     """        let metadata: IcaMetadata = 'metadata: {
            if channel.version.is_empty() {
                break 'metadata IcaMetadata::from_channel(deps.as_ref(), &channel)?;
            }
            let Ok(proposed) = serde_json_wasm::from_str(&channel.version) else {
                return Err(ContractError::UnknownDataType(
                    "cannot unmarshal ICS-27 interchain accounts metadata".to_string(),
                ));
            };
            proposed
        };
"""),
]
R['r8-hs-metadata-tryfrom'] = [
    (HS, """mod ibc_channel_open {
    use crate::types::callbacks::IcaControllerCallbackMsg;
""", """mod ibc_channel_open {
    use crate::types::callbacks::IcaControllerCallbackMsg;

    struct Negotiated(IcaMetadata);

    impl TryFrom<&str> for Negotiated {
        type Error = ContractError;

        fn try_from(version: &str) -> Result<Self, Self::Error> {
            serde_json_wasm::from_str(version)
                .map(Negotiated)
                .map_err(|_| {
                    ContractError::UnknownDataType(
                        "cannot unmarshal ICS-27 interchain accounts metadata".to_string(),
                    )
                })
        }
    }
"""),
    (HS, ("        let metadata: IcaMetadata =\n            serde_json_wasm::from_str(&counterparty_version)", "        metadata.validate(&channel)?;\n\n        // Check if the address"),
     """        let Negotiated(metadata) = counterparty_version.as_str().try_into()?;
"""),
]
R['r8-hs-refcell-state'] = [
    (HS, """        // update state with the ica info
        state.set_ica_info(
            &metadata.address,
            &channel.endpoint.channel_id,
            metadata.encoding.clone(),
        );
        state::STATE.save(deps.storage, &state)?;
""", """        // update state with the ica info
        let shared = std::cell::RefCell::new(&mut state);
        let record = |address: &str, channel_id: &str| {
            shared
                .borrow_mut()
                .set_ica_info(address, channel_id, metadata.encoding.clone());
        };
        record(&metadata.address, &channel.endpoint.channel_id);
        state::STATE.save(deps.storage, &state)?;
"""),
]
# ---------------------------------------------------------------- contract.rs
R['r8-ct-owner-guard-type'] = [
    (CT, """mod execute {
    use cosmwasm_std::{CosmosMsg, IbcMsg, SubMsg};
""", """mod execute {
    use cosmwasm_std::{CosmosMsg, IbcMsg, SubMsg};

    /// Proof that the sender owns the contract
    struct Owner;

    impl Owner {
        fn check(deps: &DepsMut, info: &MessageInfo) -> Result<Self, ContractError> {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
            Ok(Self)
        }

        fn allow_close(self, deps: DepsMut) -> Result<(), ContractError> {
            Ok(state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?)
        }
    }
"""),
    (CT, """    pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {
        cw_ownable::assert_owner(deps.storage, &info.sender)?;
""", """    pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {
        let owner = Owner::check(&deps, &info)?;
"""),
    (CT, """        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;

        let channel_close_msg""", """        owner.allow_close(deps)?;

        let channel_close_msg"""),
]
R['r8-ct-reply-let-else'] = [
    (CT, ("        match result {\n            SubMsgResult::Ok(resp) => {", "mod query {"),
     """        let resp = match result {
            SubMsgResult::Ok(resp) => resp,
            SubMsgResult::Err(err) => unreachable!("query packet failed: {err}"),
        };
        #[allow(deprecated)] // TODO: Remove deprecated `.data` field
        let data = resp.data.unwrap_or_default();
        let Some(sequence) = anybuf::Bufany::deserialize(&data)?.uint64(1) else {
            panic!("called `Option::unwrap()` on a `None` value")
        };
        let state::ContractState { ica_info, .. } = state::STATE.load(deps.storage)?;
        let Some(info) = ica_info else {
            return Err(ContractError::IcaInfoNotSet);
        };
        let query_paths = state::QUERY.load(deps.storage)?;
        let key = (info.channel_id.as_str(), sequence);

        state::QUERY.remove(deps.storage);
        state::PENDING_QUERIES.save(deps.storage, key, &query_paths)?;

        Ok(Response::default())
    }
}

"""),
]
R['r8-ct-migrate-steps'] = [
    (CT, """    migrate::validate_semver(deps.as_ref())?;
    migrate::validate_channel_encoding(deps.as_ref())?;
""", """    let steps: [fn(Deps) -> Result<(), ContractError>; 2] =
        [migrate::validate_semver, migrate::validate_channel_encoding];
    for step in steps {
        step(deps.as_ref())?;
    }
"""),
]
R['r8-ct-semver-cmp'] = [
    (CT, ("        if prev_version >= version {", "    /// Validate that the channel encoding is protobuf if set."),
     """        match prev_version.cmp(&version) {
            std::cmp::Ordering::Less => Ok(()),
            std::cmp::Ordering::Equal | std::cmp::Ordering::Greater => {
                Err(ContractError::InvalidMigrationVersion {
                    expected: format!("> {prev_version}"),
                    actual: keys::CONTRACT_VERSION.to_string(),
                })
            }
        }
    }

"""),
]
R['r8-ct-callback-update-fn'] = [
    (CT, ("        let mut contract_state = state::STATE.load(deps.storage)?;\n\n        contract_state.callback_address", "mod reply {"),
     """        let callback_address = match &callback_address {
            Some(addr) => Some(deps.api.addr_validate(addr)?),
            None => None,
        };
        state::STATE.update(deps.storage, |contract_state| {
            Ok::<_, ContractError>(state::ContractState {
                callback_address,
                ..contract_state
            })
        })?;

        Ok(Response::default())
    }
}

"""),
]
R['r8-ct-submsg-kind'] = [
    (CT, ("        let send_packet_submsg = if has_queries {", "        Ok(Response::default().add_submessage(send_packet_submsg))"),
     """        let wrap: Box<dyn Fn(IbcMsg) -> SubMsg> = if has_queries {
            // TODO: use payload when we switch to cosmwasm_2_0 feature
            Box::new(|msg| SubMsg::reply_on_success(msg, keys::reply_ids::SEND_QUERY_PACKET))
        } else {
            Box::new(SubMsg::new)
        };
        let send_packet_submsg = wrap(send_packet_msg);

"""),
]
# ---------------------------------------------------------------- packet.rs, metadata.rs, query_msg.rs, cosmos_msg.rs
R['r8-pk-lazy-paths'] = [
    (PK, ("                    let (abci_queries, _paths): (", "                    #[cfg(feature = \"export\")]\n                    #[allow(clippy::used"),
     """                    let mut _paths: Vec<(String, bool)> = Vec::with_capacity(queries.len());
                    let abci_queries: Vec<query_msg::proto::AbciQueryRequest> = queries
                        .into_iter()
                        .map(query_msg::query_to_protobuf)
                        .map(|(path, data, is_stargate)| {
                            _paths.push((path.clone(), is_stargate));
                            query_msg::proto::AbciQueryRequest { path, data }
                        })
                        .collect();

"""),
]
R['r8-pk-inspect-paths'] = [
    (PK, ("                    let (abci_queries, _paths): (", "                    #[cfg(feature = \"export\")]\n                    #[allow(clippy::used"),
     """                    let mut _paths: Vec<(String, bool)> = vec![];
                    let mut abci_queries = vec![];
                    abci_queries.extend(
                        queries
                            .into_iter()
                            .map(query_msg::query_to_protobuf)
                            .inspect(|(path, _, is_stargate)| {
                                _paths.push((path.clone(), *is_stargate));
                            })
                            .map(|(path, data, _)| query_msg::proto::AbciQueryRequest {
                                path,
                                data,
                            }),
                    );

"""),
]
R['r8-pk-next-loop'] = [
    (PK, ("                let mut proto_anys = messages\n", "                if !queries.is_empty() {"),
     """                let mut proto_anys = Vec::new();
                let mut remaining = messages.into_iter();
                loop {
                    match remaining.next() {
                        Some(msg) => match convert_to_proto_any(msg, ica_address.to_string()) {
                            Ok(any) => proto_anys.push(any),
                            Err(e) => return Err(StdError::generic_err(e.to_string())),
                        },
                        None => break,
                    }
                }

"""),
]
R['r8-md-check-iter'] = [
    (MD, ("        if self.version != ICA_VERSION {", "        if self.controller_connection_id"),
     """        let version_ok = std::iter::once(self.version.as_str()).any(|v| v == ICA_VERSION);
        if !version_ok {
            return Err(ContractError::InvalidVersion {
                expected: ICA_VERSION.to_string(),
                actual: self.version.clone(),
            });
        }
"""),
]
R['r8-md-previous-closure'] = [
    (MD, ("        if let Ok(channel_state) = CHANNEL_STATE.load(deps.storage) {", "        let options = CHANNEL_OPEN_INIT_OPTIONS"),
     """        let previous = || -> Option<Self> {
            let channel_state = CHANNEL_STATE.load(deps.storage).ok()?;
            serde_json_wasm::from_str(&channel_state.channel.version).ok()
        };
        if let Some(previous_metadata) = previous() {
            return Ok(previous_metadata);
        }

"""),
]
R['r8-md-address-find'] = [
    (MD, ("    if address.len() > DEFAULT_MAX_LENGTH ||", "    Ok(())\n}\n"),
     """    if address.len() > DEFAULT_MAX_LENGTH {
        return Err(ContractError::InvalidIcaAddress);
    }
    for c in address.chars() {
        if !c.is_alphanumeric() {
            return Err(ContractError::InvalidIcaAddress);
        }
    }
"""),
]
R['r8-qm-peekless-zip'] = [
    (QM, ("    paths\n        .into_iter()\n        .zip(resp_msg.responses.iter())", "/// The constants for the"),
     """    let mut responses = Vec::with_capacity(paths.len());
    for ((path, is_stargate), resp) in paths.into_iter().zip(&resp_msg.responses) {
        match from_protobuf::response(&path, resp, is_stargate) {
            Ok(response) => responses.push(response),
            Err(e) => return IcaQueryResult::Error(e.to_string()),
        }
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }
}

"""),
]
R['r8-cm-coin-newtype'] = [
    (CM, """    pub fn bank(msg: BankMsg, from_address: String) -> Result<Any, EncodeError> {
        match msg {
            BankMsg::Send { to_address, amount } => Any::from_msg(&MsgSend {
                from_address,
                to_address,
                amount: amount
                    .into_iter()
                    .map(|coin| ProtoCoin {
                        denom: coin.denom,
                        amount: coin.amount.to_string(),
                    })
                    .collect(),
            }),
""", """    struct Funds(Vec<cosmwasm_std::Coin>);

    impl From<Funds> for Vec<ProtoCoin> {
        fn from(funds: Funds) -> Self {
            let mut coins = Self::with_capacity(funds.0.len());
            for cosmwasm_std::Coin { denom, amount } in funds.0 {
                coins.push(ProtoCoin {
                    amount: amount.to_string(),
                    denom,
                });
            }
            coins
        }
    }

    pub fn bank(msg: BankMsg, from_address: String) -> Result<Any, EncodeError> {
        match msg {
            BankMsg::Send { to_address, amount } => Any::from_msg(&MsgSend {
                from_address,
                to_address,
                amount: Funds(amount).into(),
            }),
"""),
]
R['r8-cm-trait-convert'] = [
    (CM, """    pub fn gov(""", """    trait IntoAny {
        fn into_any(self, sender: String) -> Result<Any, EncodeError>;
    }

    impl IntoAny for (String, cosmwasm_std::Binary) {
        fn into_any(self, sender: String) -> Result<Any, EncodeError> {
            Any::from_msg(&MsgExecuteContract {
                sender,
                contract: self.0,
                msg: self.1.into(),
                funds: vec![],
            })
        }
    }

    #[allow(dead_code)]
    fn bare_call(contract: String, msg: cosmwasm_std::Binary, sender: String) -> Result<Any, EncodeError> {
        (contract, msg).into_any(sender)
    }

    pub fn gov("""),
]
R['r8-st-matches-order'] = [
    (ST, """            matches!(self.channel.order, IbcOrder::Ordered)
""", """            match self.channel.order {
                IbcOrder::Ordered => true,
                IbcOrder::Unordered => false,
            }
"""),
]
R['r8-st-close-replace'] = [
    (ST, """            self.channel_status = ChannelStatus::Closed;
""", """            let _previous = std::mem::replace(&mut self.channel_status, ChannelStatus::Closed);
"""),
]
R['r8-st-info-clone-question'] = [
    (ST, """            self.ica_info
                .as_ref()
                .map_or(Err(ContractError::IcaInfoNotSet), |s| Ok(s.clone()))
""", """            let info = self.ica_info.iter().next();
            let IcaInfo {
                ica_address,
                channel_id,
                encoding,
            } = info.ok_or(ContractError::IcaInfoNotSet)?;
            Ok(IcaInfo::new(ica_address, channel_id, encoding.clone()))
"""),
]

R['r8-serde-defaults'] = [('src/types/msg.rs', "        #[serde(skip_serializing_if = \"Option::is_none\")]\n        timeout_seconds", "        #[serde(default, skip_serializing_if = \"Option::is_none\")]\n        timeout_seconds"), ('src/types/msg.rs', "        #[serde(skip_serializing_if = \"Option::is_none\")]\n        packet_memo", "        #[serde(default = \"none\", skip_serializing_if = \"Option::is_none\")]\n        packet_memo"), ('src/types/msg.rs', "/// The messages to query", "const fn none() -> Option<String> {\n    None\n}\n\n/// The messages to query")]
