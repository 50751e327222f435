"""behaviour-preserving edits, sixth batch: intermediate types, conversions by trait, custom iterators, less usual std idioms"""
from refdefs2 import *  # noqa: the file names
OW = 'testing/contracts/cw-ica-owner/src/contract.rs'
R = {}
COLL = ("                let mut proto_anys = messages\n", "                if !queries.is_empty() {")
FOLD = ("                    let (abci_queries, _paths): (", "                    #[cfg(feature = \"export\")]\n                    #[allow(clippy::used_under")
# ---------------------------------------------------------------- contract.rs
R['r6-owner-match'] = [(CT, "    let owner = msg.owner.unwrap_or_else(|| info.sender.to_string());\n", """    let owner = match &msg.owner {
        Some(owner) => std::borrow::Cow::Borrowed(owner.as_str()),
        None => std::borrow::Cow::Borrowed(info.sender.as_str()),
    };
""")]
R['r6-owner-as-deref'] = [(CT, "    let owner = msg.owner.unwrap_or_else(|| info.sender.to_string());\n    cw_ownable::initialize_owner(deps.storage, deps.api, Some(&owner))?;", """    let owner = msg.owner.as_deref().unwrap_or(info.sender.as_str());
    cw_ownable::initialize_owner(deps.storage, deps.api, Some(owner))?;""")]
R['r6-owner-get-or-insert'] = [(CT, "    let owner = msg.owner.unwrap_or_else(|| info.sender.to_string());\n", """    let mut requested = msg.owner;
    let owner = requested
        .get_or_insert_with(|| info.sender.to_string())
        .clone();
""")]
R['r6-request-struct'] = [
    (CT, "    let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(\n        env.contract.address.to_string(),\n        msg.channel_open_init_options.connection_id,\n        msg.channel_open_init_options.counterparty_port_id,\n        msg.channel_open_init_options.counterparty_connection_id,\n        None,\n        msg.channel_open_init_options.channel_ordering,\n    );\n",
     "    let ica_channel_open_init_msg = OpenRequest {\n        contract: &env.contract.address,\n        options: msg.channel_open_init_options,\n    };\n"),
    (CT, "    Ok(Response::new().add_message(ica_channel_open_init_msg))\n}\n\n/// Handles the execution of the contract.", """    Ok(Response::new().add_message(ica_channel_open_init_msg))
}

struct OpenRequest<'a> {
    contract: &'a cosmwasm_std::Addr,
    options: crate::types::msg::options::ChannelOpenInitOptions,
}

impl From<OpenRequest<'_>> for cosmwasm_std::CosmosMsg {
    fn from(request: OpenRequest<'_>) -> Self {
        let OpenRequest { contract, options } = request;
        new_ica_channel_open_init_cosmos_msg(
            contract.as_str(),
            options.connection_id,
            options.counterparty_port_id,
            options.counterparty_connection_id,
            None,
            options.channel_ordering,
        )
    }
}

/// Handles the execution of the contract."""),
]
R['r6-owner-guard-type'] = [
    (CT, "        cw_ownable::assert_owner(deps.storage, &info.sender)?;\n\n        let channel_state = state::CHANNEL_STATE.load(deps.storage)?;",
     "        let _owner = Owner::authenticate(&deps, &info)?;\n\n        let channel_state = state::CHANNEL_STATE.load(deps.storage)?;"),
    (CT, "        cw_ownable::assert_owner(deps.storage, &info.sender)?;\n\n        let mut contract_state", "        let _owner = Owner::authenticate(&deps, &info)?;\n\n        let mut contract_state"),
    (CT, "    /// Submits a [`IbcMsg::CloseChannel`].", """    /// proof that the sender is the owner
    struct Owner(#[allow(dead_code)] cosmwasm_std::Addr);

    impl Owner {
        fn authenticate(deps: &DepsMut, info: &MessageInfo) -> Result<Self, ContractError> {
            cw_ownable::assert_owner(deps.storage, &info.sender)
                .map(|()| Self(info.sender.clone()))
                .map_err(ContractError::from)
        }
    }

    /// Submits a [`IbcMsg::CloseChannel`]."""),
]
R['r6-with-owner-dyn'] = [
    (CT, ("        ExecuteMsg::CloseChannel {} => execute::close_channel(deps, info),", "        ExecuteMsg::SendCosmosMsgs {"),
     """        ExecuteMsg::CloseChannel {} => {
            let run: Box<dyn FnOnce(DepsMut, MessageInfo) -> Result<Response, ContractError>> =
                Box::new(execute::close_channel);
            run(deps, info)
        }
        ExecuteMsg::UpdateCallbackAddress { callback_address } => {
            let run: &dyn Fn(
                DepsMut,
                MessageInfo,
                Option<String>,
            ) -> Result<Response, ContractError> = &execute::update_callback_address;
            run(deps, info, callback_address)
        }
"""),
]
R['r6-options-or-try'] = [
    (CT, ("        let options = if let Some(new_options) = options {", "        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n\n        let ica_"),
     """        let given = options.is_some();
        let options = options.map_or_else(
            || {
                state::CHANNEL_OPEN_INIT_OPTIONS
                    .may_load(deps.storage)
                    .map_err(ContractError::from)
                    .and_then(|stored| stored.ok_or(ContractError::NoChannelInitOptions))
            },
            Ok,
        )?;
        if given {
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &options)?;
        }

"""),
]
R['r6-close-guard-let-else'] = [
    (CT, ("        if !channel_state.is_open() {\n            return Err(ContractError::InvalidChannelStatus {\n                expected: state::ChannelStatus::Open.to_string(),", "        Ok(Response::new().add_message(channel_close_msg))"),
     """        let state::ChannelState {
            channel,
            channel_status: state::ChannelStatus::Open,
        } = channel_state
        else {
            return Err(ContractError::InvalidChannelStatus {
                expected: state::ChannelStatus::Open.to_string(),
                actual: channel_state.channel_status.to_string(),
            });
        };

        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;

        let channel_close_msg = CosmosMsg::Ibc(IbcMsg::CloseChannel {
            channel_id: channel.endpoint.channel_id,
        });

"""),
]
R['r6-submsg-bool-then'] = [
    (CT, ("        let send_packet_submsg = if has_queries {", "        Ok(Response::default().add_submessage(send_packet_submsg))"),
     """        let mut send_packet_submsg = SubMsg::new(send_packet_msg);
        if has_queries {
            send_packet_submsg.id = keys::reply_ids::SEND_QUERY_PACKET;
            send_packet_submsg.reply_on = cosmwasm_std::ReplyOn::Success;
        }

"""),
]
R['r6-reply-take'] = [
    (CT, ("                let channel_id = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id;", "                Ok(Response::default())\n            }\n            SubMsgResult::Err"),
     """                let mut contract_state = state::STATE.load(deps.storage)?;
                let info = contract_state
                    .ica_info
                    .take()
                    .ok_or(ContractError::IcaInfoNotSet)?;
                let mut query_paths = state::QUERY.load(deps.storage)?;
                state::QUERY.remove(deps.storage);
                let remembered = std::mem::take(&mut query_paths);
                let key = (info.channel_id.as_str(), sequence);
                state::PENDING_QUERIES.save(deps.storage, key, &remembered)?;

"""),
]
R['r6-callback-replace'] = [
    (CT, ("        contract_state.callback_address = callback_address\n", "        state::STATE.save(deps.storage, &contract_state)?;"),
     """        let mut callback_address = callback_address
            .as_deref()
            .map(|addr| deps.api.addr_validate(addr))
            .transpose()?;
        std::mem::swap(&mut contract_state.callback_address, &mut callback_address);

"""),
]
R['r6-callback-opt-assign'] = [
    (CT, ("        let mut contract_state = state::STATE.load(deps.storage)?;\n\n        contract_state.callback_address", "        Ok(Response::default())\n    }\n}\n\nmod reply {"),
     """        let validated = match callback_address {
            Some(ref addr) => Some(deps.api.addr_validate(addr)?),
            None => None,
        };
        let ContractState { ica_info, .. } = state::STATE.load(deps.storage)?;
        state::STATE.save(
            deps.storage,
            &ContractState {
                callback_address: validated,
                ica_info,
            },
        )?;

"""),
    (CT, "        keys, new_ica_channel_open_init_cosmos_msg, state, ContractError, DepsMut, Env,\n        MessageInfo, Response,", "        keys, new_ica_channel_open_init_cosmos_msg, state, ContractError, ContractState, DepsMut,\n        Env, MessageInfo, Response,"),
]
R['r6-semver-cmp'] = [
    (CT, "        if prev_version >= version {", "        if !matches!(version.cmp(&prev_version), std::cmp::Ordering::Greater) {"),
]
R['r6-semver-max'] = [
    (CT, "        if prev_version >= version {", "        if std::cmp::max(&prev_version, &version) == &prev_version {"),
]
R['r6-query-fn-table'] = [
    (CT, ("        QueryMsg::GetContractState {} => to_json_binary(&query::state(deps)?),", "        QueryMsg::Ownership"),
     """        QueryMsg::GetContractState {} => query::state(deps).and_then(|s| to_json_binary(&s)),
        QueryMsg::GetChannel {} => query::channel(deps).as_ref().map_or_else(
            |e| Err(cosmwasm_std::StdError::generic_err(e.to_string())),
            to_json_binary,
        ),
"""),
]
# ---------------------------------------------------------------- packet.rs
R['r6-pk-custom-iter'] = [
    (PK, COLL, """                let mut proto_anys = Anys {
                    messages: messages.into_iter(),
                    from: ica_address,
                }
                .collect::<StdResult<Vec<cosmos_sdk_proto::Any>>>()?;

"""),
    (PK, "impl IcaPacketData {\n", """#[cfg(feature = "query")]
struct Anys<'a> {
    messages: std::vec::IntoIter<CosmosMsg>,
    from: &'a str,
}

#[cfg(feature = "query")]
impl Iterator for Anys<'_> {
    type Item = StdResult<cosmos_sdk_proto::Any>;

    fn next(&mut self) -> Option<Self::Item> {
        let msg = self.messages.next()?;
        Some(
            convert_to_proto_any(msg, self.from.to_string())
                .map_err(|e| StdError::generic_err(e.to_string())),
        )
    }
}

impl IcaPacketData {
"""),
]
R['r6-pk-drain'] = [
    (PK, COLL, """                let mut messages = messages;
                let mut proto_anys = Vec::with_capacity(messages.len() + 1);
                for msg in messages.drain(..) {
                    let any = convert_to_proto_any(msg, ica_address.to_owned())
                        .map_err(|e| StdError::generic_err(e.to_string()))?;
                    proto_anys.push(any);
                }

"""),
]
R['r6-pk-deque'] = [
    (PK, COLL, """                let mut left = std::collections::VecDeque::from(messages);
                let mut proto_anys: Vec<cosmos_sdk_proto::Any> = vec![];
                while let Some(msg) = left.pop_front() {
                    proto_anys.push(
                        convert_to_proto_any(msg, ica_address.to_string())
                            .map_err(|e| StdError::generic_err(e.to_string()))?,
                    );
                }

"""),
]
R['r6-pk-rev-pop'] = [
    (PK, COLL, """                let mut messages = messages;
                messages.reverse();
                let mut proto_anys: Vec<cosmos_sdk_proto::Any> = vec![];
                while let Some(msg) = messages.pop() {
                    proto_anys.push(
                        convert_to_proto_any(msg, ica_address.to_string())
                            .map_err(|e| StdError::generic_err(e.to_string()))?,
                    );
                }

"""),
]
R['r6-pk-loop-break'] = [
    (PK, COLL, """                let mut source = messages.into_iter();
                let mut proto_anys: Vec<cosmos_sdk_proto::Any> = Vec::new();
                loop {
                    let Some(msg) = source.next() else { break };
                    match convert_to_proto_any(msg, ica_address.to_string()) {
                        Ok(any) => proto_anys.push(any),
                        Err(e) => return Err(StdError::generic_err(e.to_string())),
                    }
                }

"""),
]
R['r6-pk-scan-err'] = [
    (PK, COLL, """                let mut failure = None;
                let mut proto_anys: Vec<cosmos_sdk_proto::Any> = messages
                    .into_iter()
                    .map_while(|msg| {
                        match convert_to_proto_any(msg, ica_address.to_string()) {
                            Ok(any) => Some(any),
                            Err(e) => {
                                failure = Some(StdError::generic_err(e.to_string()));
                                None
                            }
                        }
                    })
                    .collect();
                if let Some(failure) = failure {
                    return Err(failure);
                }

"""),
]
R['r6-pk-partition'] = [
    (PK, FOLD, """                    let mut abci_queries = Vec::new();
                    let mut _paths = Vec::new();
                    queries
                        .into_iter()
                        .map(query_msg::query_to_protobuf)
                        .for_each(|(path, data, is_stargate)| {
                            _paths.push((path.to_owned(), is_stargate));
                            abci_queries.push(query_msg::proto::AbciQueryRequest { data, path });
                        });

"""),
]
R['r6-pk-converted-struct'] = [
    (PK, FOLD, """                    struct Converted {
                        path: String,
                        data: Vec<u8>,
                        is_stargate: bool,
                    }
                    let converted: Vec<Converted> = queries
                        .into_iter()
                        .map(|query| {
                            let (path, data, is_stargate) = query_msg::query_to_protobuf(query);
                            Converted {
                                path,
                                data,
                                is_stargate,
                            }
                        })
                        .collect();
                    let _paths: Vec<(String, bool)> = converted
                        .iter()
                        .map(|c| (c.path.clone(), c.is_stargate))
                        .collect();
                    let abci_queries = converted
                        .into_iter()
                        .map(|Converted { path, data, .. }| query_msg::proto::AbciQueryRequest {
                            path,
                            data,
                        })
                        .collect();

"""),
]
R['r6-pk-chain-query'] = [
    (PK, "                    proto_anys.push(cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {\n                        StdError::generic_err(format!(\"failed to convert query msg: {e}\"))\n                    })?);\n                }\n",
     """                    let query_any = cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {
                        StdError::generic_err(format!("failed to convert query msg: {e}"))
                    })?;
                    proto_anys = proto_anys
                        .into_iter()
                        .chain(std::iter::once(query_any))
                        .collect();
                }

"""),
]
R['r6-pk-extend-option'] = [
    (PK, "                    proto_anys.push(cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {\n                        StdError::generic_err(format!(\"failed to convert query msg: {e}\"))\n                    })?);",
     """                    proto_anys.extend(Some(cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(
                        |e| StdError::generic_err(format!("failed to convert query msg: {e}")),
                    )?));"""),
]
R['r6-pk-append'] = [
    (PK, "                    proto_anys.push(cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {\n                        StdError::generic_err(format!(\"failed to convert query msg: {e}\"))\n                    })?);",
     """                    let mut last = vec![cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(
                        |e| StdError::generic_err(format!("failed to convert query msg: {e}")),
                    )?];
                    proto_anys.append(&mut last);"""),
]
R['r6-pk-timeout-builder'] = [
    (PK, ("        let timeout_timestamp = env\n", "    }\n}\n"),
     """        const NANOS: u64 = 1_000_000_000;
        let seconds = match timeout_seconds {
            None => DEFAULT_TIMEOUT_SECONDS,
            Some(seconds) => seconds,
        };
        let _ = NANOS;
        let timeout = IbcTimeout::from(env.block.time.plus_seconds(seconds));
        to_json_binary(self).map(|data| IbcMsg::SendPacket {
            timeout,
            data,
            channel_id: channel_id.into(),
        })
"""),
]
R['r6-ack-split-last'] = [
    (PK, ("            let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {", "    }\n}\n\n#[cfg(test)]"),
     """            match tx_msg_data.msg_responses.as_slice() {
                [.., msg_resp] => Ok(query_msg::proto::MsgModuleQuerySafeResponse::decode(
                    msg_resp.value.as_slice(),
                )?),
                [] => Err(StdError::generic_err("no MsgData found at the given index").into()),
            }
        }
"""),
]
R['r6-ack-pop'] = [
    (PK, "            let tx_msg_data = self.to_tx_msg_data()?;\n            let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {",
     "            let mut tx_msg_data = self.to_tx_msg_data()?;\n            let msg_resp = tx_msg_data.msg_responses.pop().ok_or_else(|| {"),
]
R['r6-ack-delegate'] = [
    (PK, ("            let tx_msg_data = self.to_tx_msg_data()?;\n            let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {", "    }\n}\n\n#[cfg(test)]"),
     """            let len = self.to_tx_msg_data()?.msg_responses.len();
            let last = len.checked_sub(1).ok_or_else(|| {
                StdError::generic_err("no MsgData found at the given index".to_string())
            })?;
            self.decode_module_query_safe_resp(last)
        }
"""),
]
# ---------------------------------------------------------------- query_msg.rs
R['r6-qm-result-loop'] = [
    (QM, ("    paths\n        .into_iter()\n        .zip(resp_msg.responses.iter())", "/// The constants for the `query_msg`"),
     """    let mut decoded = Vec::with_capacity(paths.len());
    let mut bodies = resp_msg.responses.iter();
    for (path, is_stargate) in &paths {
        let Some(body) = bodies.next() else { break };
        match from_protobuf::response(path, body, *is_stargate) {
            Err(e) => return IcaQueryResult::Error(e.to_string()),
            Ok(response) => decoded.push(response),
        }
    }

    IcaQueryResult::Success {
        responses: decoded,
        height: resp_msg.height,
    }
}

"""),
]
R['r6-qm-result-inner-try'] = [
    (QM, ("    paths\n        .into_iter()\n        .zip(resp_msg.responses.iter())", "/// The constants for the `query_msg`"),
     """    let decode = || -> Result<Vec<IcaQueryResponse>, crate::types::ContractError> {
        let mut out = vec![];
        for (i, resp) in resp_msg.responses.iter().enumerate() {
            let (path, is_stargate) = &paths[i];
            out.push(from_protobuf::response(path, resp, *is_stargate)?);
        }
        Ok(out)
    };

    match decode() {
        Ok(responses) => IcaQueryResult::Success {
            height: resp_msg.height,
            responses,
        },
        Err(e) => IcaQueryResult::Error(e.to_string()),
    }
}

"""),
]
R['r6-qm-cmp-len'] = [
    (QM, "    if paths.len() != resp_msg.responses.len() {", "    if paths.len().cmp(&resp_msg.responses.len()).is_ne() {"),
]
R['r6-qm-prefix-table'] = [
    (QM, ("        match path {\n            x if x.starts_with(\"/cosmos.bank", "    fn bank_response("),
     """        type Decoder = fn(&str, &[u8]) -> Result<IcaQueryResponse, ContractError>;
        let decoders: [(&str, Decoder); 3] = [
            ("/cosmos.bank.v1beta1.Query/", bank_response),
            ("/cosmwasm.wasm.v1.Query/", wasm_response),
            ("/cosmos.staking.v1beta1.Query/", staking_response),
        ];
        for (prefix, decode) in decoders {
            if path.starts_with(prefix) {
                return decode(path, resp);
            }
        }
        Err(ContractError::UnknownDataType(path.to_string()))
    }

    #[cfg(not(feature = "staking"))]
    fn staking_response(path: &str, _resp: &[u8]) -> Result<IcaQueryResponse, ContractError> {
        Err(ContractError::UnknownDataType(path.to_string()))
    }

"""),
]
R['r6-qm-strip-prefix'] = [
    (QM, ("        match path {\n            x if x.starts_with(\"/cosmos.bank", "    fn bank_response("),
     """        if path.strip_prefix("/cosmos.bank.v1beta1.Query/").is_some() {
            return bank_response(path, resp);
        }
        if path.strip_prefix("/cosmwasm.wasm.v1.Query/").is_some() {
            return wasm_response(path, resp);
        }
        #[cfg(feature = "staking")]
        if path.strip_prefix("/cosmos.staking.v1beta1.Query/").is_some() {
            return staking_response(path, resp);
        }
        Err(ContractError::UnknownDataType(path.to_string()))
    }

"""),
]
R['r6-qm-entry-macro'] = [
    (QM, "    use super::constants;\n\n", """    use super::constants;

    macro_rules! entry {
        ($path:expr, $request:expr) => {
            ($path.to_string(), $request.encode_to_vec(), false)
        };
    }

"""),
    (QM, "            BankQuery::Balance { address, denom } => (\n                constants::BALANCE.to_string(),\n                QueryBalanceRequest { address, denom }.encode_to_vec(),\n                false,\n            ),",
     "            BankQuery::Balance { address, denom } => {\n                entry!(constants::BALANCE, QueryBalanceRequest { address, denom })\n            }"),
    (QM, "            BankQuery::Supply { denom } => (\n                constants::SUPPLY.to_string(),\n                QuerySupplyOfRequest { denom }.encode_to_vec(),\n                false,\n            ),",
     "            BankQuery::Supply { denom } => {\n                entry!(constants::SUPPLY, QuerySupplyOfRequest { denom })\n            }"),
]
R['r6-qm-trait-entry'] = [
    (QM, "    use super::constants;\n\n", """    use super::constants;

    /// a request with the path it is served at
    trait Served: Message + Sized {
        const PATH: &'static str;

        fn entry(&self) -> (String, Vec<u8>, bool) {
            (Self::PATH.into(), self.encode_to_vec(), false)
        }
    }

    impl Served for QueryBalanceRequest {
        const PATH: &'static str = constants::BALANCE;
    }

    impl Served for QuerySupplyOfRequest {
        const PATH: &'static str = constants::SUPPLY;
    }

"""),
    (QM, "            BankQuery::Balance { address, denom } => (\n                constants::BALANCE.to_string(),\n                QueryBalanceRequest { address, denom }.encode_to_vec(),\n                false,\n            ),",
     "            BankQuery::Balance { address, denom } => {\n                QueryBalanceRequest { address, denom }.entry()\n            }"),
    (QM, "            BankQuery::Supply { denom } => (\n                constants::SUPPLY.to_string(),\n                QuerySupplyOfRequest { denom }.encode_to_vec(),\n                false,\n            ),",
     "            BankQuery::Supply { denom } => QuerySupplyOfRequest { denom }.entry(),"),
]
R['r6-qm-coin-parse'] = [
    (QM, "            amount: Uint128::from_str(&coin.amount)?,", "            amount: coin.amount.as_str().parse::<Uint128>()?,"),
]
R['r6-qm-contract-info-filter'] = [
    (QM, "                            if info.admin.is_empty() {\n                                None\n                            } else {\n                                Some(cosmwasm_std::Addr::unchecked(info.admin))\n                            },",
     "                            Some(info.admin)\n                                .filter(|admin| !admin.is_empty())\n                                .map(cosmwasm_std::Addr::unchecked),"),
    (QM, "                            if info.ibc_port_id.is_empty() {\n                                None\n                            } else {\n                                Some(info.ibc_port_id)\n                            },",
     "                            (!info.ibc_port_id.is_empty()).then(|| info.ibc_port_id.clone()),"),
]
# ---------------------------------------------------------------- relay.rs / handshake.rs
R['r6-rl-event-closure'] = [
    (REL, ("        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {", "    /// Handles the unsuccessful"),
     """        let response = IbcBasicResponse::default().add_event(success_event);
        state::STATE
            .load(deps.storage)?
            .callback_address
            .map(|contract_addr| {
                IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                    ica_acknowledgement,
                    original_packet: packet,
                    relayer,
                    query_result,
                }
                .into_cosmos_msg(contract_addr)
            })
            .transpose()
            .map(|message| response.add_messages(message))
            .map_err(ContractError::from)
    }

"""),
]
R['r6-rl-ack-enum-method'] = [
    (REL, ("    match from_json(&ack.acknowledgement.data)? {", "/// Implements the IBC module's `OnTimeoutPacket`"),
     """    let outcome: AcknowledgementData = from_json(&ack.acknowledgement.data)?;
    let IbcPacketAckMsg {
        original_packet,
        relayer,
        ..
    } = ack;
    if let AcknowledgementData::Result(res) = outcome {
        return ibc_packet_ack::success(deps, original_packet, relayer, res);
    }
    let AcknowledgementData::Error(err) = outcome else {
        unreachable!("an acknowledgement is a result or an error")
    };
    ibc_packet_ack::error(deps, original_packet, relayer, err)
}

"""),
]
R['r6-rl-close-method'] = [
    (REL, ("    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n    if channel_state.is_ordered()", "    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)"),
     """    let recorded = state::CHANNEL_STATE.load(deps.storage)?;
    let affected = recorded.channel.endpoint.channel_id.as_str() == msg.packet.src.channel_id;
    match (recorded.is_ordered(), affected) {
        (true, true) => {
            let closed = state::ChannelState {
                channel_status: state::ChannelStatus::Closed,
                ..recorded
            };
            state::CHANNEL_STATE.save(deps.storage, &closed)?;
        }
        (true, false) | (false, _) => {}
    }

"""),
]
R['r6-hs-permission-helper'] = [
    (HS, "        if !state::ALLOW_CHANNEL_OPEN_INIT\n            .load(deps.storage)\n            .unwrap_or_default()\n        {\n            return Err(ContractError::ChannelOpenInitNotAllowed);\n        }\n\n        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;",
     "        super::use_permission(\n            deps.storage,\n            &state::ALLOW_CHANNEL_OPEN_INIT,\n            ContractError::ChannelOpenInitNotAllowed,\n        )?;"),
    (HS, "        if !state::ALLOW_CHANNEL_CLOSE_INIT\n            .load(deps.storage)\n            .unwrap_or_default()\n        {\n            return Err(ContractError::ChannelCloseInitNotAllowed);\n        };",
     "        super::use_permission(\n            deps.storage,\n            &state::ALLOW_CHANNEL_CLOSE_INIT,\n            ContractError::ChannelCloseInitNotAllowed,\n        )?;"),
    (HS, "mod ibc_channel_close {", """/// Uses up a permission that was granted once.
fn use_permission(
    storage: &mut dyn cosmwasm_std::Storage,
    permission: &cw_storage_plus::Item<bool>,
    refusal: ContractError,
) -> Result<(), ContractError> {
    match permission.load(storage) {
        Ok(true) => permission.save(storage, &false).map_err(Into::into),
        Ok(false) | Err(_) => Err(refusal),
    }
}

mod ibc_channel_close {"""),
]
R['r6-hs-active-check'] = [
    (HS, "        if metadata.address.is_empty() {", "        let address = Some(metadata.address.as_str()).filter(|a| !a.is_empty());\n        if address.is_none() {"),
]
R['r6-hs-tryfrom'] = [
    (HS, "            serde_json_wasm::from_str(&channel.version).map_err(|_| {\n                ContractError::UnknownDataType(\n                    \"cannot unmarshal ICS-27 interchain accounts metadata\".to_string(),\n                )\n            })?\n        };",
     "            channel.version.parse()?\n        };"),
    (HS, "        let metadata: IcaMetadata =\n            serde_json_wasm::from_str(&counterparty_version).map_err(|_| {\n                ContractError::UnknownDataType(\n                    \"cannot unmarshal ICS-27 interchain accounts metadata\".to_string(),\n                )\n            })?;",
     "        let metadata: IcaMetadata = counterparty_version.parse()?;"),
    (MD, "impl std::fmt::Display for IcaMetadata {", """impl std::str::FromStr for IcaMetadata {
    type Err = ContractError;

    fn from_str(version: &str) -> Result<Self, Self::Err> {
        serde_json_wasm::from_str(version).or_else(|_| {
            Err(ContractError::UnknownDataType(
                "cannot unmarshal ICS-27 interchain accounts metadata".into(),
            ))
        })
    }
}

impl std::fmt::Display for IcaMetadata {"""),
]
R['r6-hs-close-fold'] = [
    (HS, ("    pub fn confirm(deps: DepsMut, channel: IbcChannel)", "XXEND"), ""),
]
del R['r6-hs-close-fold']
R['r6-md-validate-chain'] = [
    (MD, ("        if !self.address.is_empty() {\n            validate_ica_address(&self.address)?;", "        Ok(())\n    }\n}\n"),
     """        Some(self.address.as_str())
            .filter(|address| !address.is_empty())
            .map_or(Ok(()), validate_ica_address)?;
        if self.tx_type.as_str().ne("sdk_multi_msg") {
            return Err(ContractError::UnsupportedTxType(self.tx_type.clone()));
        }
"""),
]
R['r6-md-address-bytes'] = [
    (MD, "    if address.len() > DEFAULT_MAX_LENGTH || !address.chars().all(char::is_alphanumeric) {\n        return Err(ContractError::InvalidIcaAddress);\n    }\n    Ok(())",
     """    let short = (0..=DEFAULT_MAX_LENGTH).contains(&address.len());
    let plain = address.chars().find(|c| !c.is_alphanumeric()).is_none();
    (short && plain)
        .then_some(())
        .ok_or(ContractError::InvalidIcaAddress)"""),
]
R['r6-md-prev-and-then'] = [
    (MD, ("        if let Ok(channel_state) = CHANNEL_STATE.load(deps.storage) {", "        let options = CHANNEL_OPEN_INIT_OPTIONS"),
     """        let previous = CHANNEL_STATE
            .load(deps.storage)
            .ok()
            .and_then(|recorded| serde_json_wasm::from_str(&recorded.channel.version).ok());
        if let Some(previous_metadata) = previous {
            return Ok(previous_metadata);
        }

"""),
]
# ---------------------------------------------------------------- cosmos_msg.rs
R['r6-cm-coin-from'] = [
    (CM, "    pub fn bank(msg: BankMsg, from_address: String) -> Result<Any, EncodeError> {", """    struct HostCoin(ProtoCoin);

    impl From<cosmwasm_std::Coin> for HostCoin {
        fn from(coin: cosmwasm_std::Coin) -> Self {
            Self(ProtoCoin {
                amount: coin.amount.to_string(),
                denom: coin.denom,
            })
        }
    }

    fn host_coins(coins: impl IntoIterator<Item = cosmwasm_std::Coin>) -> Vec<ProtoCoin> {
        coins
            .into_iter()
            .map(HostCoin::from)
            .map(|HostCoin(coin)| coin)
            .collect()
    }

    pub fn bank(msg: BankMsg, from_address: String) -> Result<Any, EncodeError> {"""),
    (CM, "                amount: amount\n                    .into_iter()\n                    .map(|coin| ProtoCoin {\n                        denom: coin.denom,\n                        amount: coin.amount.to_string(),\n                    })\n                    .collect(),\n            }),\n            _ => panic!(\"Unsupported BankMsg\"),",
     "                amount: host_coins(amount),\n            }),\n            _ => panic!(\"Unsupported BankMsg\"),"),
]
R['r6-cm-height-struct'] = [
    (CM, "                timeout_height: timeout.block().map(|block| Height {\n                    revision_number: block.revision,\n                    revision_height: block.height,\n                }),\n                timeout_timestamp: timeout.timestamp().map_or(0, |timestamp| timestamp.nanos()),",
     """                timeout_timestamp: timeout
                    .timestamp()
                    .as_ref()
                    .map(cosmwasm_std::Timestamp::nanos)
                    .unwrap_or_default(),
                timeout_height: match timeout.block() {
                    None => None,
                    Some(block) => {
                        let mut height = Height::default();
                        height.revision_height = block.height;
                        height.revision_number = block.revision;
                        Some(height)
                    }
                },"""),
]
