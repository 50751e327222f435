"""More edits that keep the behaviour, by file and in larger steps: (file, (from, up to), replacement)."""
from refdefs import REL, HS, CT, MD, PK, ST, QM, CM, SG, EV, CB, HP, MS
OW, OWS = 'testing/contracts/cw-ica-owner/src/contract.rs', 'testing/contracts/cw-ica-owner/src/state.rs'
CC, CCS = 'testing/contracts/callback-counter/src/contract.rs', 'testing/contracts/callback-counter/src/state.rs'
R = {}

# ------------------------------------------------------------ relay
R['r2-callback-option'] = [
    (REL, ("        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {", "    /// Handles the unsuccessful"),
     """        let mut response = IbcBasicResponse::new().add_event(success_event);
        let callback_address = state::STATE.load(deps.storage)?.callback_address;
        if let Some(contract_addr) = callback_address {
            response = response.add_message(
                IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                    query_result,
                    relayer,
                    original_packet: packet,
                    ica_acknowledgement,
                }
                .into_cosmos_msg(contract_addr)?,
            );
        }
        Ok(response)
    }

"""),
]
R['r2-add-messages-option'] = [
    (REL, ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout", "    }\n}\n"),
     """        let message = match state.callback_address {
            None => None,
            Some(contract_addr) => {
                let callback = IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                    original_packet: packet,
                    relayer,
                };
                Some(callback.into_cosmos_msg::<cosmwasm_std::Empty>(contract_addr)?)
            }
        };
        Ok(IbcBasicResponse::new().add_messages(message))
"""),
]
R['r2-callback-vec'] = [
    (REL, ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout", "    }\n}\n"),
     """        let mut messages: Vec<cosmwasm_std::CosmosMsg> = Vec::new();
        if let Some(contract_addr) = state.callback_address {
            messages.push(
                IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                    original_packet: packet,
                    relayer,
                }
                .into_cosmos_msg(contract_addr)?,
            );
        }
        Ok(IbcBasicResponse::default().add_messages(messages))
"""),
]
R['r2-callback-transpose'] = [
    (REL, ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout", "    }\n}\n"),
     """        let message: Option<cosmwasm_std::CosmosMsg> = state
            .callback_address
            .map(|addr| {
                IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                    original_packet: packet,
                    relayer,
                }
                .into_cosmos_msg(addr)
            })
            .transpose()?;
        let response = IbcBasicResponse::default();
        Ok(match message {
            Some(message) => response.add_message(message),
            None => response,
        })
"""),
]
R['r2-ack-let-else'] = [
    (REL, ("        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnAck", "    }\n}\n"),
     """        let response = IbcBasicResponse::default();
        let Some(contract_addr) = state.callback_address else {
            return Ok(response.add_event(error_event));
        };
        let ica_acknowledgement = AcknowledgementData::Error(err);
        let callback = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
            ica_acknowledgement,
            original_packet: packet.clone(),
            relayer: relayer.clone(),
            query_result,
        };
        Ok(response
            .add_event(error_event)
            .add_message(callback.into_cosmos_msg(contract_addr.into_string())?))
"""),
]
R['r2-success-match'] = [
    (REL, ("        let query_result = state::PENDING_QUERIES\n            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?\n            .map(\n", "        state::PENDING_QUERIES.remove"),
     """        let pending_key = (packet.src.channel_id.as_str(), packet.sequence);
        let query_result = match state::PENDING_QUERIES.may_load(deps.storage, pending_key)? {
            Some(paths) => {
                let resp_msg = ica_acknowledgement.decode_module_query_safe_resp_last_index()?;
                Some(query_msg::result_from_response(paths, &resp_msg))
            }
            None => None,
        };

"""),
]
R['r2-success-has'] = [
    (REL, ("        let query_result = state::PENDING_QUERIES\n            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?\n            .map(|_|", "        state::PENDING_QUERIES.remove"),
     """        let is_query = state::PENDING_QUERIES
            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
            .is_some();
        let query_result = if is_query {
            Some(query_msg::IcaQueryResult::Error(err.to_string()))
        } else {
            None
        };

"""),
]
R['r2-timeout-handler-moved'] = [
    (REL, ("    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n    if channel_state.is_ordered()", "    ibc_packet_timeout::callback(deps, msg.packet"),
     """    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
    let same_channel = channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id;
    match (channel_state.is_ordered(), same_channel) {
        (true, true) => {
            channel_state.channel_status = state::ChannelStatus::Closed;
            state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
        }
        _ => (),
    }

"""),
]

# ------------------------------------------------------------ contract
R['r2-instantiate-call-create'] = [
    (CT, ("    let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(\n        env.contract.address.to_string(),\n        msg.channel_open_init_options.connection_id,", "/// Handles the execution of the contract."),
     """    Ok(Response::new().add_message(open_init_msg(&env, msg.channel_open_init_options)))
}

fn open_init_msg(
    env: &Env,
    options: crate::types::msg::options::ChannelOpenInitOptions,
) -> cosmwasm_std::CosmosMsg {
    let crate::types::msg::options::ChannelOpenInitOptions {
        connection_id,
        counterparty_connection_id,
        counterparty_port_id,
        channel_ordering,
    } = options;
    new_ica_channel_open_init_cosmos_msg(
        env.contract.address.as_str(),
        connection_id,
        counterparty_port_id,
        counterparty_connection_id,
        None,
        channel_ordering,
    )
}

"""),
    (CT, ("        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(\n            env.contract.address.to_string(),\n            options.connection_id", "    /// Submits a [`IbcMsg::CloseChannel`]."),
     """        let message = super::open_init_msg(&env, options);

        Ok(Response::default().add_message(message))
    }

"""),
    (CT, "        keys, new_ica_channel_open_init_cosmos_msg, state, ContractError,", "        keys, state, ContractError,"),
]
R['r2-options-effective'] = [
    (CT, ("        let options = if let Some(new_options) = options {", "        state::ALLOW_CHANNEL_OPEN_INIT.save"),
     """        if let Some(new_options) = &options {
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, new_options)?;
        }
        let Some(options) = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)? else {
            return Err(ContractError::NoChannelInitOptions);
        };

"""),
]
R['r2-close-ensure'] = [
    (CT, ("        let channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n        if !channel_state.is_open()", "        Ok(Response::new().add_message(channel_close_msg))"),
     """        let state::ChannelState {
            channel,
            channel_status,
        } = state::CHANNEL_STATE.load(deps.storage)?;
        cosmwasm_std::ensure!(
            channel_status == state::ChannelStatus::Open,
            ContractError::InvalidChannelStatus {
                expected: state::ChannelStatus::Open.to_string(),
                actual: channel_status.to_string(),
            }
        );

        let channel_id = channel.endpoint.channel_id;
        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;

        let channel_close_msg = IbcMsg::CloseChannel { channel_id };

"""),
    (CT, "    use cosmwasm_std::{CosmosMsg, IbcMsg, SubMsg};", "    use cosmwasm_std::{CosmosMsg, IbcMsg, ReplyOn, SubMsg};"),
    (CT, ("        let send_packet_submsg = if has_queries {", "        Ok(Response::default().add_submessage"),
     """        let mut send_packet_submsg: SubMsg = SubMsg::new(send_packet_msg);
        if has_queries {
            send_packet_submsg.id = keys::reply_ids::SEND_QUERY_PACKET;
            send_packet_submsg.reply_on = ReplyOn::Success;
        }

"""),
]
R['r2-ownership-matches'] = [
    (CT, ("        if action == cw_ownable::Action::RenounceOwnership {", "        Ok(Response::default())"),
     """        use cw_ownable::Action;
        match action {
            Action::RenounceOwnership => return Err(ContractError::OwnershipCannotBeRenounced),
            action @ (Action::TransferOwnership { .. } | Action::AcceptOwnership) => {
                cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?
            }
        };

"""),
]
R['r2-callback-map-err'] = [
    (CT, ("        contract_state.callback_address = callback_address\n", "        state::STATE.save(deps.storage, &contract_state)?;"),
     """        contract_state.callback_address = match callback_address {
            Some(addr) => Some(deps.api.addr_validate(addr.as_str())?),
            None => None,
        };

"""),
]
R['r2-reply-flat'] = [
    (CT, ("        match result {\n            SubMsgResult::Ok(resp) => {", "    }\n}\n\nmod query"),
     """        let resp = match result {
            SubMsgResult::Ok(resp) => resp,
            SubMsgResult::Err(err) => unreachable!("query packet failed: {err}"),
        };
        let query_paths = state::QUERY.load(deps.storage)?;
        state::QUERY.remove(deps.storage);

        #[allow(deprecated)]
        let data = resp.data.unwrap_or_default();
        let response = anybuf::Bufany::deserialize(data.as_slice())?;
        let sequence = response.uint64(1).unwrap();

        let ica_info = state::STATE.load(deps.storage)?.get_ica_info()?;
        state::PENDING_QUERIES.save(
            deps.storage,
            (ica_info.channel_id.as_str(), sequence),
            &query_paths,
        )?;

        Ok(Response::new())
"""),
]
R['r2-migrate-helpers'] = [
    (CT, ("        let version: semver::Version = keys::CONTRACT_VERSION.parse()?;", "        Ok(())\n    }\n\n    /// Validate that the channel encoding"),
     """        let version = semver::Version::parse(keys::CONTRACT_VERSION)?;
        let prev_version = semver::Version::parse(&prev_cw2_version.version)?;
        if !(version > prev_version) {
            return Err(ContractError::InvalidMigrationVersion {
                expected: format!("> {prev_version}"),
                actual: version.to_string(),
            });
        }
"""),
    (CT, ("        if let Some(ica_info) = state::STATE.load(deps.storage)?.ica_info {", "        Ok(())\n    }\n}\n\n#[cfg(test)]"),
     """        use crate::ibc::types::metadata::TxEncoding;

        match state::STATE.load(deps.storage)?.ica_info {
            None => {}
            Some(info) if info.encoding == TxEncoding::Protobuf => {}
            Some(info) => {
                return Err(ContractError::UnsupportedPacketEncoding(
                    info.encoding.to_string(),
                ))
            }
        }

"""),
]
R['r2-query-map'] = [
    (CT, ("        QueryMsg::GetContractState {} => to_json_binary", "    }\n}\n\n/// Migrate contract"),
     """        QueryMsg::Ownership {} => {
            let ownership = cw_ownable::get_ownership(deps.storage)?;
            to_json_binary(&ownership)
        }
        QueryMsg::GetChannel {} => query::channel(deps).and_then(|channel| to_json_binary(&channel)),
        QueryMsg::GetContractState {} => {
            let state = query::state(deps)?;
            to_json_binary(&state)
        }
"""),
]
R['r2-owner-or-else'] = [
    (CT, ("    let owner = msg.owner.unwrap_or_else(|| info.sender.to_string());", "    // Save the admin."),
     """    let owner = match &msg.owner {
        Some(owner) => owner.as_str(),
        None => info.sender.as_str(),
    };
    cw_ownable::initialize_owner(deps.storage, deps.api, Some(owner))?;

    let mut callback_address = None;
    if let Some(addr) = msg.send_callbacks_to {
        callback_address = Some(deps.api.addr_validate(&addr)?);
    }

"""),
]

# ------------------------------------------------------------ handshake
R['r2-hs-active-helper'] = [
    (HS, ("        // Check if the channel is already exists", "        // Channel state need not be saved here"),
     """        ensure_no_active_channel(deps.storage)?;
"""),
    (HS, ("        // this contract can only store one active channel\n        // another handshake", "        // update state with the ica info"),
     """        ensure_no_active_channel(deps.storage)?;

"""),
    (HS, "    /// Handles the `OpenAck` part of the IBC handshake.\n    #[allow", """    fn ensure_no_active_channel(storage: &dyn cosmwasm_std::Storage) -> Result<(), ContractError> {
        let active = state::CHANNEL_STATE
            .may_load(storage)?
            .is_some_and(|channel_state| channel_state.is_open());
        if active {
            Err(ContractError::ActiveChannelAlreadySet)
        } else {
            Ok(())
        }
    }

    /// Handles the `OpenAck` part of the IBC handshake.
    #[allow"""),
]
R['r2-hs-parse-helper'] = [
    (HS, ("            serde_json_wasm::from_str(&channel.version).map_err(|_| {", "        };\n        metadata.validate(&channel)?;\n\n        // Check if the channel"),
     """            parse_metadata(&channel.version)?
"""),
    (HS, ("        let metadata: IcaMetadata =\n            serde_json_wasm::from_str(&counterparty_version)", "        metadata.validate(&channel)?;\n\n        // Check if the address"),
     """        let metadata = parse_metadata(&counterparty_version)?;
"""),
    (HS, "    /// Handles the `OpenAck` part of the IBC handshake.\n    #[allow", """    fn parse_metadata(version: &str) -> Result<IcaMetadata, ContractError> {
        match serde_json_wasm::from_str::<IcaMetadata>(version) {
            Ok(metadata) => Ok(metadata),
            Err(_) => Err(ContractError::UnknownDataType(
                "cannot unmarshal ICS-27 interchain accounts metadata".to_string(),
            )),
        }
    }

    /// Handles the `OpenAck` part of the IBC handshake.
    #[allow"""),
]
R['r2-hs-ack-update'] = [
    (HS, "        let mut state = state::STATE.load(deps.storage)?;\n\n        // portID", "        // portID"),
    (HS, ("        // update state with the ica info", "        // make callback if needed"),
     """        channel.version = counterparty_version;
        state::CHANNEL_STATE.save(
            deps.storage,
            &ChannelState {
                channel: channel.clone(),
                channel_status: state::ChannelStatus::Open,
            },
        )?;

        let state = state::STATE.update(deps.storage, |mut state| -> Result<_, ContractError> {
            state.set_ica_info(
                metadata.address.clone(),
                channel.endpoint.channel_id.clone(),
                metadata.encoding.clone(),
            );
            Ok(state)
        })?;

"""),
]
R['r2-hs-flag-take'] = [
    (HS, ("        if !state::ALLOW_CHANNEL_OPEN_INIT\n", "        // Validate the host port"),
     """        let allowed = state::ALLOW_CHANNEL_OPEN_INIT
            .may_load(deps.storage)
            .ok()
            .flatten()
            .unwrap_or(false);
        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;
        if !allowed {
            return Err(ContractError::ChannelOpenInitNotAllowed);
        }

"""),
]
R['r2-hs-close-update'] = [
    (HS, ("        // Validate that this is the stored channel\n        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n        if channel_state.channel != channel {\n            return Err(ContractError::InvalidChannelInContractState);\n        }\n        if !channel_state.is_open() {\n            return Err(ContractError::InvalidChannelStatus {\n                expected: state::ChannelStatus::Open.to_string(),\n                actual: channel_state.channel_status.to_string(),\n            });\n        }\n\n        // Update the channel state\n        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n\n        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())\n    }\n}", "\x00"), ""),
]
del R['r2-hs-close-update']
R['r2-hs-entry-iflet'] = [
    (HS, ("    match msg {\n        IbcChannelOpenMsg::OpenInit { channel } =>", "}\n\n/// Handles the `OpenAck` and"),
     """    let IbcChannelOpenMsg::OpenInit { channel } = msg else {
        unreachable!("the controller never receives a channel open try");
    };
    ibc_channel_open::init(deps, channel)
"""),
    (HS, ("    match msg {\n        IbcChannelCloseMsg::CloseInit { channel } =>", "}\n\nmod ibc_channel_open"),
     """    let close_init = matches!(msg, IbcChannelCloseMsg::CloseInit { .. });
    let channel = IbcChannel::from(msg);
    if close_init {
        ibc_channel_close::init(deps, channel)
    } else {
        ibc_channel_close::confirm(deps, channel)
    }
"""),
]

# ------------------------------------------------------------ messages
R['r2-cm-any'] = [
    (CM, ("            BankMsg::Send { to_address, amount } => Any::from_msg(&MsgSend {", "            _ => panic!(\"Unsupported BankMsg\")"),
     """            BankMsg::Send { to_address, amount } => {
                let mut coins: Vec<ProtoCoin> = Vec::new();
                for coin in &amount {
                    coins.push(ProtoCoin {
                        denom: coin.denom.clone(),
                        amount: coin.amount.to_string(),
                    });
                }
                let send = MsgSend {
                    from_address,
                    to_address,
                    amount: coins,
                };
                Any::from_msg(&send)
            }
"""),
]
R['r2-cm-from-impl'] = [
    (CM, ("            StakingMsg::Delegate { validator, amount } => {", "            StakingMsg::Redelegate {"),
     """            StakingMsg::Delegate { validator, amount } => {
                let message = cosmos_sdk_proto::cosmos::staking::v1beta1::MsgDelegate {
                    amount: Some(to_proto(&amount)),
                    validator_address: validator,
                    delegator_address,
                };
                Any::from_msg(&message)
            }
            StakingMsg::Undelegate { validator, amount } => {
                let message = cosmos_sdk_proto::cosmos::staking::v1beta1::MsgUndelegate {
                    amount: Some(to_proto(&amount)),
                    validator_address: validator,
                    delegator_address,
                };
                Any::from_msg(&message)
            }
"""),
    (CM, "    #[cfg(feature = \"staking\")]\n    pub fn staking(msg", """    #[cfg(feature = "staking")]
    fn to_proto(coin: &cosmwasm_std::Coin) -> ProtoCoin {
        ProtoCoin {
            denom: coin.denom.clone(),
            amount: format!("{}", coin.amount),
        }
    }

    #[cfg(feature = "staking")]
    pub fn staking(msg"""),
]
R['r2-cm-index'] = [
    (CM, """                    amount: amount
                        .into_iter()
                        .map(|coin| ProtoCoin {
                            denom: coin.denom,
                            amount: coin.amount.to_string(),
                        })
                        .collect(),
                },
            ),""", """                    amount: {
                        let mut coins = Vec::with_capacity(amount.len());
                        let mut i = 0;
                        while i < amount.len() {
                            coins.push(ProtoCoin {
                                denom: amount[i].denom.clone(),
                                amount: amount[i].amount.to_string(),
                            });
                            i += 1;
                        }
                        coins
                    },
                },
            ),"""),
]
R['r2-cm-for-range'] = [
    (CM, """                    amount: amount
                        .into_iter()
                        .map(|coin| ProtoCoin {
                            denom: coin.denom,
                            amount: coin.amount.to_string(),
                        })
                        .collect(),
                },
            ),""", """                    amount: (0..amount.len())
                        .map(|i| ProtoCoin {
                            denom: amount[i].denom.clone(),
                            amount: amount[i].amount.to_string(),
                        })
                        .collect(),
                },
            ),"""),
]
R['r2-cm-nested-match'] = [
    (CM, ("    match msg {\n        #[allow(deprecated)]\n        CosmosMsg::Stargate", "mod convert_to_any"),
     """    #[allow(deprecated)]
    if let CosmosMsg::Stargate { type_url, value } = msg {
        let value = Vec::from(value);
        return Ok(Any { type_url, value });
    }

    match msg {
        CosmosMsg::Wasm(msg) => convert_to_any::wasm(msg, from_address),
        CosmosMsg::Gov(msg) => convert_to_any::gov(msg, from_address),
        CosmosMsg::Ibc(msg) => convert_to_any::ibc(msg, from_address),
        CosmosMsg::Bank(msg) => convert_to_any::bank(msg, from_address),
        #[cfg(feature = "staking")]
        CosmosMsg::Distribution(msg) => convert_to_any::distribution(msg, from_address),
        #[cfg(feature = "staking")]
        CosmosMsg::Staking(msg) => convert_to_any::staking(msg, from_address),
        _ => panic!("Unsupported CosmosMsg"),
    }
}

"""),
]
R['r2-cm-wasm-default'] = [
    (CM, """                salt: salt.to_vec(),
                fix_msg: false,
            }),""", """                salt: salt.into(),
                ..Default::default()
            }),"""),
    (CM, """                admin: admin.unwrap_or_default(),
                sender,
                code_id,""", """                admin: admin.map_or_else(String::new, |admin| admin),
                sender,
                code_id,"""),
    (CM, """            } => Any::from_msg(&MsgMigrateContract {
                sender,
                contract: contract_addr,
                code_id: new_code_id,
                msg: msg.to_vec(),
            }),""", """            } => {
                let mut migrate = MsgMigrateContract::default();
                migrate.sender = sender;
                migrate.contract = contract_addr;
                migrate.code_id = new_code_id;
                migrate.msg = msg.into();
                Any::from_msg(&migrate)
            }"""),
]
R['r2-cm-vote-from'] = [
    (CM, ("        const fn convert_to_proto_vote_option", "        match msg {\n            GovMsg::Vote {"),
     """        fn convert_to_proto_vote_option(option: &VoteOption) -> ProtoVoteOption {
            if *option == VoteOption::Yes {
                ProtoVoteOption::Yes
            } else if *option == VoteOption::No {
                ProtoVoteOption::No
            } else if *option == VoteOption::Abstain {
                ProtoVoteOption::Abstain
            } else {
                ProtoVoteOption::NoWithVeto
            }
        }

"""),
]
R['r2-cm-extend'] = [
    (CM, ("            WasmMsg::Execute {\n                contract_addr,", "            WasmMsg::Instantiate {"),
     """            WasmMsg::Execute {
                contract_addr,
                msg,
                funds,
            } => {
                let mut execute = MsgExecuteContract {
                    sender,
                    contract: contract_addr,
                    msg: msg.as_slice().to_owned(),
                    funds: Vec::with_capacity(funds.len()),
                };
                execute.funds.extend(funds.iter().map(|coin| ProtoCoin {
                    denom: coin.denom.to_string(),
                    amount: coin.amount.to_string(),
                }));
                Any::from_msg(&execute)
            }
"""),
]

# ------------------------------------------------------------ queries
R['r2-qm-pack'] = [
    (QM, ("    pub fn wasm(wasm_query: WasmQuery) -> (String, Vec<u8>, bool) {", "    #[cfg(feature = \"staking\")]\n    pub fn staking("),
     """    pub fn wasm(wasm_query: WasmQuery) -> (String, Vec<u8>, bool) {
        let (path, data) = match wasm_query {
            WasmQuery::Raw { contract_addr, key } => {
                let request = QueryRawContractStateRequest {
                    address: contract_addr,
                    query_data: key.to_vec(),
                };
                (constants::WASM_RAW, request.encode_to_vec())
            }
            WasmQuery::Smart { contract_addr, msg } => {
                let request = QuerySmartContractStateRequest {
                    address: contract_addr,
                    query_data: msg.to_vec(),
                };
                (constants::WASM_SMART, request.encode_to_vec())
            }
            WasmQuery::ContractInfo { contract_addr } => {
                let request = QueryContractInfoRequest {
                    address: contract_addr,
                };
                (constants::WASM_CONTRACT_INFO, request.encode_to_vec())
            }
            WasmQuery::CodeInfo { .. } => {
                panic!("CodeInfo query is not supported due to response size.")
            }
            _ => panic!("Unsupported WasmQuery"),
        };

        (path.to_owned(), data, false)
    }

"""),
]
R['r2-qm-dispatch-prefix'] = [
    (QM, ("        match path {\n            x if x.starts_with(", "    }\n\n    fn bank_response"),
     """        const BANK: &str = "/cosmos.bank.v1beta1.Query/";
        const WASM: &str = "/cosmwasm.wasm.v1.Query/";
        #[cfg(feature = "staking")]
        const STAKING: &str = "/cosmos.staking.v1beta1.Query/";

        if path.starts_with(BANK) {
            return bank_response(path, resp);
        }
        if path.starts_with(WASM) {
            return wasm_response(path, resp);
        }
        #[cfg(feature = "staking")]
        if path.starts_with(STAKING) {
            return staking_response(path, resp);
        }

        Err(ContractError::UnknownDataType(path.to_owned()))
"""),
]
R['r2-qm-dispatch-direct'] = [
    (QM, ("        match path {\n            x if x.starts_with(", "    }\n\n    fn bank_response"),
     """        match path {
            constants::BALANCE
            | constants::ALL_BALANCES
            | constants::DENOM_METADATA
            | constants::ALL_DENOM_METADATA
            | constants::SUPPLY => bank_response(path, resp),
            constants::WASM_CONTRACT_INFO | constants::WASM_RAW | constants::WASM_SMART => {
                wasm_response(path, resp)
            }
            #[cfg(feature = "staking")]
            constants::VALIDATOR
            | constants::ALL_VALIDATORS
            | constants::DELEGATION
            | constants::ALL_DELEGATIONS
            | constants::STAKING_PARAMS => staking_response(path, resp),
            unknown => Err(ContractError::UnknownDataType(unknown.to_string())),
        }
"""),
]
R['r2-qm-dispatch-split'] = [
    (QM, ("        match path {\n            x if x.starts_with(", "    }\n\n    fn bank_response"),
     """        let service = path.rsplit_once('/').map(|(service, _)| service);
        match service {
            Some("/cosmos.bank.v1beta1.Query") => bank_response(path, resp),
            Some("/cosmwasm.wasm.v1.Query") => wasm_response(path, resp),
            #[cfg(feature = "staking")]
            Some("/cosmos.staking.v1beta1.Query") => staking_response(path, resp),
            _ => Err(ContractError::UnknownDataType(path.to_string())),
        }
"""),
]
R['r2-qm-coin-parse'] = [
    (QM, ("        Ok(Coin {\n            denom: coin.denom,", "    fn convert_to_metadata"),
     """        let amount: Uint128 = coin.amount.parse()?;
        Ok(Coin {
            amount,
            denom: coin.denom,
        })
    }

"""),
    (QM, ("            denom_units: metadata\n", "    #[cfg(feature = \"staking\")]\n    fn convert_to_validator"),
     """            denom_units: {
                let mut units = Vec::new();
                for unit in metadata.denom_units {
                    units.push(DenomUnit {
                        denom: unit.denom,
                        exponent: unit.exponent,
                        aliases: unit.aliases,
                    });
                }
                units
            },
        }
    }

"""),
]
R['r2-qm-balance-match'] = [
    (QM, ("                let resp = QueryBalanceResponse::decode(resp)?;", "            constants::ALL_BALANCES => {"),
     """                let balance = match QueryBalanceResponse::decode(resp)?.balance {
                    Some(coin) => convert_to_coin(coin)?,
                    None => Coin::default(),
                };
                let response = BankQueryResponse::Balance(BalanceResponse::new(balance));
                Ok(IcaQueryResponse::Bank(response))
            }
"""),
    (QM, ("                let resp = QueryAllBalancesResponse::decode(resp)?;", "            constants::DENOM_METADATA => {"),
     """                let resp = QueryAllBalancesResponse::decode(resp)?;
                let mut coins = Vec::with_capacity(resp.balances.len());
                for coin in resp.balances {
                    coins.push(convert_to_coin(coin)?);
                }
                Ok(IcaQueryResponse::Bank(BankQueryResponse::AllBalances(
                    AllBalanceResponse::new(coins),
                )))
            }
"""),
]
R['r2-qm-contract-info'] = [
    (QM, ("                let resp = QueryContractInfoResponse::decode(resp)?;", "            constants::WASM_RAW => {"),
     """                let resp = QueryContractInfoResponse::decode(resp)?;
                let info = match resp.contract_info {
                    None => None,
                    Some(info) => {
                        let creator = cosmwasm_std::Addr::unchecked(info.creator);
                        let admin = Some(info.admin)
                            .filter(|admin| !admin.is_empty())
                            .map(cosmwasm_std::Addr::unchecked);
                        let port = Some(info.ibc_port_id).filter(|port| !port.is_empty());
                        Some(ContractInfoResponse::new(
                            info.code_id,
                            creator,
                            admin,
                            false,
                            port,
                        ))
                    }
                };
                Ok(IcaQueryResponse::Wasm(WasmQueryResponse::ContractInfo(info)))
            }
"""),
    (QM, ("                    if resp.data.is_empty() {", "            constants::WASM_SMART => {"),
     """                    (!resp.data.is_empty()).then(|| Binary::from(resp.data)),
                )))
            }
"""),
]
R['r2-qm-delegations-loop'] = [
    (QM, ("                let resp = QueryDelegatorDelegationsResponse::decode(resp)?;", "            constants::STAKING_PARAMS => {"),
     """                let resp = QueryDelegatorDelegationsResponse::decode(resp)?;
                let mut delegations = vec![];
                for del_resp in resp.delegation_responses {
                    let Some(del) = del_resp.delegation else {
                        continue;
                    };
                    let balance = del_resp.balance.unwrap_or_default();
                    delegations.push(Delegation {
                        delegator: del.delegator_address,
                        validator: del.validator_address,
                        amount: convert_to_coin(balance)?,
                    });
                }
                Ok(IcaQueryResponse::Staking(
                    StakingQueryResponse::AllDelegations(IcaAllDelegationsResponse { delegations }),
                ))
            }
"""),
    (QM, ("                let resp = QueryParamsResponse::decode(resp)?;", "            _ => Err(ContractError::UnknownDataType(path.to_string())),\n        }\n    }\n}\n\n/// This module defines the protobuf"),
     """                let Some(params) = QueryParamsResponse::decode(resp)?.params else {
                    return Err(ContractError::EmptyResponse(path.to_string()));
                };
                let response = BondedDenomResponse::new(params.bond_denom);
                Ok(IcaQueryResponse::Staking(
                    StakingQueryResponse::BondedDenom(response),
                ))
            }
"""),
]
R['r2-qm-validators'] = [
    (QM, ("        let commission_rates = validator\n", "    /// Converts the response bytes to a [`IcaQueryResponse`] using the query path.\n    ///"),
     """        let rates = match validator.commission.and_then(|c| c.commission_rates) {
            Some(rates) => rates,
            None => Default::default(),
        };
        let commission: Decimal = rates.rate.parse()?;
        let max_commission: Decimal = rates.max_rate.parse()?;
        let max_change_rate: Decimal = rates.max_change_rate.parse()?;

        Ok(cosmwasm_std::Validator::create(
            validator.operator_address,
            commission,
            max_commission,
            max_change_rate,
        ))
    }

"""),
]
R['r2-qm-result-try'] = [
    (QM, ("    paths\n        .into_iter()\n        .zip(", "/// The constants for the `query_msg` module."),
     """    let decoded: Result<Vec<_>, crate::types::ContractError> = resp_msg
        .responses
        .iter()
        .zip(&paths)
        .map(|(resp, (path, is_stargate))| from_protobuf::response(path, resp, *is_stargate))
        .collect();
    match decoded {
        Ok(responses) => IcaQueryResult::Success {
            height: resp_msg.height,
            responses,
        },
        Err(e) => IcaQueryResult::Error(e.to_string()),
    }
}

"""),
]

# ------------------------------------------------------------ packet, metadata, state, others
R['r2-pk-from-parts'] = [
    (PK, ("                if !queries.is_empty() {\n", "                Ok(Self::from_proto_anys(proto_anys, memo))\n            }\n            TxEncoding::Proto3Json => StdResult::Err(StdError::generic_err(\n                \"unsupported encoding: proto3json\".to_string(),\n            )),\n        }\n    }\n\n    /// Creates a new [`IcaPacketData`] from a list of [`CosmosMsg`] messages\n    ///\n    /// # Errors\n    ///\n    /// Returns an error if the [`CosmosMsg`] cannot be serialized to [`cosmos_sdk_proto::Any`]\n    /// when using the [`TxEncoding::Protobuf`] encoding.\n    ///\n    /// # Panics\n    ///\n    /// Panics if the [`CosmosMsg`] is not supported.\n    ///\n    /// The supported [`CosmosMsg`]s for [`TxEncoding::Protobuf`] are listed in [`convert_to_proto_any`].\n    #[cfg(not("),
     """                if !queries.is_empty() {
                    let mut abci_queries = Vec::with_capacity(queries.len());
                    let mut _paths: Vec<(String, bool)> = Vec::with_capacity(queries.len());
                    for query in queries {
                        let (path, data, is_stargate) = query_msg::query_to_protobuf(query);
                        _paths.push((path.clone(), is_stargate));
                        abci_queries.push(query_msg::proto::AbciQueryRequest { path, data });
                    }

                    #[cfg(feature = "export")]
                    #[allow(clippy::used_underscore_binding)]
                    crate::types::state::QUERY.save(storage, &_paths)?;

                    let any = cosmos_sdk_proto::Any::from_msg(&query_msg::proto::MsgModuleQuerySafe {
                        signer: String::from(ica_address),
                        requests: abci_queries,
                    })
                    .map_err(|e| {
                        StdError::generic_err(format!("failed to convert query msg: {e}"))
                    })?;
                    proto_anys.extend([any]);
                }

"""),
]
R['r2-pk-extend-once'] = [
    (PK, ("        let timeout_timestamp = env\n", "/// contains the [`Data`] struct"),
     """        let seconds = match timeout_seconds {
            Some(seconds) => seconds,
            None => DEFAULT_TIMEOUT_SECONDS,
        };
        let timeout = IbcTimeout::from(env.block.time.plus_seconds(seconds));
        let data = to_json_binary(self)?;
        let channel_id = channel_id.into();
        Ok(IbcMsg::SendPacket {
            channel_id,
            data,
            timeout,
        })
    }
}

"""),
]
R['r2-md-validate-split'] = [
    (MD, ("        if self.version != ICA_VERSION {", "        if !matches!(self.encoding, TxEncoding::Protobuf) {"),
     """        if !self.version.eq(ICA_VERSION) {
            return Err(ContractError::InvalidVersion {
                actual: self.version.to_owned(),
                expected: ICA_VERSION.into(),
            });
        }
        cosmwasm_std::ensure_eq!(
            self.controller_connection_id,
            channel.connection_id,
            ContractError::InvalidConnection
        );
"""),
]
R['r2-md-from-channel-flat'] = [
    (MD, ("        if let Ok(channel_state) = CHANNEL_STATE.load(deps.storage) {", "        Ok(Self {\n            version: ICA_VERSION.to_string(),\n            encoding: TxEncoding::Protobuf,"),
     """        let previous = CHANNEL_STATE
            .load(deps.storage)
            .ok()
            .and_then(|state| serde_json_wasm::from_str::<Self>(&state.channel.version).ok());
        if let Some(previous) = previous {
            return Ok(previous);
        }

        let options = CHANNEL_OPEN_INIT_OPTIONS.load(deps.storage)?;
        cosmwasm_std::ensure!(
            options.connection_id == channel.connection_id,
            ContractError::InvalidConnection
        );

"""),
]
R['r2-st-new'] = [
    (ST, ("            self.ica_info\n                .as_ref()", "        }\n\n        /// Sets the ICA info"),
     """            self.ica_info.clone().ok_or(ContractError::IcaInfoNotSet)
"""),
    (ST, ("            matches!(self.channel_status, ChannelStatus::Open)", "        }\n\n        /// Closes the channel"),
     """            self.channel_status as u8 == ChannelStatus::Open as u8
"""),
]
del R['r2-st-new'][1]
R['r2-sg-default'] = [
    (SG, ("        let counterparty_port_id =\n", "    }\n}\n"),
     """        let counterparty = Counterparty {
            port_id: match counterparty_port_id {
                Some(port_id) => port_id.into(),
                None => keys::HOST_PORT_ID.to_string(),
            },
            ..Default::default()
        };

        let order = match ordering {
            Some(IbcOrder::Unordered) => Order::Unordered,
            Some(IbcOrder::Ordered) | None => Order::Ordered,
        };

        let mut channel = Channel {
            state: State::Init as i32,
            ordering: order as i32,
            counterparty: Some(counterparty),
            connection_hops: Vec::with_capacity(1),
            version: version.into(),
        };
        channel.connection_hops.push(connection_id.into());

        MsgChannelOpenInit {
            signer: signer.into(),
            port_id: port_id.into(),
            channel: Some(channel),
        }
"""),
]
R['r2-ev-chain'] = [
    (EV, ("        Event::new(EVENT_TYPE)\n            .add_attributes(attributes::from_packet(packet))\n            .add_attribute(attributes::ACK_BASE64", "    }\n\n    /// returns an event for an unsuccessful"),
     """        base(packet).add_attribute(attributes::ACK_BASE64, resp.to_base64())
"""),
    (EV, ("        Event::new(EVENT_TYPE)\n            .add_attributes(attributes::from_packet(packet))\n            .add_attribute(attributes::ERROR", "    }\n}\n"),
     """        base(packet).add_attribute(attributes::ERROR, err.to_string())
    }

    fn base(packet: &IbcPacket) -> Event {
        let mut event = Event::new(EVENT_TYPE);
        for attribute in attributes::from_packet(packet) {
            event.attributes.push(attribute);
        }
        event
"""),
]
R['r2-ev-format'] = [
    (EV, ("        vec![\n", "    }\n}\n"),
     """        let src = &packet.src;
        [
            (SEQUENCE, format!("{}", packet.sequence)),
            (SRC_PORT, src.port_id.clone()),
            (SRC_CHANNEL, src.channel_id.clone()),
        ]
        .into_iter()
        .map(|(key, value)| Attribute::new(key, value))
        .collect()
"""),
]
R['r2-cb-wasm-execute'] = [
    (CB, ("        let execute = WasmMsg::Execute {", "    }\n}\n"),
     """        let msg = ReceiverExecuteMsg::ReceiveIcaCallback(self);
        Ok(cosmwasm_std::wasm_execute(contract_addr, &msg, vec![])?.into())
"""),
    (CB, "    to_json_binary, Addr, Binary, CosmosMsg, IbcChannel, IbcPacket, StdResult, WasmMsg,", "    to_json_binary, Addr, Binary, CosmosMsg, IbcChannel, IbcPacket, StdResult,"),
]
R['r2-hp-wasm-msg'] = [
    (HP, ("        let msg = to_json_binary(&msg.into())?;\n        Ok(WasmMsg::Execute {", "    /// `query` creates a new"),
     """        let execute: msg::ExecuteMsg = msg.into();
        let message = cosmwasm_std::wasm_execute(self.0.as_str(), &execute, Vec::new())?;
        Ok(CosmosMsg::Wasm(message))
    }

"""),
    (HP, ("        WasmMsg::UpdateAdmin {", "    /// `clear_admin` creates"),
     """        CosmosMsg::Wasm(WasmMsg::UpdateAdmin {
            admin: admin.into(),
            contract_addr: self.0.to_string(),
        })
    }

"""),
]
R['r2-hp-inst2'] = [
    (HP, ("        let salt = salt.into();\n        let code_info", "impl<'a> CwIcaControllerContractQuerier<'a> {"),
     """        let salt: cosmwasm_std::Binary = salt.into().into_bytes().into();
        let address = self.predict_address(api, querier, env, &salt)?;

        let message = WasmMsg::Instantiate2 {
            admin: admin.map(|admin| admin.into()),
            code_id: self.0,
            label: label.into(),
            msg: to_json_binary(&msg.into())?,
            funds: Vec::new(),
            salt,
        };

        Ok((CosmosMsg::Wasm(message), address))
    }

    fn predict_address(
        &self,
        api: &dyn Api,
        querier: &QuerierWrapper,
        env: &Env,
        salt: &[u8],
    ) -> StdResult<Addr> {
        let creator = api.addr_canonicalize(env.contract.address.as_str())?;
        let checksum = querier.query_wasm_code_info(self.0)?.checksum;
        let canonical = instantiate2_address(checksum.as_slice(), &creator, salt)
            .map_err(|e| StdError::generic_err(e.to_string()))?;
        api.addr_humanize(&canonical)
    }
}

"""),
]

# ------------------------------------------------------------ example contracts
R['r2-ow-verify'] = [
    (OW, ("        if state.admin != info.sender {", "        let ica_code ="),
     """        state.verify_admin(&info.sender)?;

"""),
    (OW, ("        let ica_count = ICA_COUNT.load(deps.storage).unwrap_or(0);", "        let label ="),
     """        let ica_count = ICA_COUNT
            .may_load(deps.storage)
            .unwrap_or_default()
            .unwrap_or_default();

        let salt = match salt {
            Some(salt) => salt,
            None => env.block.time.seconds().to_string(),
        };
"""),
]
R['r2-ow-callback-match'] = [
    (OW, ("        let mut ica_state = ICA_STATES.load(deps.storage, ica_id)?;\n", "mod query {"),
     """        let ica_state = ICA_STATES.load(deps.storage, ica_id)?;

        match callback_msg {
            IcaControllerCallbackMsg::OnChannelOpenAckCallback {
                channel,
                ica_address,
                tx_encoding,
            } => {
                let channel_state = ChannelState {
                    channel,
                    channel_status: ChannelStatus::Open,
                };
                let updated = state::IcaContractState {
                    ica_state: Some(state::IcaState::new(
                        ica_id,
                        ica_address,
                        tx_encoding,
                        channel_state,
                    )),
                    ..ica_state
                };
                ICA_STATES.save(deps.storage, ica_id, &updated)?;
            }
            _ => (),
        }

        Ok(Response::new())
    }
}

"""),
]
R['r2-ow-update'] = [
    (OW, ("        let mut ica_state = ICA_STATES.load(deps.storage, ica_id)?;\n", "mod query {"),
     """        if !ICA_STATES.has(deps.storage, ica_id) {
            ICA_STATES.load(deps.storage, ica_id)?;
        }

        if let IcaControllerCallbackMsg::OnChannelOpenAckCallback {
            channel,
            ica_address,
            tx_encoding,
        } = callback_msg
        {
            let mut ica_state = ICA_STATES.load(deps.storage, ica_id)?;
            ica_state.ica_state = Some(state::IcaState {
                ica_id,
                ica_addr: ica_address,
                tx_encoding,
                channel_state: ChannelState::new_open_channel(channel),
            });
            ICA_STATES.save(deps.storage, ica_id, &ica_state)?;
        }

        Ok(Response::default())
    }
}

"""),
]
R['r2-ow-order'] = [
    (OW, ("        let initial_state = state::IcaContractState::new(contract_addr.clone());", "    /// Sends a predefined action"),
     """        let next = ica_count + 1;
        ICA_COUNT.save(deps.storage, &next)?;
        CONTRACT_ADDR_TO_ICA_ID.save(deps.storage, contract_addr.clone(), &ica_count)?;
        ICA_STATES.save(
            deps.storage,
            ica_count,
            &state::IcaContractState {
                contract_addr,
                ica_state: None,
            },
        )?;

        let mut response = Response::default();
        response.messages.push(cosmwasm_std::SubMsg::new(cosmos_msg));
        Ok(response)
    }

"""),
]
R['r2-ow-verify-eq'] = [
    (OWS, ("            if self.admin.to_string() == sender.into() {", "        }\n    }\n}\n\nmod ica"),
     """            let sender: String = sender.into();
            if self.admin.as_str() != sender {
                return Err(ContractError::Unauthorized {});
            }
            Ok(())
"""),
]
R['r2-cc-collapse'] = [
    (CC, ("        match &callback_msg {", "mod query {"),
     """        if matches!(
            callback_msg,
            IcaControllerCallbackMsg::OnChannelOpenAckCallback { .. }
        ) {
            return Ok(Response::default());
        }

        let mut counter = CALLBACK_COUNTER.load(deps.storage)?;
        match &callback_msg {
            IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement: Data::Result(_),
                ..
            } => counter.success(callback_msg),
            IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement: Data::Error(_),
                ..
            } => counter.error(callback_msg),
            IcaControllerCallbackMsg::OnTimeoutPacketCallback { .. } => {
                counter.timeout(callback_msg)
            }
            IcaControllerCallbackMsg::OnChannelOpenAckCallback { .. } => (),
        }
        CALLBACK_COUNTER.save(deps.storage, &counter)?;

        Ok(Response::default())
    }
}

"""),
]
R['r2-cc-push'] = [
    (CC, """                        counter.success(callback_msg);
                        Ok(counter)""", """                        counter.success.push(callback_msg.clone());
                        Ok(counter)"""),
    (CCS, "            self.error.push(msg);", "            self.error.extend(std::iter::once(msg));"),
    (CCS, "            self.timeout.push(msg);", "            self.timeout.insert(self.timeout.len(), msg);"),
]
