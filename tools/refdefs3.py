"""behaviour-preserving edits, third batch: constructs not used before (tables of functions, traits, macros, generics, drains)"""
from refdefs2 import *  # noqa: the file names
R = {}
R['r3-dispatch-table'] = [
    (QM, ("        match path {\n            x if x.starts_with(", "    }\n\n    fn bank_response"),
     """        type Decoder = fn(&str, &[u8]) -> Result<IcaQueryResponse, ContractError>;
        let table: [(&str, Decoder); 3] = [
            ("/cosmos.bank.v1beta1.Query/", bank_response),
            ("/cosmwasm.wasm.v1.Query/", wasm_response),
            #[cfg(feature = "staking")]
            ("/cosmos.staking.v1beta1.Query/", staking_response),
            #[cfg(not(feature = "staking"))]
            ("/cosmwasm.wasm.v1.Query/", wasm_response),
        ];
        for (prefix, decoder) in table {
            if path.starts_with(prefix) {
                return decoder(path, resp);
            }
        }
        Err(ContractError::UnknownDataType(path.to_string()))
"""),
]
R['r3-dispatch-find'] = [
    (QM, ("        match path {\n            x if x.starts_with(", "    }\n\n    fn bank_response"),
     """        type Decoder = fn(&str, &[u8]) -> Result<IcaQueryResponse, ContractError>;
        const TABLE: &[(&str, Decoder)] = &[
            ("/cosmos.bank.v1beta1.Query/", bank_response),
            ("/cosmwasm.wasm.v1.Query/", wasm_response),
            #[cfg(feature = "staking")]
            ("/cosmos.staking.v1beta1.Query/", staking_response),
        ];
        TABLE
            .iter()
            .find(|(prefix, _)| path.starts_with(prefix))
            .map_or_else(
                || Err(ContractError::UnknownDataType(path.to_string())),
                |(_, decoder)| decoder(path, resp),
            )
"""),
]
R['r3-relay-trait'] = [
    (REL, ("        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnAck", "    /// Handles the unsuccessful"),
     """        let callback = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
            ica_acknowledgement,
            original_packet: packet,
            relayer,
            query_result,
        };
        let response = IbcBasicResponse::default().with_callback(deps.storage, callback)?;
        Ok(response.add_event(success_event))
    }

    /// Adds the callback to a response.
    trait WithCallback: Sized {
        fn with_callback(
            self,
            storage: &dyn cosmwasm_std::Storage,
            callback: IcaControllerCallbackMsg,
        ) -> Result<Self, ContractError>;
    }

    impl WithCallback for IbcBasicResponse {
        fn with_callback(
            self,
            storage: &dyn cosmwasm_std::Storage,
            callback: IcaControllerCallbackMsg,
        ) -> Result<Self, ContractError> {
            match state::STATE.load(storage)?.callback_address {
                Some(addr) => Ok(self.add_message(callback.into_cosmos_msg(addr)?)),
                None => Ok(self),
            }
        }
    }

"""),
]
R['r3-relay-generic'] = [
    (REL, ("    // This lets the ICA controller know whether", "/// Implements the IBC module's `OnTimeoutPacket`"),
     """    // This lets the ICA controller know whether or not the sent transactions succeeded.
    let IbcPacketAckMsg {
        acknowledgement,
        original_packet,
        relayer,
        ..
    } = ack;
    let handler: Box<dyn FnOnce(DepsMut) -> Result<IbcBasicResponse, ContractError>> =
        match from_json(&acknowledgement.data)? {
            AcknowledgementData::Result(res) => {
                Box::new(move |deps| ibc_packet_ack::success(deps, original_packet, relayer, res))
            }
            AcknowledgementData::Error(err) => {
                Box::new(move |deps| ibc_packet_ack::error(deps, original_packet, relayer, err))
            }
        };
    handler(deps)
}

"""),
]
R['r3-hs-macro'] = [
    (HS, ("        // Validate that this is the stored channel\n        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;", "        // Return the response, emit events if needed"),
     """        close_recorded!(deps, channel);

"""),
    (HS, "    use super::{state, ContractError, DepsMut, IbcBasicResponse, IbcChannel};\n\n    /// Handles the `OpenInit`" , "X"),
]
R['r3-md-validate-list'] = [
    (MD, ("        if self.version != ICA_VERSION {", "    }\n}\n\nimpl std::fmt::Display for IcaMetadata"),
     """        let problems = [
            (self.version != ICA_VERSION).then(|| ContractError::InvalidVersion {
                expected: ICA_VERSION.to_string(),
                actual: self.version.clone(),
            }),
            (self.controller_connection_id != channel.connection_id)
                .then_some(ContractError::InvalidConnection),
            (!matches!(self.encoding, TxEncoding::Protobuf))
                .then(|| ContractError::UnsupportedPacketEncoding(self.encoding.to_string())),
            if self.address.is_empty() {
                None
            } else {
                validate_ica_address(&self.address).err()
            },
            (self.tx_type != "sdk_multi_msg")
                .then(|| ContractError::UnsupportedTxType(self.tx_type.clone())),
        ];
        problems.into_iter().flatten().next().map_or(Ok(()), Err)
"""),
]
R['r3-md-validate-try'] = [
    (MD, ("        if self.version != ICA_VERSION {", "    }\n}\n\nimpl std::fmt::Display for IcaMetadata"),
     """        fn require(cond: bool, err: impl FnOnce() -> ContractError) -> Result<(), ContractError> {
            if cond {
                Ok(())
            } else {
                Err(err())
            }
        }
        require(self.version == ICA_VERSION, || ContractError::InvalidVersion {
            expected: ICA_VERSION.to_string(),
            actual: self.version.clone(),
        })
        .and_then(|()| {
            require(self.controller_connection_id == channel.connection_id, || {
                ContractError::InvalidConnection
            })
        })?;
        require(self.encoding == TxEncoding::Protobuf, || {
            ContractError::UnsupportedPacketEncoding(self.encoding.to_string())
        })?;
        if !self.address.is_empty() {
            validate_ica_address(&self.address)?;
        }
        require(self.tx_type == "sdk_multi_msg", || {
            ContractError::UnsupportedTxType(self.tx_type.clone())
        })
"""),
]
R['r3-md-address-bytes'] = [
    (MD, "address.len() > DEFAULT_MAX_LENGTH || !address.chars().all(char::is_alphanumeric)",
     "DEFAULT_MAX_LENGTH < address.len() || address.chars().any(|c| !c.is_alphanumeric())"),
]
R['r3-pk-while-pop'] = [
    (PK, ("                let mut proto_anys = messages\n", "                if !queries.is_empty() {"),
     """                let mut remaining = std::collections::VecDeque::from(messages);
                let mut proto_anys = Vec::with_capacity(remaining.len() + 1);
                while let Some(msg) = remaining.pop_front() {
                    let any = convert_to_proto_any(msg, ica_address.to_string())
                        .map_err(|e| StdError::generic_err(e.to_string()))?;
                    proto_anys.push(any);
                }

"""),
]
R['r3-pk-drain'] = [
    (PK, "        messages: Vec<CosmosMsg>,\n        queries: Vec<", "        mut messages: Vec<CosmosMsg>,\n        queries: Vec<"),
    (PK, ("                let mut proto_anys = messages\n", "                if !queries.is_empty() {"),
     """                let mut proto_anys = vec![];
                for msg in messages.drain(..) {
                    match convert_to_proto_any(msg, ica_address.to_string()) {
                        Ok(any) => proto_anys.push(any),
                        Err(e) => return Err(StdError::generic_err(e.to_string())),
                    }
                }

"""),
]
R['r3-pk-chain'] = [
    (PK, ("                let mut proto_anys = messages\n", "                if !queries.is_empty() {"),
     """                let proto_anys = messages
                    .into_iter()
                    .map(|msg| -> StdResult<cosmos_sdk_proto::Any> {
                        convert_to_proto_any(msg, ica_address.to_string())
                            .map_err(|e| StdError::generic_err(e.to_string()))
                    })
                    .collect::<StdResult<Vec<cosmos_sdk_proto::Any>>>()?;
                let mut query_any = None;

"""),
    (PK, "                    proto_anys.push(cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {", "                    query_any = Some(cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {"),
    (PK, ("                    })?);\n                }\n\n                Ok(Self::from_proto_anys(proto_anys, memo))", "            TxEncoding::Proto3Json"),
     """                    })?);
                }

                Ok(Self::from_proto_anys(
                    proto_anys.into_iter().chain(query_any).collect(),
                    memo,
                ))
            }
"""),
]
R['r3-pk-split'] = [
    (PK, ("                if !queries.is_empty() {", "                Ok(Self::from_proto_anys(proto_anys, memo))"),
     """                if let Some(any) = Self::query_any(
                    #[cfg(feature = "export")]
                    storage,
                    queries,
                    ica_address,
                )? {
                    proto_anys.push(any);
                }

"""),
    (PK, "impl IcaPacketData {\n", """impl IcaPacketData {
    #[cfg(feature = "query")]
    fn query_any(
        #[cfg(feature = "export")] storage: &mut dyn cosmwasm_std::Storage,
        queries: Vec<cosmwasm_std::QueryRequest<cosmwasm_std::Empty>>,
        signer: &str,
    ) -> StdResult<Option<cosmos_sdk_proto::Any>> {
        use crate::types::query_msg::{self, proto};

        if queries.is_empty() {
            return Ok(None);
        }
        let mut requests = Vec::with_capacity(queries.len());
        let mut paths: Vec<(String, bool)> = Vec::with_capacity(queries.len());
        for (path, data, is_stargate) in queries.into_iter().map(query_msg::query_to_protobuf) {
            requests.push(proto::AbciQueryRequest {
                path: path.clone(),
                data,
            });
            paths.push((path, is_stargate));
        }
        #[cfg(feature = "export")]
        crate::types::state::QUERY.save(storage, &paths)?;
        #[cfg(not(feature = "export"))]
        drop(paths);

        cosmos_sdk_proto::Any::from_msg(&proto::MsgModuleQuerySafe {
            signer: signer.to_owned(),
            requests,
        })
        .map(Some)
        .map_err(|e| StdError::generic_err(format!("failed to convert query msg: {e}")))
    }

"""),
]
R['r3-ct-sender-ctx'] = [
    (CT, "        cw_ownable::assert_owner(deps.storage, &info.sender)?;\n\n        let contract_state = state::STATE.load(deps.storage)?;\n        let ica_info = contract_state.get_ica_info()?;",
     "        let MessageInfo { sender, .. } = info;\n        cw_ownable::assert_owner(deps.storage, &sender)?;\n\n        let ica_info = state::STATE\n            .load(deps.storage)\n            .map_err(ContractError::from)\n            .and_then(|s| s.get_ica_info())?;"),
]
R['r3-ct-match-owner'] = [
    (CT, """        if action == cw_ownable::Action::RenounceOwnership {
            return Err(ContractError::OwnershipCannotBeRenounced);
        };

        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;

        Ok(Response::default())
""", """        match action {
            cw_ownable::Action::RenounceOwnership => {
                Err(ContractError::OwnershipCannotBeRenounced)
            }
            transfer_or_accept => {
                let _ownership = cw_ownable::update_ownership(
                    deps,
                    &env.block,
                    &info.sender,
                    transfer_or_accept,
                )?;
                Ok(Response::new())
            }
        }
"""),
]
R['r3-ct-owner-manual'] = [
    (CT, "        cw_ownable::assert_owner(deps.storage, &info.sender)?;\n\n        let mut contract_state", """        if !cw_ownable::is_owner(deps.storage, &info.sender)? {
            return Err(cw_ownable::OwnershipError::NotOwner.into());
        }

        let mut contract_state"""),
]
R['r3-ct-reply-letelse'] = [
    (CT, ("        match result {\n            SubMsgResult::Ok(resp) => {", "    }\n}\n\nmod query {"),
     """        let resp = match result {
            SubMsgResult::Ok(resp) => resp,
            SubMsgResult::Err(err) => unreachable!("query packet failed: {err}"),
        };

        let query_paths = state::QUERY.load(deps.storage)?;
        state::QUERY.remove(deps.storage);

        #[allow(deprecated)]
        let data = resp.data.unwrap_or_default();
        let sequence = anybuf::Bufany::deserialize(&data)?.uint64(1).unwrap();
        let ica_info = state::STATE.load(deps.storage)?.get_ica_info()?;
        state::PENDING_QUERIES.save(
            deps.storage,
            (ica_info.channel_id.as_str(), sequence),
            &query_paths,
        )?;

        Ok(Response::default())
"""),
]
R['r3-ct-instantiate-struct'] = [
    (CT, ("    state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &msg.channel_open_init_options)?;", "    Ok(Response::new().add_message(ica_channel_open_init_msg))\n}"),
     """    let options = msg.channel_open_init_options;
    state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;
    state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &options)?;

    let ica_channel_open_init_msg = {
        let crate::types::msg::options::ChannelOpenInitOptions {
            connection_id,
            counterparty_connection_id,
            counterparty_port_id,
            channel_ordering,
        } = options;
        new_ica_channel_open_init_cosmos_msg(
            env.contract.address.into_string(),
            connection_id,
            counterparty_port_id,
            counterparty_connection_id,
            None,
            channel_ordering,
        )
    };

"""),
]
R['r3-relay-timeout-filter'] = [
    (REL, ("    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n    if channel_state.is_ordered()", "    ibc_packet_timeout::callback"),
     """    let current = state::CHANNEL_STATE.load(deps.storage)?;
    let timed_out = &msg.packet.src.channel_id;
    let to_close = Some(current)
        .filter(ChannelState::is_ordered)
        .filter(|current| &current.channel.endpoint.channel_id == timed_out);
    if let Some(mut current) = to_close {
        current.close();
        state::CHANNEL_STATE.save(deps.storage, &current)?;
    }

"""),
    (REL, "use crate::types::{query_msg, state, ContractError};", "use crate::types::state::ChannelState;\nuse crate::types::{query_msg, state, ContractError};"),
]
R['r3-relay-key'] = [
    (REL, ("        let query_result = state::PENDING_QUERIES\n            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?\n            .map(\n", "        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address"),
     """        let key = (packet.src.channel_id.as_str(), packet.sequence);
        let mut query_result = None;
        if let Some(paths) = state::PENDING_QUERIES.may_load(deps.storage, key)? {
            let resp_msg = ica_acknowledgement.decode_module_query_safe_resp_last_index()?;
            query_result.replace(query_msg::result_from_response(paths, &resp_msg));
            state::PENDING_QUERIES.remove(deps.storage, key);
        }

"""),
]
R['r3-cm-coins-macro'] = [
    (MD, "    Ok(())\n}\n\n#[cfg(test)]", "    Ok::<(), ContractError>(())\n}\n\n#[cfg(test)]"),
]
R['r3-ack-fold-result'] = [
    (QM, ("    paths\n        .into_iter()\n        .zip(", "}\n\n/// "),
     """    let decoded = paths.into_iter().zip(&resp_msg.responses).try_fold(
        Vec::new(),
        |mut acc, ((path, is_stargate), resp)| {
            acc.push(from_protobuf::response(&path, resp, is_stargate)?);
            Ok::<_, crate::types::ContractError>(acc)
        },
    );
    match decoded {
        Ok(responses) => IcaQueryResult::Success {
            height: resp_msg.height,
            responses,
        },
        Err(e) => IcaQueryResult::Error(e.to_string()),
    }
"""),
]
R['r3-ack-labeled'] = [
    (QM, ("    paths\n        .into_iter()\n        .zip(", "}\n\n/// "),
     """    let result = 'decode: {
        let mut responses = vec![];
        for (k, (path, is_stargate)) in paths.iter().enumerate() {
            match from_protobuf::response(path, &resp_msg.responses[k], *is_stargate) {
                Ok(r) => responses.push(r),
                Err(e) => break 'decode Err(e),
            }
        }
        Ok(responses)
    };
    result.map_or_else(
        |e| IcaQueryResult::Error(e.to_string()),
        |responses| IcaQueryResult::Success {
            height: resp_msg.height,
            responses,
        },
    )
"""),
]
R['r3-ack-recursive-closure'] = [
    (QM, ("    paths\n        .into_iter()\n        .zip(", "}\n\n/// "),
     """    let decode = |(query, resp): (&(String, bool), &Vec<u8>)| {
        let (path, is_stargate) = query;
        from_protobuf::response(path, resp, *is_stargate)
    };
    let pairs = std::iter::zip(&paths, &resp_msg.responses);
    let responses: Result<Vec<_>, _> = pairs.map(decode).collect();
    match responses {
        Ok(responses) => IcaQueryResult::Success {
            responses,
            height: resp_msg.height,
        },
        Err(e) => IcaQueryResult::Error(e.to_string()),
    }
"""),
]
del R['r3-hs-macro'], R['r3-cm-coins-macro']
