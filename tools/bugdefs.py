"""one-line ways to break a property that must be reported: (expected properties, edits); run with refs.py -b"""
from refdefs2 import REL, HS, CT, MD, PK, ST, QM, CM, SG, EV, CB, HP, MS
B = {}
B['b-port-ignore-case'] = ('C05', [(HS, 'channel.counterparty_endpoint.port_id != keys::HOST_PORT_ID', '!channel.counterparty_endpoint.port_id.eq_ignore_ascii_case(keys::HOST_PORT_ID)')])
B['b-version-trim'] = ('C05', [(MD, 'if self.version != ICA_VERSION {', 'if self.version.trim() != ICA_VERSION {')])
B['b-tx-type-starts'] = ('C05,C06', [(MD, 'if self.tx_type != "sdk_multi_msg" {', 'if !self.tx_type.starts_with("sdk_multi_msg") {')])
B['b-raw-set'] = ('C03', [(REL, "    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)", "    deps.storage.set(b\"allow_channel_open_init\", b\"true\");\n    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)")])
B['b-raw-remove'] = ('C09', [(CT, "    cw2::set_contract_version(deps.storage, keys::CONTRACT_NAME, keys::CONTRACT_VERSION)?;\n    // If state", "    deps.storage.remove(b\"ica_channel\");\n    cw2::set_contract_version(deps.storage, keys::CONTRACT_NAME, keys::CONTRACT_VERSION)?;\n    // If state")])
B['b-gas-limit'] = ('C17,C22', [(CT, "            SubMsg::new(send_packet_msg)", "            SubMsg::new(send_packet_msg).with_gas_limit(200_000)")])
B['b-callback-submsg'] = ('C11', [(REL, ("            Ok(IbcBasicResponse::default()\n                .add_message(callback_msg)\n                .add_event(success_event))", "        } else {"), "            Ok(IbcBasicResponse::default()\n                .add_submessage(cosmwasm_std::SubMsg::reply_on_error(callback_msg, 7))\n                .add_event(success_event))\n")])
B['b-skip-index'] = ('C16', [(PK, ("                let mut proto_anys = messages\n", "                if !queries.is_empty() {"),
     """                let mut proto_anys = vec![];
                for (i, msg) in messages.into_iter().enumerate() {
                    if i == 64 {
                        continue;
                    }
                    proto_anys.push(convert_to_proto_any(msg, ica_address.to_string())
                        .map_err(|e| StdError::generic_err(e.to_string()))?);
                }

""")])
B['b-break-index'] = ('C16', [(PK, ("                let mut proto_anys = messages\n", "                if !queries.is_empty() {"),
     """                let mut proto_anys = vec![];
                for msg in messages {
                    if proto_anys.len() >= 64 {
                        break;
                    }
                    proto_anys.push(convert_to_proto_any(msg, ica_address.to_string())
                        .map_err(|e| StdError::generic_err(e.to_string()))?);
                }

""")])
B['b-dedup-queries'] = ('C14,C15,C16', [(PK, "                    ) = queries.into_iter().fold((vec![], vec![]), |mut acc, msg| {\n                        let (path, data, is_stargate) = query_msg::query_to_protobuf(msg);\n",
    "                    ) = queries.into_iter().fold((vec![], vec![]), |mut acc, msg| {\n                        let (path, data, is_stargate) = query_msg::query_to_protobuf(msg);\n                        if acc.1.contains(&(path.clone(), is_stargate)) {\n                            return acc;\n                        }\n")])
B['b-sort-queries'] = ('C15,C16', [(PK, "                    #[cfg(feature = \"export\")]\n                    #[allow(clippy::used_underscore_binding)]", "                    let mut abci_queries = abci_queries;\n                    abci_queries.sort_by(|a, b| a.path.cmp(&b.path));\n                    #[cfg(feature = \"export\")]\n                    #[allow(clippy::used_underscore_binding)]")])
B['b-sender-contract'] = ('C01', [(CT, "    #[allow(clippy::needless_pass_by_value)]\n    pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {\n        cw_ownable::assert_owner(deps.storage, &info.sender)?;", "    #[allow(clippy::needless_pass_by_value)]\n    pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {\n        if state::STATE.load(deps.storage)?.callback_address.as_ref() != Some(&info.sender) {\n            cw_ownable::assert_owner(deps.storage, &info.sender)?;\n        }")])
B['b-owner-expired'] = ('C01', [(CT, "        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;", "        let mut block = env.block;\n        block.height = 0;\n        cw_ownable::update_ownership(deps, &block, &info.sender, action)?;")])
B['b-ack-no-decode'] = ('C15', [(REL, "                        ica_acknowledgement.decode_module_query_safe_resp_last_index()?;", "                        ica_acknowledgement.decode_module_query_safe_resp(0)?;")])
B['b-display-encoding'] = ('C05', [(MD, "f.write_str(&serde_json_wasm::to_string(self).unwrap())\n    }\n}\n\nimpl std::fmt::Display for TxEncoding", "f.write_str(serde_json_wasm::to_string(self).unwrap().trim_end_matches('}'))\n    }\n}\n\nimpl std::fmt::Display for TxEncoding")])
B['b-static-counter'] = ('C30', [(CT, "        let has_queries = !queries.is_empty();", "        static SEEN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n        let has_queries = !queries.is_empty() && SEEN.fetch_add(1, std::sync::atomic::Ordering::SeqCst) < 1000;")])
B['b-hashmap'] = ('C30', [(CT, "        let has_queries = !queries.is_empty();", "        let set: std::collections::HashMap<u64, u64> = [(1, 2), (3, 4)].into_iter().collect();\n        let has_queries = !queries.is_empty() && set.values().next().copied() == Some(2);")])
B['b-reply-zero-seq'] = ('C22', [(CT, "                    .uint64(1)\n                    .unwrap();", "                    .uint64(2)\n                    .unwrap();")])
B['b-reply-data-lossy'] = ('C22', [(CT, "&resp.data.unwrap_or_default()", "&resp.msg_responses.first().map(|r| r.value.clone()).unwrap_or_default()")])
B['b-ack-of-packet'] = ('C11', [(REL, 'match from_json(&ack.acknowledgement.data)? {', 'match from_json(&ack.original_packet.data)? {')])

B['b-pending-clear'] = ('C14', [(REL, ("        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));\n\n        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout", "PacketCallback"), "        state::PENDING_QUERIES.clear(deps.storage);\n\n        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout")])
# cut off instead of refused
import refdefs6 as _r6
B['b-mapwhile-truncate'] = ('C16', [(PK, _r6.COLL, """                let mut proto_anys: Vec<cosmos_sdk_proto::Any> = messages
                    .into_iter()
                    .map_while(|msg| (!matches!(msg, CosmosMsg::Custom(_))).then_some(msg))
                    .map(|msg| convert_to_proto_any(msg, ica_address.to_string()).unwrap())
                    .collect();

""")])
_it = [list(e) for e in _r6.R['r6-pk-custom-iter']]
_it[1][2] = _it[1][2].replace("""        Some(
            convert_to_proto_any(msg, self.from.to_string())
                .map_err(|e| StdError::generic_err(e.to_string())),
        )""", """        Some(msg).filter(|m| !matches!(m, CosmosMsg::Custom(_))).map(|msg| Ok(
            convert_to_proto_any(msg, self.from.to_string()).unwrap(),
        ))""")
B['b-own-iterator-stops'] = ('C16', [tuple(e) for e in _it])
_it = [list(e) for e in _r6.R['r6-pk-custom-iter']]
_it[1][2] = _it[1][2].replace("let msg = self.messages.next()?;", "let msg = self.messages.next_back()?;")
B['b-own-iterator-backwards'] = ('C16', [tuple(e) for e in _it])
B['b-take-while-proto'] = ('C15', [(PK, "queries.into_iter().fold((vec![], vec![]),", "queries.into_iter().take_while(|q| !matches!(q, cosmwasm_std::QueryRequest::Custom(_))).fold((vec![], vec![]),")])
_it = [list(e) for e in _r6.R['r6-pk-rev-pop']]
_it[0][2] = _it[0][2].replace("                messages.reverse();\n", "")
B['b-pop-without-reverse'] = ('C16', [tuple(e) for e in _it])
# ---- second batch: one condition or value off, per property
B['b2-own-block'] = ('C01', [(CT, "        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;", "        let mut block = env.block.clone();\n        block.height = block.height.saturating_sub(1);\n        cw_ownable::update_ownership(deps, &block, &info.sender, action)?;")])
B['b2-self-call'] = ('C01', [(CT, "        cw_ownable::assert_owner(deps.storage, &info.sender)?;\n\n        let contract_state = state::STATE.load(deps.storage)?;\n        let ica_info", "        if info.sender != env.contract.address {\n            cw_ownable::assert_owner(deps.storage, &info.sender)?;\n        }\n\n        let contract_state = state::STATE.load(deps.storage)?;\n        let ica_info")])
B['b2-empty-send-ok'] = ('C01', [(CT, "        cw_ownable::assert_owner(deps.storage, &info.sender)?;\n\n        let contract_state = state::STATE.load(deps.storage)?;\n        let ica_info", "        if messages.is_empty() && queries.is_empty() {\n            return Ok(Response::default());\n        }\n        cw_ownable::assert_owner(deps.storage, &info.sender)?;\n\n        let contract_state = state::STATE.load(deps.storage)?;\n        let ica_info")])
B['b2-pending-owner-callback'] = ('C01', [(CT, "        cw_ownable::assert_owner(deps.storage, &info.sender)?;\n\n        let mut contract_state", "        if cw_ownable::get_ownership(deps.storage)?.pending_owner.as_ref() != Some(&info.sender) {\n            cw_ownable::assert_owner(deps.storage, &info.sender)?;\n        }\n\n        let mut contract_state")])
B['b2-owner-lower'] = ('C02', [(CT, "Some(&owner))?;", "Some(&owner.to_lowercase()))?;")])
B['b2-open-kept-on-reopen'] = ('C03', [(HS, "        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;", "        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &channel.version.is_empty())?;")])
B['b2-close-twice'] = ('C04', [(CT, "        Ok(Response::new().add_message(channel_close_msg))", "        Ok(Response::new()\n            .add_message(channel_close_msg.clone())\n            .add_message(channel_close_msg))")])
B['b2-close-counterparty'] = ('C04', [(CT, "channel_id: channel_state.channel.endpoint.channel_id,", "channel_id: channel_state.channel.counterparty_endpoint.channel_id,")])
B['b2-address-graphic'] = ('C05,C06', [(MD, "address.chars().all(char::is_alphanumeric)", "address.chars().all(|c| c.is_alphanumeric() || c == '_')")])
B['b2-address-trim'] = ('C06', [(HS, "            &metadata.address,\n            &channel.endpoint.channel_id,", "            metadata.address.trim_start_matches('0'),\n            &channel.endpoint.channel_id,")])
B['b2-version-reserialised'] = ('C06', [(HS, "        channel.version = counterparty_version;", "        channel.version = metadata.to_string();")])
B['b2-receive-ok'] = ('C08', [(REL, '    unreachable!("ICA controller cannot receive packets")', '    Ok(IbcReceiveResponse::without_ack())')])
B['b2-timeout-flushing'] = ('C09,C10', [(REL, "        channel_state.close();", "        channel_state.channel_status = state::ChannelStatus::Flushing;")])
B['b2-timeout-only-open'] = ('C10', [(REL, "    if channel_state.is_ordered()\n", "    if channel_state.is_ordered()\n        && msg.packet.sequence > 1\n")])
B['b2-callback-not-self'] = ('C12', [(REL, "        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout", "        if let Some(contract_addr) = state.callback_address.filter(|a| *a != relayer) {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout")])
B['b2-event-b64'] = ('C13', [(EV, "resp.to_base64()", "resp.to_string().trim_end_matches('=').to_string()")])
B['b2-event-twice'] = ('C13', [(REL, "            Ok(IbcBasicResponse::default().add_event(error_event))", "            Ok(IbcBasicResponse::default()\n                .add_event(error_event.clone())\n                .add_event(error_event))")])
B['b2-memo-empty'] = ('C16', [(PK, "            r#type: 1,\n            data,\n            memo,\n        }\n    }\n", "            r#type: 1,\n            data,\n            memo,\n        }\n    }\n\n    fn trimmed(mut self) -> Self {\n        self.memo = self.memo.filter(|m| !m.is_empty());\n        self\n    }\n"), (PK, "        Self::new(data, memo)\n", "        Self::new(data, memo).trimmed()\n")])
B['b2-timeout-cap'] = ('C17', [(PK, "timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS)", "timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS).min(31_536_000)")])
B['b2-timeout-zero'] = ('C17', [(PK, "timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS)", "timeout_seconds.filter(|s| *s != 0).unwrap_or(DEFAULT_TIMEOUT_SECONDS)")])
B['b2-zero-coins'] = ('C18', [(CM, "                amount: amount\n                    .into_iter()\n", "                amount: amount\n                    .into_iter()\n                    .filter(|coin| !coin.amount.is_zero())\n")])
B['b2-transfer-memo'] = ('C18', [(CM, "memo: memo.unwrap_or_default(),", "memo: memo.map(|m| m.trim().to_string()).unwrap_or_default(),")])
B['b2-burn-as-send'] = ('C19', [(CM, '            _ => panic!("Unsupported BankMsg"),', '            BankMsg::Burn { amount } => Any::from_msg(&MsgSend {\n                to_address: from_address.clone(),\n                from_address,\n                amount: amount\n                    .into_iter()\n                    .map(|coin| ProtoCoin {\n                        denom: coin.denom,\n                        amount: coin.amount.to_string(),\n                    })\n                    .collect(),\n            }),\n            _ => panic!("Unsupported BankMsg"),')])
B['b2-page-limit'] = ('C20', [(QM, "limit: u64::from(pagination.limit),", "limit: u64::from(pagination.limit.max(1)),")])
B['b2-supply-default'] = ('C21', [(QM, ("                    SupplyResponse::new(\n                        resp.amount\n", "                    ),"), "                    SupplyResponse::new(\n                        resp.amount\n                            .filter(|c| c.amount != \"0\")\n                            .map_or_else(|| Ok(Coin::default()), convert_to_coin)?,\n")])
B['b2-reply-always'] = ('C22', [(CT, "SubMsg::reply_on_success(send_packet_msg", "SubMsg::reply_always(send_packet_msg")])
B['b2-port-empty'] = ('C23', [(SG, "counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into);", "counterparty_port_id\n                .map(Into::into)\n                .filter(|p: &String| !p.is_empty())\n                .unwrap_or_else(|| keys::HOST_PORT_ID.into());")])
B['b2-options-only-new'] = ('C24', [(CT, "            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n            new_options", "            if !state::CHANNEL_OPEN_INIT_OPTIONS.exists(deps.storage) {\n                state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n            }\n            new_options")])
B['b2-semver-major'] = ('C26', [(CT, "        if prev_version >= version {", "        if prev_version > version {")])
B['b2-migrate-no-info'] = ('C26', [(CT, "    migrate::validate_channel_encoding(deps.as_ref())?;", "    if state::CHANNEL_STATE.exists(deps.storage) {\n        migrate::validate_channel_encoding(deps.as_ref())?;\n    }")])
B['b2-query-hides-closed'] = ('C29', [(CT, "        state::CHANNEL_STATE.load(deps.storage)\n", "        let mut channel = state::CHANNEL_STATE.load(deps.storage)?;\n        if !channel.is_open() {\n            channel.channel.version.clear();\n        }\n        Ok(channel)\n")])
B['b2-reply-latest-channel'] = ('C14,C22', [(CT, "                let channel_id = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id;", "                let channel_id = state::CHANNEL_STATE.load(deps.storage)?.channel.counterparty_endpoint.channel_id;")])
B['b2-salt-hex'] = ('C31', [(HP, "                salt.as_bytes(),\n            )", "                salt.trim().as_bytes(),\n            )")])
B['b2-label-empty'] = ('C31', [(HP, ("            funds: vec![],\n            label: label.into(),\n            admin: admin.map(Into::into),\n        }", "\n        .into())"), "            funds: vec![],\n            label: label.into(),\n            admin: admin.map(Into::into).filter(|a: &String| !a.is_empty()),\n        }")])
B['b2-index-clamped'] = ('C36', [(PK, "tx_msg_data.msg_responses.get(index)", "tx_msg_data.msg_responses.get(index.min(tx_msg_data.msg_responses.len().saturating_sub(1)))")])
B['b2-reproposal-closed-only'] = ('C37', [(MD, "            if let Ok(previous_metadata) = serde_json_wasm::from_str(&channel_state.channel.version)\n            {\n                return Ok(previous_metadata);", "            if let Ok(previous_metadata) =\n                serde_json_wasm::from_str::<Self>(&channel_state.channel.version)\n            {\n                return Ok(Self {\n                    controller_connection_id: channel.connection_id.clone(),\n                    ..previous_metadata\n                });")])
B['b2-fee-refusal'] = ('C35', [(CT, "        let mut contract_state = state::STATE.load(deps.storage)?;\n\n        contract_state.callback_address", "        if !info.funds.is_empty() {\n            return Err(ContractError::Std(cosmwasm_std::StdError::generic_err(\"no funds\")));\n        }\n        let mut contract_state = state::STATE.load(deps.storage)?;\n\n        contract_state.callback_address")])
B['b2-open-flag-no-msg'] = ('C03,C23', [(CT, "        Ok(Response::new().add_message(ica_channel_open_init_msg))\n    }\n", "        let mut response = Response::new();\n        if !state::CHANNEL_STATE\n            .may_load(deps.storage)?\n            .is_some_and(|c| c.is_open())\n        {\n            response = response.add_message(ica_channel_open_init_msg);\n        }\n        Ok(response)\n    }\n")])
B['b2-active-other-conn'] = ('C07', [(HS, "            // if the channel is already open, return an error\n            if channel_state.is_open() {", "            if channel_state.is_open()\n                && channel_state.channel.connection_id == channel.connection_id\n            {")])
B['b2-close-endpoint-only'] = ('C09', [(HS, ("    pub fn confirm(deps: DepsMut, channel: IbcChannel)", "            return Err(ContractError::InvalidChannelInContractState);"), """    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel.endpoint != channel.endpoint {
""")])
B['b2-counter-timeout-first'] = ('C33', [('testing/contracts/callback-counter/src/contract.rs', "IcaControllerCallbackMsg::OnChannelOpenAckCallback { .. } => Ok(Response::default()),", "IcaControllerCallbackMsg::OnChannelOpenAckCallback { .. } => {\n                CALLBACK_COUNTER.update(deps.storage, |mut counter| -> StdResult<_> {\n                    counter.timeout(callback_msg);\n                    Ok(counter)\n                })?;\n                Ok(Response::default())\n            }")])
B['b3-version-swapped'] = ('C38', [(MD, "                expected: ICA_VERSION.to_string(),\n                actual: self.version.clone(),", "                expected: self.version.clone(),\n                actual: ICA_VERSION.to_string(),")])
B['b3-status-swapped'] = ('C38', [(CT, "                expected: state::ChannelStatus::Open.to_string(),\n                actual: channel_state.channel_status.to_string(),", "                expected: channel_state.channel_status.to_string(),\n                actual: state::ChannelStatus::Open.to_string(),")])
B['b3-not-allowed-port'] = ('C38', [(HS, "            return Err(ContractError::InvalidHostPort);", "            return Err(ContractError::ChannelOpenInitNotAllowed);")])
B['b3-json-generic'] = ('C38', [(HS, ("        // serde::Deserialize the metadata\n        let metadata: IcaMetadata =\n            serde_json_wasm::from_str(&counterparty_version).map_err(|_| {", "        metadata.validate(&channel)?;"), "        let metadata: IcaMetadata =\n            serde_json_wasm::from_str(&counterparty_version).map_err(|_| ContractError::InvalidIcaAddress)?;\n")])
B['b3-reply-id'] = ('C38', [(CT, "ContractError::UnknownReplyId(msg.id)", "ContractError::UnknownReplyId(keys::reply_ids::SEND_QUERY_PACKET)")])
B['b3-migrate-swapped'] = ('C38', [(CT, "                expected: keys::CONTRACT_NAME.to_string(),\n                actual: prev_cw2_version.contract,", "                expected: prev_cw2_version.contract,\n                actual: keys::CONTRACT_NAME.to_string(),")])
B['b3-migrate-version-swapped'] = ('C38', [(CT, '                expected: format!("> {prev_version}"),\n                actual: keys::CONTRACT_VERSION.to_string(),', '                expected: format!("> {version}"),\n                actual: prev_version.to_string(),')])
B['b3-options-as-info'] = ('C38', [(CT, ".ok_or(ContractError::NoChannelInitOptions)?", ".ok_or(ContractError::IcaInfoNotSet)?")])
B['b3-encoding-order'] = ('C38', [(MD, "            return Err(ContractError::UnsupportedPacketEncoding(\n                self.encoding.to_string(),\n            ));", "            return Err(ContractError::InvalidVersion { expected: ICA_VERSION.to_string(), actual: self.version.clone() });")])
# an additional effect of a call: a message nobody asked for, or a stored value that is not the call's own
_PAY = 'cosmwasm_std::BankMsg::Send { to_address: %s.to_string(), amount: %s }'
B['b4-inst-refund'] = ('C39', [(CT, "    let owner = msg.owner.unwrap_or_else(", "    let refund = " + _PAY % ('info.sender', 'info.funds.clone()') + ";\n    let owner = msg.owner.unwrap_or_else("),
                               (CT, "    Ok(Response::new().add_message(ica_channel_open_init_msg))\n}", "    Ok(Response::new().add_message(ica_channel_open_init_msg).add_message(refund))\n}")])
B['b4-create-refund'] = ('C39', [(CT, "        Ok(Response::new().add_message(ica_channel_open_init_msg))\n    }", "        let r = Response::new().add_message(ica_channel_open_init_msg);\n        if info.funds.is_empty() {\n            return Ok(r);\n        }\n        Ok(r.add_message(" + _PAY % ('info.sender', 'info.funds') + "))\n    }")])
B['b4-close-refund'] = ('C39', [(CT, "        Ok(Response::new().add_message(channel_close_msg))", "        let r = Response::new().add_message(channel_close_msg);\n        if info.funds.is_empty() {\n            return Ok(r);\n        }\n        Ok(r.add_message(" + _PAY % ('info.sender', 'info.funds') + "))")])
B['b4-send-refund'] = ('C39', [(CT, "        Ok(Response::default().add_submessage(send_packet_submsg))", "        let r = Response::default().add_submessage(send_packet_submsg);\n        if info.funds.is_empty() {\n            return Ok(r);\n        }\n        Ok(r.add_message(" + _PAY % ('info.sender', 'info.funds') + "))")])
B['b4-ownership-refund'] = ('C39', [(CT, "        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;\n\n        Ok(Response::default())", "        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;\n\n        Ok(Response::default().add_message(" + _PAY % ('info.sender', 'info.funds') + "))")])
B['b4-callback-notify'] = ('C39', [(CT, "        state::STATE.save(deps.storage, &contract_state)?;\n\n        Ok(Response::default())", "        state::STATE.save(deps.storage, &contract_state)?;\n\n        Ok(Response::default().add_messages(contract_state.callback_address.map(|a| cosmwasm_std::WasmMsg::Execute { contract_addr: a.to_string(), msg: cosmwasm_std::Binary::from(b\"{}\"), funds: vec![] })))")])
B['b4-reply-self'] = ('C39', [(CT, "                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;\n\n                Ok(Response::default())", "                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;\n\n                Ok(Response::default().add_message(cosmwasm_std::IbcMsg::CloseChannel { channel_id }))")])
B['b4-migrate-open'] = ('C39', [(CT, ("    migrate::validate_channel_encoding(deps.as_ref())?;", "    Ok(Response::default())"), "    migrate::validate_channel_encoding(deps.as_ref())?;\n    cw2::set_contract_version(deps.storage, keys::CONTRACT_NAME, keys::CONTRACT_VERSION)?;\n    let r = Response::default();\n    if let Ok(c) = state::CHANNEL_STATE.load(deps.storage) {\n        if !c.is_open() {\n            return Ok(r.add_message(cosmwasm_std::IbcMsg::CloseChannel { channel_id: c.channel.endpoint.channel_id }));\n        }\n    }\n    ")])
B['b4-confirm-message'] = ('C39', [(HS, "        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())\n    }\n}", "        Ok(IbcBasicResponse::default().add_messages(state::STATE.load(deps.storage)?.callback_address.map(|a| cosmwasm_std::WasmMsg::Execute { contract_addr: a.to_string(), msg: cosmwasm_std::Binary::from(b\"{}\"), funds: vec![] })))\n    }\n}")])
B['b4-reply-clears-flag'] = ('C03,C04', [(CT, "                state::QUERY.remove(deps.storage);\n", "                state::QUERY.remove(deps.storage);\n                state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;\n")])
B['b4-update-resets-flag'] = ('C25', [(CT, "        state::STATE.save(deps.storage, &contract_state)?;\n\n        Ok(Response::default())", "        state::STATE.save(deps.storage, &contract_state)?;\n        state::QUERY.remove(deps.storage);\n\n        Ok(Response::default())")])
B['b4-response-data'] = ('C39', [(CT, "        Ok(Response::default().add_submessage(send_packet_submsg))", "        Ok(Response::default().add_submessage(send_packet_submsg).set_data(b\"sent\"))")])
_OC = 'testing/contracts/cw-ica-owner/src/contract.rs'
B['b4-owner-reopen-refused'] = ('C32', [(_OC, "        let mut ica_state = ICA_STATES.load(deps.storage, ica_id)?;\n", "        let mut ica_state = ICA_STATES.load(deps.storage, ica_id)?;\n        if ica_state.ica_state.is_some() {\n            return Err(ContractError::Unauthorized {});\n        }\n")])
B['b4-owner-first-only'] = ('C32', [(_OC, "        let cw_ica_contract =\n", "        if ica_state.ica_state.is_none() {\n            return Err(ContractError::Unauthorized {});\n        }\n        let cw_ica_contract =\n")])
B['b4-owner-counts-closed'] = ('C32', [(_OC, "ICA_COUNT.load(deps.storage)\n    }", "ICA_COUNT.load(deps.storage).map(|n| n.min(100))\n    }")])
# the fault hides in a cast, a late mutation, a trait implementation, an operator or an iterator's order
OWC, OWST = 'testing/contracts/cw-ica-owner/src/contract.rs', 'testing/contracts/cw-ica-owner/src/state.rs'
_COLL = ("                let mut proto_anys = messages\n", "                if !queries.is_empty() {")
B['b5-seq-cast'] = ('C14', [(CT, "state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;", "state::PENDING_QUERIES.save(\n                    deps.storage,\n                    (&channel_id, u64::from(sequence as u32)),\n                    &query_paths,\n                )?;")])
B['b5-amount-u64'] = ('C18', [(CM, "                token: Some(IbcCoin {\n                    denom: amount.denom,\n                    amount: amount.amount.to_string(),", "                token: Some(IbcCoin {\n                    denom: amount.denom,\n                    amount: (amount.amount.u128() as u64).to_string(),")])
B['b5-block-seconds'] = ('C17', [(PK, ("        let timeout_timestamp = env\n", "        Ok(IbcMsg::SendPacket {"), "        let timeout_timestamp = cosmwasm_std::Timestamp::from_seconds(\n            env.block.time.seconds() + timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS),\n        );\n")])
B['b5-late-memo'] = ('C16', [(CT, "        let ica_packet = IcaPacketData::from_cosmos_msgs(", "        let mut ica_packet = IcaPacketData::from_cosmos_msgs("), (CT, "        let send_packet_msg = ica_packet.to_ibc_msg(", "        if ica_packet.memo.as_ref().is_some_and(|memo| memo.len() > 32_768) {\n            ica_packet.memo.take();\n        }\n        let send_packet_msg = ica_packet.to_ibc_msg(")])
B['b5-rotate'] = ('C16', [(PK, "                if !queries.is_empty() {\n", "                if proto_anys.len() > 16 {\n                    proto_anys.rotate_left(1);\n                }\n                if !queries.is_empty() {\n")])
B['b5-swap-ends'] = ('C16', [(PK, "                if !queries.is_empty() {\n", "                if let [first, .., last] = proto_anys.as_mut_slice() {\n                    if first.type_url > last.type_url {\n                        std::mem::swap(first, last);\n                    }\n                }\n                if !queries.is_empty() {\n")])
B['b5-retain-empty'] = ('C16', [(PK, "                if !queries.is_empty() {\n", "                proto_anys.retain(|any| !any.value.is_empty());\n                if !queries.is_empty() {\n")])
B['b5-dedup-by'] = ('C16', [(PK, "                if !queries.is_empty() {\n", "                proto_anys.dedup_by(|a, b| a == b);\n                if !queries.is_empty() {\n")])
B['b5-truncate'] = ('C16', [(PK, "                if !queries.is_empty() {\n", "                proto_anys.truncate(256);\n                if !queries.is_empty() {\n")])
B['b5-xor-flag'] = ('C03', [(HS, "        if !state::ALLOW_CHANNEL_OPEN_INIT\n            .load(deps.storage)\n            .unwrap_or_default()\n        {", "        if !state::ALLOW_CHANNEL_OPEN_INIT\n            .load(deps.storage)\n            .unwrap_or_default()\n            ^ state::ALLOW_CHANNEL_CLOSE_INIT\n                .load(deps.storage)\n                .unwrap_or_default()\n        {")])
B['b5-or-flag'] = ('C03', [(HS, "        if !state::ALLOW_CHANNEL_OPEN_INIT\n            .load(deps.storage)\n            .unwrap_or_default()\n        {", "        if !state::ALLOW_CHANNEL_OPEN_INIT\n            .load(deps.storage)\n            .unwrap_or_default()\n            | !channel.version.is_empty()\n        {")])
B['b5-flag-default-true'] = ('C04', [(HS, "        if !state::ALLOW_CHANNEL_CLOSE_INIT\n            .load(deps.storage)\n            .unwrap_or_default()\n        {", "        if !state::ALLOW_CHANNEL_CLOSE_INIT\n            .may_load(deps.storage)?\n            .unwrap_or_else(|| channel.order == cosmwasm_std::IbcOrder::Unordered)\n        {")])
B['b5-flag-kept-unordered'] = ('C04', [(HS, "        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;\n", "        state::ALLOW_CHANNEL_CLOSE_INIT.save(\n            deps.storage,\n            &(channel.order == cosmwasm_std::IbcOrder::Unordered),\n        )?;\n")])
B['b5-flag-if-proposed'] = ('C03', [(HS, "        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;\n", "        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &channel.version.is_empty())?;\n")])
B['b5-owner-by-admin'] = ('C01', [(CT, "        cw_ownable::assert_owner(deps.storage, &info.sender)?;\n\n        let mut contract_state", "        if callback_address.is_some() {\n            cw_ownable::assert_owner(deps.storage, &info.sender)?;\n        }\n\n        let mut contract_state")])
B['b5-owner-result-ignored'] = ('C01', [(CT, "        cw_ownable::assert_owner(deps.storage, &info.sender)?;\n\n        let contract_state = state::STATE.load(deps.storage)?;\n        let ica_info", "        let authorised = cw_ownable::assert_owner(deps.storage, &info.sender);\n\n        let contract_state = state::STATE.load(deps.storage)?;\n        if contract_state.callback_address.as_ref() != Some(&info.sender) {\n            authorised?;\n        }\n        let ica_info")])
B['b5-partial-eq'] = ('C09', [(HS, "        if channel_state.channel != channel {\n            return Err(ContractError::InvalidChannelInContractState);\n        }\n        if !channel_state.is_open() {\n            return Err(ContractError::InvalidChannelStatus {\n                expected: state::ChannelStatus::Open.to_string(),\n                actual: channel_state.channel_status.to_string(),\n            });\n        }\n\n        // Update the channel state\n        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n\n        // Return the response, emit events if needed\n        Ok(IbcBasicResponse::default())\n    }\n\n", "")])
del B['b5-partial-eq']
B['b5-close-conditional'] = ('C09', [(ST, "            self.channel_status = ChannelStatus::Closed;", "            if self.is_open() || self.is_ordered() {\n                self.channel_status = ChannelStatus::Closed;\n            }"), (ST, "matches!(self.channel_status, ChannelStatus::Open)", "matches!(self.channel_status, ChannelStatus::Open | ChannelStatus::Flushing)")])
B['b5-open-ne-closed'] = ('C36', [(ST, "matches!(self.channel_status, ChannelStatus::Open)", "!matches!(self.channel_status, ChannelStatus::Closed | ChannelStatus::Init)")])
B['b5-timeout-prefix'] = ('C10', [(REL, "        && channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id\n", "        && channel_state\n            .channel\n            .endpoint\n            .channel_id\n            .starts_with(&msg.packet.src.channel_id)\n")])
B['b5-timeout-port'] = ('C10', [(REL, "        && channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id\n", "        && channel_state.channel.endpoint == msg.packet.dest\n")])
B['b5-callback-swallow'] = ('C12', [(REL, "        let state = state::STATE.load(deps.storage)?;\n\n        state::PENDING_QUERIES.remove", "        let mut state = state::STATE.load(deps.storage)?;\n        if state::PENDING_QUERIES.has(deps.storage, (&packet.src.channel_id, packet.sequence)) {\n            state.callback_address.take();\n        }\n\n        state::PENDING_QUERIES.remove")])
B['b5-ack-relayer'] = ('C11', [(REL, "            ibc_packet_ack::error(deps, ack.original_packet, ack.relayer, err)", "            let relayer = cosmwasm_std::Addr::unchecked(ack.relayer.as_str().to_lowercase());\n            ibc_packet_ack::error(deps, ack.original_packet, relayer, err)")])
B['b5-ack-data-swap'] = ('C11', [(REL, "        AcknowledgementData::Error(err) => {\n            ibc_packet_ack::error", "        AcknowledgementData::Result(res) if res.is_empty() => {\n            ibc_packet_ack::error(deps, ack.original_packet, ack.relayer, String::new())\n        }\n        AcknowledgementData::Error(err) => {\n            ibc_packet_ack::error"), (REL, "        AcknowledgementData::Result(res) => {\n            ibc_packet_ack::success", "        AcknowledgementData::Result(res) if !res.is_empty() => {\n            ibc_packet_ack::success"), (REL, "            ibc_packet_ack::error(deps, ack.original_packet, ack.relayer, err)\n        }\n    }", "            ibc_packet_ack::error(deps, ack.original_packet, ack.relayer, err)\n        }\n        AcknowledgementData::Result(_) => unreachable!(),\n    }")])
B['b5-event-seq-pad'] = ('C13', [(EV, "packet.sequence.to_string()", 'format!("{:03}", packet.sequence)')])
B['b5-event-error-first-line'] = ('C13', [(EV, ".add_attribute(attributes::ERROR, err)", '.add_attribute(attributes::ERROR, err.split(\'\\n\').next().unwrap_or(err))')])
B['b5-height-nonzero'] = ('C15', [(QM, "                height: resp_msg.height,\n                responses,", "                height: resp_msg.height.max(1),\n                responses,")])
B['b5-empty-response-stargate'] = ('C15,C21', [(QM, "        if is_stargate {\n", "        if is_stargate && !resp.is_empty() {\n")])
B['b5-len-less'] = ('C15', [(QM, "    if paths.len() != resp_msg.responses.len() {", "    if paths.len() > resp_msg.responses.len() {")])
B['b5-vote-weight-percent'] = ('C18', [(CM, "weight: weighted_option.weight.to_string(),", "weight: weighted_option.weight.min(cosmwasm_std::Decimal::one()).to_string(),")])
B['b5-timeout-height-filter'] = ('C18', [(CM, "                timeout_height: timeout.block().map(", "                timeout_height: timeout.block().filter(|block| block.revision > 0).map(")])
B['b5-salt-string'] = ('C18', [(CM, "salt: salt.to_vec(),", "salt: salt.iter().copied().take(64).collect(),")])
B['b5-stargate-slash'] = ('C18', [(CM, "            type_url,\n            value: value.to_vec(),", "            type_url: if type_url.starts_with('/') {\n                type_url\n            } else {\n                format!(\"/{type_url}\")\n            },\n            value: value.to_vec(),")])
B['b5-funds-sorted'] = ('C18', [(CM, "                msg: msg.to_vec(),\n                funds: funds\n                    .into_iter()\n                    .map(|coin| ProtoCoin {\n                        denom: coin.denom,\n                        amount: coin.amount.to_string(),\n                    })\n                    .collect(),\n                label,", "                msg: msg.to_vec(),\n                funds: funds\n                    .into_iter()\n                    .map(|coin| (coin.denom, coin.amount.to_string()))\n                    .collect::<std::collections::BTreeMap<_, _>>()\n                    .into_iter()\n                    .map(|(denom, amount)| ProtoCoin { denom, amount })\n                    .collect(),\n                label,")])
B['b5-raw-prefix'] = ('C20', [(QM, "        QueryRequest::Stargate { path, data } => (path, data.into(), true),", "        QueryRequest::Stargate { path, data } => {\n            let known = path.starts_with(\"/cosmos.bank.v1beta1.Query/\");\n            (path, data.into(), !known)\n        }")])
B['b5-decimals'] = ('C21', [(QM, "                    exponent: unit.exponent,", "                    exponent: unit.exponent.min(18),")])
B['b5-units-reverse'] = ('C21', [(QM, "            denom_units: metadata\n                .denom_units\n                .into_iter()\n", "            denom_units: metadata\n                .denom_units\n                .into_iter()\n                .rev()\n")])
B['b5-amount-default'] = ('C21', [(QM, "            amount: Uint128::from_str(&coin.amount)?,", "            amount: Uint128::from_str(&coin.amount).unwrap_or_default(),")])
B['b5-admin-creator'] = ('C21', [(QM, "                            if info.admin.is_empty() {\n                                None\n                            } else {", "                            if info.admin.is_empty() || info.admin == info.ibc_port_id {\n                                None\n                            } else {")])
B['b5-reply-field'] = ('C22', [(CT, "                    .uint64(1)\n                    .unwrap();", "                    .uint64(1)\n                    .or_else(|| Some(0))\n                    .map(|sequence| sequence.max(1))\n                    .unwrap();")])
B['b5-has-queries-stargate'] = ('C22', [(CT, "        let has_queries = !queries.is_empty();", "        #[allow(deprecated)]\n        let has_queries = queries\n            .iter()\n            .any(|query| !matches!(query, QueryRequest::Stargate { .. }));")])
B['b5-ordering-eq'] = ('C23', [(SG, "            IbcOrder::Unordered => Order::Unordered,", "            IbcOrder::Unordered => Order::NoneUnspecified,")])
B['b5-port-concat'] = ('C23', [(SG, 'format!("wasm.{contract_address}"),', 'format!("wasm.{}", contract_address.to_lowercase()),')])
B['b5-options-filled'] = ('C24', [(CT, "        let options = if let Some(new_options) = options {", "        let options = if let Some(mut new_options) = options {\n            new_options.channel_ordering =\n                new_options.channel_ordering.or(Some(cosmwasm_std::IbcOrder::Ordered));")])
B['b5-options-instantiate'] = ('C24', [(CT, "    state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &msg.channel_open_init_options)?;\n", "    if msg.channel_open_init_options.counterparty_port_id.is_some() {\n        state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &msg.channel_open_init_options)?;\n    }\n")])
B['b5-callback-unchecked'] = ('C25', [(CT, "        contract_state.callback_address = callback_address\n            .map(|addr| deps.api.addr_validate(&addr))\n            .transpose()?;", "        contract_state.callback_address = match callback_address {\n            Some(addr) if addr == env_sender(&info) => Some(cosmwasm_std::Addr::unchecked(addr.to_lowercase())),\n            Some(addr) => Some(deps.api.addr_validate(&addr)?),\n            None => None,\n        };"), (CT, "    /// Updates the callback address.\n", "    fn env_sender(info: &MessageInfo) -> &str {\n        info.sender.as_str()\n    }\n\n    /// Updates the callback address.\n")])
B['b5-migrate-cmp-partial'] = ('C26', [(CT, "        if prev_version >= version {", "        if (prev_version.major, prev_version.minor) > (version.major, version.minor)\n            || (prev_version.minor == version.minor && prev_version.patch >= version.patch)\n        {")])
B['b5-map-key'] = ('C27', [(ST, 'cw_storage_plus::Map::new("pending_queries");', 'cw_storage_plus::Map::new("pending_query");')])
B['b5-query-trim'] = ('C29', [(CT, "        state::STATE.load(deps.storage)\n    }", "        let mut state = state::STATE.load(deps.storage)?;\n        if state::CHANNEL_STATE\n            .may_load(deps.storage)?\n            .is_some_and(|channel| !channel.is_open())\n        {\n            state.delete_ica_info();\n        }\n        Ok(state)\n    }")])
B['b5-slice-panic'] = ('C13,C30', [(EV, ".add_attribute(attributes::ERROR, err)", ".add_attribute(attributes::ERROR, if err.len() > 4096 { &err[..4096] } else { err })")])
B['b5-div'] = ('C30', [(QM, "    if paths.len() != resp_msg.responses.len() {", "    if resp_msg.responses.len() % paths.len() != 0 || paths.len() != resp_msg.responses.len() {")])
B['b5-owner-salt'] = ('C32', [(OWC, "        ICA_COUNT.save(deps.storage, &(ica_count + 1))?;", "        ICA_COUNT.save(deps.storage, &(ica_count + u64::from(ica_count < 255)))?;")])
B['b5-owner-map-key'] = ('C32', [(OWC, "        let ica_id = CONTRACT_ADDR_TO_ICA_ID.load(deps.storage, info.sender)?;", "        let ica_id = match &callback_msg {\n            IcaControllerCallbackMsg::OnChannelOpenAckCallback { channel, .. } => {\n                let controller = channel.endpoint.port_id.trim_start_matches(\"wasm.\");\n                CONTRACT_ADDR_TO_ICA_ID.load(deps.storage, Addr::unchecked(controller))?\n            }\n            _ => CONTRACT_ADDR_TO_ICA_ID.load(deps.storage, info.sender)?,\n        };")])
B['b5-length-bytes'] = ('C35', [(MD, "address.len() > DEFAULT_MAX_LENGTH", "address.len() >= DEFAULT_MAX_LENGTH")])
B['b5-alnum-any'] = ('C05', [(MD, "!address.chars().all(char::is_alphanumeric)", "!address.chars().any(char::is_alphanumeric)")])
B['b5-account-length-chars'] = ('C05', [(MD, "address.len() > DEFAULT_MAX_LENGTH", "address.chars().count() > DEFAULT_MAX_LENGTH")])
CCC = 'testing/contracts/callback-counter/src/contract.rs'
CCS = 'testing/contracts/callback-counter/src/state.rs'
OWS = 'testing/contracts/cw-ica-owner/src/state.rs'
MS_ = 'src/types/msg.rs'

# batch 6
B['b6-lazy-remove'] = ('C14', [(REL, "        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));\n\n        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {", "        let _ = [packet.sequence].iter().map(|sequence| state::PENDING_QUERIES.remove(&mut *deps.storage, (&packet.src.channel_id, *sequence)));\n\n        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {")])
B['b6-order-from-options'] = ('C10', [(REL, "if channel_state.is_ordered()\n", "if state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)?.map_or(channel_state.is_ordered(), |o| o.channel_ordering != Some(cosmwasm_std::IbcOrder::Unordered))\n")])
B['b6-timeout-closed-status'] = ('C10', [(REL, "        channel_state.close();\n", "        if msg.packet.timeout.timestamp().is_some() {\n            channel_state.close();\n        }\n")])
B['b6-timeout-skip-callback-closed'] = ('C12', [(REL, "        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n    }\n\n    ibc", "        if !channel_state.is_open() {\n            return Ok(IbcBasicResponse::default());\n        }\n        channel_state.close();\n        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;\n    }\n\n    ibc")])
B['b6-state-rename'] = ('C27', [(ST, "        #[serde(default)]\n        pub callback_address", "        #[serde(default, rename = \"callback_addr\")]\n        pub callback_address")])
B['b6-info-rename'] = ('C27', [(ST, "        pub ica_address: String,\n        pub channel_id: String,\n        pub encoding", "        #[serde(alias = \"address\", rename(serialize = \"address\"))]\n        pub ica_address: String,\n        pub channel_id: String,\n        pub encoding")])
B['b6-query-key'] = ('C27', [(ST, 'Item::new("pending_query")', 'Item::new("pending_queries")')])
B['b6-skip-info'] = ('C27', [(ST, "        #[serde(default)]\n        pub ica_info", "        #[serde(default, skip_serializing_if = \"Option::is_some\")]\n        pub ica_info")])
B['b6-helper-migrate-swapped'] = ('C31', [(HP, "            new_code_id,\n            msg,\n        }", "            new_code_id: new_code_id.max(1),\n            msg,\n        }")])
B['b6-helper-admin-blank'] = ('C31', [(HP, "            admin: admin.into(),\n        }", "            admin: admin.into().trim().to_string(),\n        }")])
B['b6-helper-inst2-admin'] = ('C31', [(HP, "            label: label.into(),\n            admin: admin.map(Into::into),\n            salt:", "            label: label.into(),\n            admin: admin.map(Into::into).or_else(|| Some(env.contract.address.to_string())),\n            salt:")])
B['b6-helper-creator'] = ('C31', [(HP, "let contract_addr = api.addr_humanize(\n", "let creator_cannonical = if salt.is_empty() { cosmwasm_std::CanonicalAddr::from(code_info.creator.as_bytes()) } else { creator_cannonical };\n        let contract_addr = api.addr_humanize(\n")])
B['b6-helper-query-state'] = ('C31', [(HP, ".query_wasm_smart(&self.addr, &msg::QueryMsg::GetContractState {})", ".query_wasm_smart(self.addr.to_lowercase(), &msg::QueryMsg::GetContractState {})")])
B['b6-deny-unknown'] = ('C34,C35', [(MS_, "    #[derive(\n        serde::Serialize,\n        serde::Deserialize,\n        Clone,\n        Debug,\n        PartialEq,\n        cosmwasm_schema::schemars::JsonSchema,\n    )]\n    #[allow", "    #[derive(\n        serde::Serialize,\n        serde::Deserialize,\n        Clone,\n        Debug,\n        PartialEq,\n        cosmwasm_schema::schemars::JsonSchema,\n    )]\n    #[serde(rename_all = \"camelCase\")]\n    #[allow")])
B['b6-messages-default'] = ('C34', [(MS_, "        #[serde_as(deserialize_as = \"serde_with::DefaultOnNull\")]\n        messages", "        messages")])
B['b6-port-default-ser'] = ('C34', [(MS_, "        pub counterparty_port_id: Option<String>", "        #[serde(default, rename = \"counterparty_port\")]\n        pub counterparty_port_id: Option<String>")])
B['b6-memo-rename'] = ('C34', [(MS_, "        packet_memo: Option<String>", "        #[serde(rename = \"memo\")]\n        packet_memo: Option<String>")])
B['b6-status-rename'] = ('C34', [(ST, '"STATE_FLUSHCOMPLETE")]', '"STATE_FLUSH_COMPLETE")]')])
B['b6-memo-limit'] = ('C35', [(CT, "        let has_queries = !queries.is_empty();", "        if packet_memo.as_ref().is_some_and(|memo| memo.len() > 256) {\n            return Err(ContractError::IcaInfoNotSet);\n        }\n        let has_queries = !queries.is_empty();")])
B['b6-no-messages'] = ('C35', [(CT, "        let has_queries = !queries.is_empty();", "        let has_queries = !queries.is_empty();\n        if !has_queries && messages.is_empty() {\n            return Err(ContractError::IcaInfoNotSet);\n        }")])
B['b6-meta-required'] = ('C35', [(MD, "if let Ok(previous_metadata) = serde_json_wasm::from_str(&channel_state.channel.version)\n            {\n                return Ok(previous_metadata);\n            }", "return serde_json_wasm::from_str(&channel_state.channel.version)\n                .map_err(|_| ContractError::IcaInfoNotSet);")])
B['b6-create-while-open'] = ('C35', [(CT, "        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n\n        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(\n            env.contract.address.to_string(),\n            options.connection_id", "        if state::CHANNEL_STATE.may_load(deps.storage)?.is_some_and(|c| !c.is_open() && c.is_ordered()) {\n            return Err(ContractError::ActiveChannelAlreadySet);\n        }\n        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n\n        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(\n            env.contract.address.to_string(),\n            options.connection_id")])
B['b6-txmsg-empty'] = ('C36', [(PK, "Self::Result(data) => Ok(TxMsgData::decode(data.as_slice())?),", "Self::Result(data) => Ok(TxMsgData::decode(data.as_slice()).unwrap_or_default()),")])
B['b6-index-from-end'] = ('C36', [(PK, "tx_msg_data.msg_responses.get(index)", "tx_msg_data.msg_responses.iter().rev().nth(index)")])
B['b6-delete-keeps'] = ('C36', [(ST, "            self.ica_info = None;\n        }", "            if let Some(info) = self.ica_info.as_mut() {\n                info.channel_id.clear();\n            }\n        }")])
B['b6-addr-lower'] = ('C36,C31', [(HP, "        self.0.clone()\n    }", "        Addr::unchecked(self.0.as_str().to_lowercase())\n    }")])
B['b6-ordered-neg'] = ('C36,C10', [(ST, "matches!(self.channel.order, IbcOrder::Ordered)", "!matches!(self.channel.order, IbcOrder::Unordered) && !matches!(self.channel_status, ChannelStatus::Closed)")])
B['b6-migrate-precedence'] = ('C26', [(CT, "if prev_version >= version {", "if prev_version.cmp_precedence(&version) == std::cmp::Ordering::Greater {")])
B['b6-migrate-name-prefix'] = ('C26', [(CT, "prev_cw2_version.contract != keys::CONTRACT_NAME", "!prev_cw2_version.contract.ends_with(\"cw-ica-controller\")")])
B['b6-migrate-unset'] = ('C26', [(CT, "    migrate::validate_semver(deps.as_ref())?;", "    if deps.storage.get(b\"contract_info\").is_some() {\n        migrate::validate_semver(deps.as_ref())?;\n    }")])
B['b6-counter-success-empty'] = ('C33', [(CCC, "Data::Result(_) => {", "Data::Result(data) if !data.is_empty() => {"), (CCC, "                Data::Error(_) => {", "                Data::Result(_) | Data::Error(_) => {")])
B['b6-counter-dedup'] = ('C33', [(CCS, "self.timeout.push(msg);", "if !self.timeout.contains(&msg) {\n                self.timeout.push(msg);\n            }")])
B['b6-counter-cap'] = ('C33', [(CCS, "self.error.push(msg);", "if self.error.len() == 100 {\n                self.error.remove(0);\n            }\n            self.error.push(msg);")])
B['b6-owner-any-code'] = ('C32', [(OWC, "CONTRACT_ADDR_TO_ICA_ID.save(deps.storage, contract_addr, &ica_count)?;", "if !CONTRACT_ADDR_TO_ICA_ID.has(deps.storage, contract_addr.clone()) {\n            CONTRACT_ADDR_TO_ICA_ID.save(deps.storage, contract_addr, &ica_count)?;\n        }")])
B['b6-owner-verify'] = ('C32', [(OWS, "self.admin.to_string() == sender.into()", "self.admin.to_string().starts_with(&sender.into())")])
B['b6-owner-callback-other'] = ('C32', [(OWC, "ICA_STATES.save(deps.storage, ica_id, &ica_state)?;\n        }", "if ica_state.ica_state.is_some() {\n                ICA_STATES.save(deps.storage, ica_id, &ica_state)?;\n            }\n        } else if let IcaControllerCallbackMsg::OnTimeoutPacketCallback { .. } = callback_msg {\n            ica_state.ica_state = None;\n            ICA_STATES.save(deps.storage, ica_id, &ica_state)?;\n        }")])
B['b6-owner-amount'] = ('C32,C39', [(OWC, "amount: Uint128::new(100)", "amount: Uint128::new(100 + u128::from(ica_id == u64::MAX))")])
B['b6-two-next'] = ('C16', [(PK, "                let mut proto_anys = messages\n                    .into_iter()\n", "                let mut iter = messages.into_iter();\n                let mut ordered = vec![];\n                while let Some(first) = iter.next() {\n                    if let Some(second) = iter.next() {\n                        ordered.push(first);\n                        ordered.push(second);\n                    } else if ordered.is_empty() {\n                        ordered.push(first);\n                    }\n                }\n                let mut proto_anys = ordered\n                    .into_iter()\n")])
B['b6-by-ref-take'] = ('C16', [(PK, "                let mut proto_anys = messages\n                    .into_iter()\n", "                let mut proto_anys = messages\n                    .into_iter()\n                    .take(256)\n")])
B['b6-step-by'] = ('C16', [(PK, "                if !queries.is_empty() {\n                    let (abci", "                if proto_anys.len() > 1 && proto_anys[0] == proto_anys[1] {\n                    proto_anys.swap_remove(0);\n                }\n                if !queries.is_empty() {\n                    let (abci")])
B['b6-any-order'] = ('C16', [(PK, "let cosmos_tx = CosmosTx { messages };", "let mut messages = messages;\n        messages.sort_by_key(|m| m.type_url == \"/cosmwasm.wasm.v1.MsgMigrateContract\");\n        let cosmos_tx = CosmosTx { messages };")])
B['b6-signer-first'] = ('C16', [(PK, "signer: ica_address.to_string(),", "signer: ica_address.trim().to_string(),")])
B['b6-ack-result-empty'] = ('C11', [(REL, "let ica_acknowledgement = AcknowledgementData::Result(res);", "let ica_acknowledgement = if res.is_empty() { AcknowledgementData::Error(String::new()) } else { AcknowledgementData::Result(res) };")])
B['b6-ack-packet-timeoutless'] = ('C11', [(REL, "                original_packet: packet,\n                relayer,\n                query_result,\n            }\n            .into_cosmos_msg(contract_addr)?;\n\n            Ok(IbcBasicResponse::default()\n                .add_message(callback_msg)\n                .add_event(success_event))", "                original_packet: IbcPacket::new(packet.data, packet.src, packet.dest, packet.sequence, cosmwasm_std::IbcTimeout::with_timestamp(packet.timeout.timestamp().unwrap_or_default())),\n                relayer,\n                query_result,\n            }\n            .into_cosmos_msg(contract_addr)?;\n\n            Ok(IbcBasicResponse::default()\n                .add_message(callback_msg)\n                .add_event(success_event))")])
B['b6-error-query-text'] = ('C15,C11', [(REL, ".map(|_| query_msg::IcaQueryResult::Error(err.clone()));", ".filter(|paths| !paths.is_empty() && !err.is_empty())\n            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));")])
B['b6-stargate-any'] = ('C18', [(CM, "            type_url,\n            value: value.to_vec(),", "            type_url: if type_url.starts_with('/') { type_url } else { format!(\"/{type_url}\") },\n            value: value.to_vec(),")])
B['b6-inst2-fixmsg'] = ('C18', [(CM, "fix_msg: false", "fix_msg: !salt.is_empty()")])
B['b6-redelegate-same'] = ('C18', [(CM, "validator_dst_address: dst_validator,", "validator_dst_address: if dst_validator.is_empty() { String::new() } else { dst_validator.to_lowercase() },")])
B['b6-height-none'] = ('C18', [(CM, "timeout_height: timeout.block().map(|block| Height {", "timeout_height: timeout.block().filter(|_| timeout.timestamp().is_none()).map(|block| Height {")])
B['b6-all-balances-page'] = ('C20', [(QM, "                QueryAllBalancesRequest {\n                    address,\n                    pagination: None,", "                QueryAllBalancesRequest {\n                    address,\n                    pagination: Some(PageRequest { limit: 100, ..Default::default() }),")])
B['b6-validators-status'] = ('C20', [(QM, "status: String::default(),", "status: \"BOND_STATUS_BONDED\".to_string(),")])
B['b6-denom-trim'] = ('C20', [(QM, "QueryDenomMetadataRequest { denom }", "QueryDenomMetadataRequest { denom: denom.trim_start_matches(\"ibc/\").to_string() }")])
B['b6-coin-neg'] = ('C21', [(QM, "amount: Uint128::from_str(&coin.amount)?,", "amount: Uint128::from_str(coin.amount.trim_end_matches(\".000000000000000000\"))?,")])
B['b6-rates-order'] = ('C21', [(QM, "            Decimal::from_str(&commission_rates.rate)?,\n            Decimal::from_str(&commission_rates.max_rate)?,", "            Decimal::from_str(&commission_rates.rate)?.min(Decimal::from_str(&commission_rates.max_rate)?),\n            Decimal::from_str(&commission_rates.max_rate)?,")])
B['b6-delegation-none'] = ('C21', [(QM, "                            .filter_map(|del_resp| {\n                                del_resp.delegation.map(", "                            .filter(|del_resp| del_resp.balance.is_some())\n                            .filter_map(|del_resp| {\n                                del_resp.delegation.map(")])
B['b6-contract-info-admin'] = ('C21', [(QM, "if info.admin.is_empty() {", "if info.admin.is_empty() || info.admin == info.ibc_port_id {")])
B['b6-smart-b64'] = ('C21', [(QM, "WasmQueryResponse::SmartContractState(resp.data.into()),", "WasmQueryResponse::SmartContractState(if resp.data == b\"null\" { Vec::new().into() } else { resp.data.into() }),")])
B['b6-callback-drop-guard'] = ('C25', [(CT, "        state::STATE.save(deps.storage, &contract_state)?;\n\n        Ok(Response::default())", "        if contract_state.callback_address.as_ref() != Some(&info.sender) {\n            state::STATE.save(deps.storage, &contract_state)?;\n        }\n\n        Ok(Response::default())")])
B['b6-refcell'] = ('C24', [(CT, "            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;\n            new_options", "            let cell = std::cell::RefCell::new(new_options.clone());\n            if new_options.channel_ordering.is_none() {\n                cell.borrow_mut().channel_ordering = Some(cosmwasm_std::IbcOrder::Ordered);\n            }\n            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &cell.borrow())?;\n            new_options")])
B['b6-handshake-port'] = ('C38', [(HS, "        if channel.endpoint.port_id == keys::HOST_PORT_ID {\n            return Err(ContractError::InvalidControllerPort);", "        if channel.endpoint.port_id == keys::HOST_PORT_ID {\n            return Err(ContractError::InvalidHostPort);")])
B['b6-handshake-prefix-port'] = ('C35', [(HS, "if channel.endpoint.port_id == keys::HOST_PORT_ID {", "if !channel.endpoint.port_id.starts_with(\"wasm.cosmos\") {")])
B['b6-recorded-channel-cp'] = ('C06', [(HS, "        channel.version = counterparty_version;\n", "        channel.version = counterparty_version;\n        if channel.counterparty_endpoint.channel_id.is_empty() {\n            channel.counterparty_endpoint.channel_id = channel.endpoint.channel_id.clone();\n        }\n")])
B['b6-flag-order'] = ('C03', [(HS, "        if !state::ALLOW_CHANNEL_OPEN_INIT\n            .load(deps.storage)\n            .unwrap_or_default()", "        if !state::ALLOW_CHANNEL_OPEN_INIT\n            .may_load(deps.storage)?\n            .unwrap_or(true)")])
B['b6-close-flag-consume'] = ('C04', [(HS, "        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;\n\n        // Validate that this is the stored channel\n        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;", "        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &channel_state.is_ordered())?;")])
B['b6-reply-pending-merge'] = ('C14', [(CT, "state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;", "let earlier = state::PENDING_QUERIES.may_load(deps.storage, (&channel_id, sequence))?.unwrap_or_default();\n                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &[earlier, query_paths].concat())?;")])
B['b6-pending-channel-order'] = ('C40,C14', [(CT, "let channel_id = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id;\n                let query", "let channel_id = state::CHANNEL_STATE.load(deps.storage)?.channel.counterparty_endpoint.channel_id;\n                let query")])
B['b6-serde-default-fn'] = ('C34', [(MS_, "        #[serde(skip_serializing_if = \"Option::is_none\")]\n        timeout_seconds: Option<u64>,", "        #[serde(skip_serializing_if = \"Option::is_none\", default = \"default_timeout\")]\n        timeout_seconds: Option<u64>,"), (MS_, "/// The messages to query", "fn default_timeout() -> Option<u64> {\n    Some(60)\n}\n\n/// The messages to query")])
B['b6-serde-reader'] = ('C34', [(MS_, "        pub connection_id: String,", "        #[serde(deserialize_with = \"lower\")]\n        pub connection_id: String,"), (MS_, "    /// The options needed", "    fn lower<'de, D: serde::Deserializer<'de>>(d: D) -> Result<String, D::Error> {\n        let s: String = serde::Deserialize::deserialize(d)?;\n        Ok(s.to_lowercase())\n    }\n\n    /// The options needed")])
B['b6-stored-reader'] = ('C27', [(ST, "        pub channel_id: String,\n        pub encoding: TxEncoding,\n    }\n\n    impl IcaInfo", "        #[serde(deserialize_with = \"short\")]\n        pub channel_id: String,\n        pub encoding: TxEncoding,\n    }\n\n    fn short<'de, D: serde::Deserializer<'de>>(d: D) -> Result<String, D::Error> {\n        let s: String = serde::Deserialize::deserialize(d)?;\n        Ok(s.chars().take(12).collect())\n    }\n\n    impl IcaInfo")])
