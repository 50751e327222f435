"""behaviour-preserving edits, fifth batch: conversions, responses, helpers, example contracts"""
from refdefs2 import *  # noqa: the file names
OW = 'testing/contracts/cw-ica-owner/src/contract.rs'
R = {}
# ---------------------------------------------------------------- cosmos_msg.rs
R['r5-cm-vote-direct'] = [
    (CM, ("        const fn convert_to_proto_vote_option(option: &VoteOption)", "        match msg {\n            GovMsg::Vote"),
     """        fn convert_to_proto_vote_option(option: &VoteOption) -> i32 {
            let option = match option {
                VoteOption::NoWithVeto => ProtoVoteOption::NoWithVeto,
                VoteOption::Abstain => ProtoVoteOption::Abstain,
                VoteOption::No => ProtoVoteOption::No,
                VoteOption::Yes => ProtoVoteOption::Yes,
            };
            i32::from(option)
        }

"""),
    (CM, "option: convert_to_proto_vote_option(&option) as i32,", "option: convert_to_proto_vote_option(&option),"),
    (CM, "option: convert_to_proto_vote_option(&weighted_option.option) as i32,", "option: convert_to_proto_vote_option(&weighted_option.option),"),
]
R['r5-cm-vote-if'] = [
    (CM, ("            match option {\n                VoteOption::Yes => ProtoVoteOption::Yes,", "        match msg {\n            GovMsg::Vote"),
     """            if matches!(option, VoteOption::Yes) {
                ProtoVoteOption::Yes
            } else if matches!(option, VoteOption::Abstain) {
                ProtoVoteOption::Abstain
            } else if matches!(option, VoteOption::NoWithVeto) {
                ProtoVoteOption::NoWithVeto
            } else {
                ProtoVoteOption::No
            }
        }

"""),
]
R['r5-cm-vote-const'] = [
    (CM, ("            match option {\n                VoteOption::Yes => ProtoVoteOption::Yes,", "        match msg {\n            GovMsg::Vote"),
     """            const YES: ProtoVoteOption = ProtoVoteOption::Yes;
            const NO: ProtoVoteOption = ProtoVoteOption::No;
            match option {
                VoteOption::Yes => YES,
                VoteOption::No => NO,
                VoteOption::Abstain => ProtoVoteOption::Abstain,
                VoteOption::NoWithVeto => ProtoVoteOption::NoWithVeto,
            }
        }

"""),
]
R['r5-cm-options-loop'] = [
    (CM, ("                let options: Vec<ProtoWeightedVoteOption> = options\n", "                Any::from_msg(&MsgVoteWeighted {"),
     """                let mut converted = Vec::with_capacity(options.len());
                for cosmwasm_std::WeightedVoteOption { option, weight } in options {
                    let mut proto = ProtoWeightedVoteOption::default();
                    proto.set_option(cosmos_sdk_proto::cosmos::gov::v1::VoteOption::try_from(
                        convert_to_proto_vote_option(&option) as i32,
                    ).expect("same numbering"));
                    proto.weight = format!("{weight}");
                    converted.push(proto);
                }
                let options = converted;

"""),
]
R['r5-cm-options-loop2'] = [
    (CM, ("                let options: Vec<ProtoWeightedVoteOption> = options\n", "                Any::from_msg(&MsgVoteWeighted {"),
     """                let mut converted = Vec::with_capacity(options.len());
                for cosmwasm_std::WeightedVoteOption { option, weight } in options {
                    let mut proto = ProtoWeightedVoteOption::default();
                    proto.option = convert_to_proto_vote_option(&option).into();
                    proto.weight = format!("{weight}");
                    converted.push(proto);
                }
                let options = converted;

"""),
]
R['r5-cm-bank-ref'] = [
    (CM, """                amount: amount
                    .into_iter()
                    .map(|coin| ProtoCoin {
                        denom: coin.denom,
                        amount: coin.amount.to_string(),
                    })
                    .collect(),
            }),
            _ => panic!("Unsupported BankMsg"),""", """                amount: amount
                    .iter()
                    .map(|cosmwasm_std::Coin { denom, amount }| ProtoCoin {
                        denom: denom.to_owned(),
                        amount: amount.u128().to_string(),
                    })
                    .collect::<Vec<_>>(),
            }),
            _ => panic!("Unsupported BankMsg"),"""),
]
R['r5-cm-bank-fold'] = [
    (CM, """                amount: amount
                    .into_iter()
                    .map(|coin| ProtoCoin {
                        denom: coin.denom,
                        amount: coin.amount.to_string(),
                    })
                    .collect(),
            }),
            _ => panic!("Unsupported BankMsg"),""", """                amount: {
                    let mut coins = vec![];
                    coins.extend(amount.into_iter().map(|coin| ProtoCoin {
                        amount: coin.amount.to_string(),
                        denom: coin.denom,
                    }));
                    coins
                },
            }),
            _ => panic!("Unsupported BankMsg"),"""),
]
R['r5-cm-timeout-destructure'] = [
    (CM, """                timeout_height: timeout.block().map(|block| Height {
                    revision_number: block.revision,
                    revision_height: block.height,
                }),
                timeout_timestamp: timeout.timestamp().map_or(0, |timestamp| timestamp.nanos()),
                memo: memo.unwrap_or_default(),""", """                timeout_height: match timeout.block() {
                    Some(cosmwasm_std::IbcTimeoutBlock { revision, height }) => Some(Height {
                        revision_number: revision,
                        revision_height: height,
                    }),
                    None => None,
                },
                timeout_timestamp: timeout
                    .timestamp()
                    .as_ref()
                    .map(cosmwasm_std::Timestamp::nanos)
                    .unwrap_or_default(),
                memo: memo.unwrap_or_else(String::new),"""),
]
R['r5-cm-dispatch-fnptr'] = [
    (CM, "        CosmosMsg::Bank(bank_msg) => convert_to_any::bank(bank_msg, from_address),\n        CosmosMsg::Ibc(ibc_msg) => convert_to_any::ibc(ibc_msg, from_address),",
     "        CosmosMsg::Bank(bank_msg) => {\n            let convert: fn(_, _) -> _ = convert_to_any::bank;\n            convert(bank_msg, from_address)\n        }\n        CosmosMsg::Ibc(ibc_msg) => std::convert::identity(convert_to_any::ibc(ibc_msg, from_address)),"),
]
R['r5-cm-binary-into'] = [
    (CM, "            value: value.to_vec(),", "            value: value.into(),"),
    (CM, "                code_id: new_code_id,\n                msg: msg.to_vec(),", "                code_id: new_code_id,\n                msg: Vec::from(msg),"),
    (CM, "                salt: salt.to_vec(),", "                salt: salt.as_slice().to_owned(),"),
]
R['r5-cm-binary-slice'] = [
    (CM, "            value: value.to_vec(),", "            value: value.as_slice().into(),"),
    (CM, "                code_id: new_code_id,\n                msg: msg.to_vec(),", "                code_id: new_code_id,\n                msg: msg.iter().copied().collect(),"),
]
R['r5-cm-staking-macro'] = [
    (CM, "    #[cfg(feature = \"staking\")]\n    pub fn staking(msg: StakingMsg, delegator_address: String) -> Result<Any, EncodeError> {\n        match msg {\n            StakingMsg::Delegate { validator, amount } => {\n                Any::from_msg(&cosmos_sdk_proto::cosmos::staking::v1beta1::MsgDelegate {\n                    delegator_address,\n                    validator_address: validator,\n                    amount: Some(ProtoCoin {\n                        denom: amount.denom,\n                        amount: amount.amount.to_string(),\n                    }),\n                })\n            }",
     """    #[cfg(feature = "staking")]
    pub fn staking(msg: StakingMsg, delegator_address: String) -> Result<Any, EncodeError> {
        macro_rules! coin {
            ($c:expr) => {
                Some(ProtoCoin {
                    amount: $c.amount.to_string(),
                    denom: $c.denom,
                })
            };
        }
        match msg {
            StakingMsg::Delegate { validator, amount } => {
                use cosmos_sdk_proto::cosmos::staking::v1beta1::MsgDelegate;
                let mut m = MsgDelegate::default();
                m.amount = coin!(amount);
                m.validator_address = validator;
                m.delegator_address = delegator_address;
                Any::from_msg(&m)
            }"""),
]
R['r5-cm-admin-match'] = [
    (CM, """                admin: admin.unwrap_or_default(),
                sender,
                code_id,
                msg: msg.to_vec(),""", """                admin: match admin {
                    Some(admin) => admin,
                    None => String::new(),
                },
                sender,
                code_id,
                msg: msg.to_vec(),"""),
]
# ---------------------------------------------------------------- query_msg.rs requests
R['r5-qm-paging-match'] = [
    (QM, ("                let pagination = pagination.map(|pagination| PageRequest {", "                (\n                    constants::ALL_DENOM_METADATA"),
     """                let pagination = match pagination {
                    None => None,
                    Some(cosmwasm_std::PageRequest {
                        key,
                        limit,
                        reverse,
                    }) => Some(PageRequest {
                        key: key.map_or_else(Vec::new, |k| k.to_vec()),
                        limit: limit.into(),
                        reverse,
                        ..PageRequest::default()
                    }),
                };

"""),
]
R['r5-qm-paging-as'] = [
    (QM, "                    limit: u64::from(pagination.limit),", "                    limit: pagination.limit as u64,"),
]
R['r5-qm-bank-tuple'] = [
    (QM, ("        match bank_query {\n            BankQuery::Balance { address, denom } => (", "            BankQuery::DenomMetadata { denom } => ("),
     """        match bank_query {
            BankQuery::Balance { address, denom } => {
                let request = QueryBalanceRequest { address, denom };
                let mut data = Vec::new();
                request.encode(&mut data).unwrap();
                (String::from(constants::BALANCE), data, false)
            }
            BankQuery::AllBalances { address } => {
                let request = QueryAllBalancesRequest {
                    address,
                    ..Default::default()
                };
                (constants::ALL_BALANCES.into(), request.encode_to_vec(), false)
            }
"""),
]
R['r5-qm-wasm-bytes'] = [
    (QM, "                    query_data: key.into(),", "                    query_data: key.to_vec(),"),
    (QM, "                    query_data: msg.into(),", "                    query_data: msg.as_slice().to_vec(),"),
]
# ---------------------------------------------------------------- query_msg.rs responses
R['r5-qm-coin-and-then'] = [
    (QM, "        Ok(Coin {\n            denom: coin.denom,\n            amount: Uint128::from_str(&coin.amount)?,\n        })",
     "        let ProtoCoin { denom, amount } = coin;\n        amount\n            .parse::<Uint128>()\n            .map(|amount| Coin { denom, amount })"),
]
R['r5-qm-coin-new'] = [
    (QM, "        Ok(Coin {\n            denom: coin.denom,\n            amount: Uint128::from_str(&coin.amount)?,\n        })",
     "        let amount = Uint128::try_from(coin.amount.as_str())?;\n        Ok(Coin {\n            amount,\n            denom: coin.denom,\n        })"),
]
R['r5-qm-balance-transpose'] = [
    (QM, """                    BalanceResponse::new(
                        resp.balance
                            .map_or_else(|| Ok(Coin::default()), convert_to_coin)?,
                    ),""", """                    BalanceResponse::new(
                        resp.balance
                            .map(convert_to_coin)
                            .transpose()?
                            .unwrap_or_default(),
                    ),"""),
]
R['r5-qm-all-balances-loop'] = [
    (QM, """                        resp.balances
                            .into_iter()
                            .map(convert_to_coin)
                            .collect::<StdResult<_>>()?,
""", """                        {
                            let mut coins = Vec::with_capacity(resp.balances.len());
                            for balance in resp.balances {
                                coins.push(convert_to_coin(balance)?);
                            }
                            coins
                        },
"""),
]
R['r5-qm-all-balances-try-fold'] = [
    (QM, """                        resp.balances
                            .into_iter()
                            .map(convert_to_coin)
                            .collect::<StdResult<_>>()?,
""", """                        resp.balances.into_iter().try_fold(
                            Vec::new(),
                            |mut coins, coin| -> StdResult<_> {
                                coins.push(convert_to_coin(coin)?);
                                Ok(coins)
                            },
                        )?,
"""),
]
R['r5-qm-units-loop'] = [
    (QM, ("        DenomMetadata {\n            name: metadata.name,", "    #[cfg(feature = \"staking\")]\n    fn convert_to_validator"),
     """        let mut denom_units = vec![];
        for unit in metadata.denom_units {
            let cosmos_sdk_proto::cosmos::bank::v1beta1::DenomUnit {
                denom,
                exponent,
                aliases,
            } = unit;
            denom_units.push(DenomUnit {
                denom,
                exponent,
                aliases,
            });
        }
        let mut converted = DenomMetadata::default();
        converted.name = metadata.name;
        converted.symbol = metadata.symbol;
        converted.description = metadata.description;
        converted.base = metadata.base;
        converted.display = metadata.display;
        converted.uri = metadata.uri;
        converted.uri_hash = metadata.uri_hash;
        converted.denom_units = denom_units;
        converted
    }

"""),
]
R['r5-qm-raw-then'] = [
    (QM, """                    if resp.data.is_empty() {
                        None
                    } else {
                        Some(resp.data.into())
                    },
""", """                    (!resp.data.is_empty()).then(|| Binary::from(resp.data)),
"""),
]
R['r5-qm-raw-filter'] = [
    (QM, """                    if resp.data.is_empty() {
                        None
                    } else {
                        Some(resp.data.into())
                    },
""", """                    Some(resp.data).filter(|data| !data.is_empty()).map(Binary::new),
"""),
]
R['r5-qm-info-helper'] = [
    (QM, ("                            if info.admin.is_empty() {\n                                None", "                            false,\n"),
     """                            non_empty(info.admin).map(cosmwasm_std::Addr::unchecked),
"""),
    (QM, """                            if info.ibc_port_id.is_empty() {
                                None
                            } else {
                                Some(info.ibc_port_id)
                            },
""", """                            non_empty(info.ibc_port_id),
"""),
    (QM, "    fn wasm_response(path: &str, resp: &[u8])", """    /// Protobuf has no absent texts.
    fn non_empty(text: String) -> Option<String> {
        if text.is_empty() {
            return None;
        }
        Some(text)
    }

    fn wasm_response(path: &str, resp: &[u8])"""),
]
R['r5-qm-stargate-match'] = [
    (QM, ("        if is_stargate {\n            return Ok(IcaQueryResponse::Stargate", "        match path {\n            x if"),
     """        let raw = || IcaQueryResponse::Stargate {
            path: path.to_owned(),
            data: Binary::new(resp.to_vec()),
        };
        if is_stargate {
            return Ok(raw());
        }

"""),
]
R['r5-qm-delegation-zip'] = [
    (QM, ("                        delegation: resp\n                            .delegation_response\n", "                    },\n                )))\n            }\n            constants::ALL_DEL"),
     """                        delegation: match resp.delegation_response {
                            Some(cosmos_sdk_proto::cosmos::staking::v1beta1::DelegationResponse {
                                delegation: Some(del),
                                balance,
                            }) => Some(Delegation {
                                amount: convert_to_coin(balance.unwrap_or_default())?,
                                delegator: del.delegator_address,
                                validator: del.validator_address,
                            }),
                            _ => None,
                        },
"""),
]
R['r5-qm-validator-map'] = [
    (QM, "                    ValidatorResponse::new(resp.validator.map(convert_to_validator).transpose()?),",
     "                    ValidatorResponse::new(match resp.validator {\n                        Some(v) => Some(convert_to_validator(v)?),\n                        None => None,\n                    }),"),
]
# ---------------------------------------------------------------- helpers.rs
R['r5-hp-execute-call'] = [
    (HP, """        let msg = to_json_binary(&msg.into())?;
        Ok(WasmMsg::Execute {
            contract_addr: self.addr().into(),
            msg,
            funds: vec![],
        }
        .into())
    }

    /// `query`""", """        let msg: msg::ExecuteMsg = msg.into();
        cosmwasm_std::wasm_execute(self.0.as_str(), &msg, vec![]).map(CosmosMsg::from)
    }

    /// `query`"""),
]
R['r5-hp-addr-string'] = [
    (HP, """        WasmMsg::ClearAdmin {
            contract_addr: self.addr().into(),
        }
        .into()""", """        CosmosMsg::Wasm(WasmMsg::ClearAdmin {
            contract_addr: self.0.to_string(),
        })"""),
]
R['r5-hp-migrate-map'] = [
    (HP, """        let msg = to_json_binary(&msg.into())?;
        Ok(WasmMsg::Migrate {
            contract_addr: self.addr().into(),
            new_code_id,
            msg,
        }
        .into())""", """        to_json_binary::<msg::MigrateMsg>(&msg.into()).map(|msg| {
            let Self(addr) = self;
            CosmosMsg::Wasm(WasmMsg::Migrate {
                contract_addr: addr.clone().into_string(),
                new_code_id,
                msg,
            })
        })"""),
]
R['r5-hp-inst-admin'] = [
    (HP, """        let msg = to_json_binary(&msg.into())?;
        Ok(WasmMsg::Instantiate {
            code_id: self.code_id(),
            msg,
            funds: vec![],
            label: label.into(),
            admin: admin.map(Into::into),
        }
        .into())""", """        let admin: Option<String> = match admin {
            Some(admin) => Some(admin.into()),
            None => None,
        };
        let mut instantiate =
            cosmwasm_std::wasm_instantiate(self.0, &msg.into(), vec![], label.into())?;
        if let WasmMsg::Instantiate { admin: slot, .. } = &mut instantiate {
            *slot = admin;
        }
        Ok(instantiate.into())"""),
]
R['r5-hp-query-helper'] = [
    (HP, """        self.querier
            .query_wasm_smart(&self.addr, &msg::QueryMsg::GetChannel {})
    }
""", """        self.smart(&msg::QueryMsg::GetChannel {})
    }

    fn smart<T: serde::de::DeserializeOwned>(&self, msg: &msg::QueryMsg) -> StdResult<T> {
        self.querier.query_wasm_smart(self.addr.as_str(), msg)
    }
"""),
]
# ---------------------------------------------------------------- cw-ica-owner
R['r5-ow-admin-neg'] = [
    (OW, """        if state.admin != info.sender {
            return Err(ContractError::Unauthorized {});
        }
""", """        if info.sender.as_str() != state.admin.as_str() {
            return Err(ContractError::Unauthorized {});
        }
"""),
]
R['r5-ow-count-update'] = [
    (OW, "        ICA_COUNT.save(deps.storage, &(ica_count + 1))?;", "        let next = ica_count.checked_add(1).expect(\"too many\");\n        ICA_COUNT.save(deps.storage, &next)?;"),
]
R['r5-ow-count-first'] = [
    (OW, "        let ica_count = ICA_COUNT.load(deps.storage).unwrap_or(0);\n", "        let ica_count = ICA_COUNT.load(deps.storage).unwrap_or_default();\n        ICA_COUNT.save(deps.storage, &(ica_count + 1))?;\n"),
    (OW, "        CONTRACT_ADDR_TO_ICA_ID.save(deps.storage, contract_addr, &ica_count)?;\n\n        ICA_COUNT.save(deps.storage, &(ica_count + 1))?;\n", "        CONTRACT_ADDR_TO_ICA_ID.save(deps.storage, contract_addr, &ica_count)?;\n"),
]
R['r5-ow-callback-guard'] = [
    (OW, ("        let mut ica_state = ICA_STATES.load(deps.storage, ica_id)?;\n", "mod query {"),
     """        match callback_msg {
            IcaControllerCallbackMsg::OnChannelOpenAckCallback {
                channel,
                ica_address: ica_addr,
                tx_encoding,
            } => {
                ICA_STATES.update(deps.storage, ica_id, |old| -> Result<_, ContractError> {
                    let mut ica_state = old.ok_or_else(|| {
                        cosmwasm_std::StdError::not_found("ica state")
                    })?;
                    let channel_state = ChannelState {
                        channel_status: ChannelStatus::Open,
                        channel,
                    };
                    ica_state.ica_state = Some(state::IcaState {
                        ica_id,
                        channel_state,
                        ica_addr,
                        tx_encoding,
                    });
                    Ok(ica_state)
                })?;
            }
            IcaControllerCallbackMsg::OnAcknowledgementPacketCallback { .. }
            | IcaControllerCallbackMsg::OnTimeoutPacketCallback { .. } => {
                ICA_STATES.load(deps.storage, ica_id)?;
            }
        }

        Ok(Response::default())
    }
}

"""),
]
