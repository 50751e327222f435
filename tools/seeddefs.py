SEEDS = []


def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


C, H, R = 'src/contract.rs', 'src/ibc/handshake.rs', 'src/ibc/relay.rs'
ST, MD, PK = 'src/types/state.rs', 'src/ibc/types/metadata.rs', 'src/ibc/types/packet.rs'
CM, QM, SG = 'src/types/cosmos_msg.rs', 'src/types/query_msg.rs', 'src/ibc/types/stargate.rs'

seed('s01-recreate-by-anyone', 'C01', [(C, '''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let options = if let Some(new_options) = options {
''', '''        if options.is_some() {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

        let options = if let Some(new_options) = options {
''')], '''
#[test]
fn recreate_needs_owner() {
    let mut d = setup(false);
    assert!(execute(d.as_mut(), mock_env(), inf("stranger"), ExecuteMsg::CreateChannel { channel_open_init_options: Some(opts()) }).is_err());
    assert!(execute(d.as_mut(), mock_env(), inf("stranger"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).is_err());
}
''', 'a create-channel message without options, from a caller who is not the owner', 'anyone can make the contract request a new channel with the remembered options')

seed('s02-renounce-while-pending', 'C02', [(C, '''        if action == cw_ownable::Action::RenounceOwnership {
            return''', '''        let pending = cw_ownable::get_ownership(deps.storage)?.pending_owner;
        if action == cw_ownable::Action::RenounceOwnership && pending.is_none() {
            return''')], '''
#[test]
fn cannot_renounce() {
    let mut d = setup(false);
    assert!(execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::UpdateOwnership(cw_ownable::Action::RenounceOwnership)).is_err());
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::UpdateOwnership(cw_ownable::Action::TransferOwnership { new_owner: who("next").to_string(), expiry: None })).unwrap();
    assert!(execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::UpdateOwnership(cw_ownable::Action::RenounceOwnership)).is_err());
}
''', 'renouncing while an ownership transfer is pending', 'the contract becomes ownerless')

seed('s03-open-init-twice', 'C03', [(H, '''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;

        // Validate the host port''', '''        if channel.version.is_empty() {
            state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;
        }

        // Validate the host port''')], '''
#[test]
fn one_open_init_per_request() {
    let mut d = setup(false);
    assert!(open_init(&mut d, "channel-0", IbcOrder::Ordered, &meta("")));
    assert!(!open_init(&mut d, "channel-1", IbcOrder::Ordered, &meta("")));
}
''', 'two channel-open-inits in a row, the first with a version proposal', 'one request authorises any number of channel-open-inits')

seed('s04-close-while-not-open', 'C04', [(C, '''        if !channel_state.is_open() {
            return Err(ContractError::InvalidChannelStatus {
                expected: state::ChannelStatus::Open.to_string(),
                actual: channel_state.channel_status.to_string(),
            });
        }

        state::ALLOW_CHANNEL_CLOSE_INIT''', '''        if !channel_state.is_open() && !channel_state.is_ordered() {
            return Err(ContractError::InvalidChannelStatus {
                expected: state::ChannelStatus::Open.to_string(),
                actual: channel_state.channel_status.to_string(),
            });
        }

        state::ALLOW_CHANNEL_CLOSE_INIT''')], '''
#[test]
fn close_only_while_open() {
    for o in [IbcOrder::Unordered, IbcOrder::Ordered] {
        let mut d = opened(false, o.clone());
        let c = channel(&d).channel;
        ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseConfirm { channel: c }).unwrap();
        assert!(execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CloseChannel {}).is_err());
        assert!(!state::ALLOW_CHANNEL_CLOSE_INIT.load(d.as_ref().storage).unwrap_or_default());
    }
}
''', 'a close request after an ordered channel has been closed', 'a close request for a closed channel is accepted and leaves an authorisation behind')

seed('s05-address-not-validated', 'C05', [(MD, '''address.len() > DEFAULT_MAX_LENGTH || !address''', '''address.len() > DEFAULT_MAX_LENGTH && !address''')], '''
#[test]
fn bad_address_is_refused() {
    for bad in ["not-valid!", "a b", &"a".repeat(129)] {
        let mut d = setup(false);
        assert!(!open_init(&mut d, "channel-0", IbcOrder::Ordered, &meta(bad)), "{bad}");
    }
}
''', 'a proposal whose metadata has a malformed account address', 'an open-init with an invalid address is accepted')

seed('s06-reopen-keeps-old-account', 'C06', [(ST, '''            self.ica_info = Some(IcaInfo::new(ica_address, channel_id, encoding));''', '''            let new_info = IcaInfo::new(ica_address, channel_id, encoding);
            match self.ica_info.as_mut() {
                Some(info) if info.ica_address == new_info.ica_address => {
                    info.encoding = new_info.encoding;
                }
                _ => self.ica_info = Some(new_info),
            }''')], '''
#[test]
fn reopening_records_the_new_channel() {
    let mut d = opened(false, IbcOrder::Ordered);
    let c = channel(&d).channel;
    ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseConfirm { channel: c }).unwrap();
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).unwrap();
    assert!(open_init(&mut d, "channel-7", IbcOrder::Ordered, &meta("ica0")));
    open_ack(&mut d, "channel-7", IbcOrder::Ordered, "ica0").unwrap();
    assert_eq!(contract_state(&d).ica_info.unwrap().channel_id, "channel-7");
}
''', 'closing the channel and reopening it for the same account', 'the account keeps the id of the closed channel, so packets go to a dead channel')

seed('s07-open-means-ordered', 'C07', [(ST, '''            matches!(self.channel_status, ChannelStatus::Open)''', '''            matches!(self.channel_status, ChannelStatus::Open)
                && (self.is_ordered() || self.channel.version.is_empty())''')], '''
#[test]
fn no_second_channel() {
    let mut d = opened(false, IbcOrder::Unordered);
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).unwrap();
    assert!(!open_init(&mut d, "channel-1", IbcOrder::Unordered, &meta("")));
}
''', 'an unordered channel', 'an open unordered channel counts as not open, so it can be replaced')

seed('s08-close-any-same-id', 'C09', [(H, '''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel != channel {''', '''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel.connection_id != channel.connection_id
            || channel_state.channel.counterparty_endpoint != channel.counterparty_endpoint
        {''')], '''
#[test]
fn close_only_the_recorded_channel() {
    let mut d = opened(false, IbcOrder::Ordered);
    let mut c = channel(&d).channel;
    c.endpoint.channel_id = "channel-55".into();
    assert!(ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseConfirm { channel: c }).is_err());
    assert!(channel(&d).is_open());
}
''', 'a close-confirm of another channel to the same counterparty', 'the recorded channel is marked closed although another one closed')

seed('s09-timeout-without-callback', 'C10', [(R, '''        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
    }

    ibc_packet_timeout''', '''        if state::STATE.load(deps.storage)?.callback_address.is_some() {
            channel_state.close();
        }
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
    }

    ibc_packet_timeout''')], '''
#[test]
fn timeout_closes() {
    for cb in [true, false] {
        let mut d = opened(cb, IbcOrder::Ordered);
        do_timeout(&mut d, "channel-0", 1);
        assert!(!channel(&d).is_open());
    }
}
''', 'a timeout on an ordered channel of a contract without callback address', 'the channel stays recorded as open although the chain closed it')

seed('s10-ack-callback-only-with-result', 'C11', [(R, '''        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement,''', '''        let has_data = !matches!(&ica_acknowledgement, AcknowledgementData::Result(r) if r.is_empty());
        let callback_address = state::STATE.load(deps.storage)?.callback_address;
        if let Some(contract_addr) = callback_address.filter(|_| has_data) {
            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement,''')], '''
#[test]
fn empty_result_is_reported() {
    let mut d = opened(true, IbcOrder::Ordered);
    let r = do_ack(&mut d, "channel-0", 1, &Ack::Result(Binary::default())).unwrap();
    assert!(callback(&r).is_some());
}
''', 'a success acknowledgement with empty result bytes', 'the callback contract is not told of the acknowledgement')

seed('s11-ack-event-destination', 'C13', [('src/ibc/types/events.rs', '''Attribute::new(SRC_PORT, packet.src.port_id.clone()),
            Attribute::new(SRC_CHANNEL, packet.src.channel_id.clone()),''', '''Attribute::new(SRC_PORT, packet.src.port_id.clone()),
            Attribute::new(SRC_CHANNEL, packet.dest.channel_id.clone()),''')], '''
#[test]
fn event_names_source_channel() {
    let mut d = opened(true, IbcOrder::Ordered);
    let r = do_ack(&mut d, "channel-0", 1, &Ack::Error("e".into())).unwrap();
    assert_eq!(r.events.len(), 1);
    assert!(r.events[0].attributes.iter().any(|a| a.key == "packet_src_channel" && a.value == "channel-0"));
}
''', 'any acknowledgement on a channel whose two ends have different ids', 'the event identifies the wrong packet')

seed('s12-pending-kept-without-callback', 'C14', [(R, '''        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));

        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {
''', '''        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {
            state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
''')], '''
#[test]
fn ack_settles_queries() {
    for cb in [true, false] {
        let mut d = opened(cb, IbcOrder::Ordered);
        do_send(&mut d, send(vec![], vec![balance_q()], None, None));
        do_reply(&mut d, 5);
        assert!(pending(&d, "channel-0", 5));
        do_ack(&mut d, "channel-0", 5, &query_ack(vec![balance_r("1")], 3)).unwrap();
        assert!(!pending(&d, "channel-0", 5));
    }
}
''', 'a query acknowledged while no callback address is set', 'the pending query is never forgotten')

seed('s13-paths-reversed', 'C15', [(PK, '''                        acc.1.push((path.clone(), is_stargate));''', '''                        acc.1.insert(0, (path.clone(), is_stargate));''')], '''
#[test]
fn answers_match_queries() {
    let mut d = opened(true, IbcOrder::Ordered);
    do_send(&mut d, send(vec![], vec![balance_q(), raw_q()], None, None));
    do_reply(&mut d, 5);
    let smart = cosmos_sdk_proto::cosmwasm::wasm::v1::QuerySmartContractStateResponse { data: b"{}".to_vec() }.encode_to_vec();
    let r = do_ack(&mut d, "channel-0", 5, &query_ack(vec![balance_r("7"), smart], 3)).unwrap();
    match result_of(&r).unwrap() {
        IcaQueryResult::Success { height, responses } => {
            assert_eq!(height, 3);
            assert!(matches!(responses[0], IcaQueryResponse::Bank(_)));
            assert!(matches!(responses[1], IcaQueryResponse::Wasm(_)));
        }
        e => panic!("{e:?}"),
    }
}
''', 'a send with at least two different queries', 'responses are decoded as the answers to the queries in reverse order')

seed('s14-extra-responses-ignored', 'C15', [(QM, '''    if paths.len() != resp_msg.responses.len() {''', '''    if paths.len() > resp_msg.responses.len() {''')], '''
#[test]
fn wrong_count_is_an_error() {
    let mut d = opened(true, IbcOrder::Ordered);
    do_send(&mut d, send(vec![], vec![balance_q()], None, None));
    do_reply(&mut d, 5);
    let r = do_ack(&mut d, "channel-0", 5, &query_ack(vec![balance_r("7"), balance_r("8")], 3)).unwrap();
    assert!(matches!(result_of(&r), Some(IcaQueryResult::Error(_))));
}
''', 'an acknowledgement with more responses than queries', 'surplus responses are silently ignored')

seed('s15-queries-before-messages', 'C16', [(PK, '''                    proto_anys.push(cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {
                        StdError::generic_err(format!("failed to convert query msg: {e}"))
                    })?);''', '''                    let query_any = cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {
                        StdError::generic_err(format!("failed to convert query msg: {e}"))
                    })?;
                    let at = proto_anys.len().min(8);
                    proto_anys.insert(at, query_any);''')], '''
#[test]
fn query_entry_is_last() {
    for n in [0usize, 3, 12] {
        let mut d = opened(true, IbcOrder::Ordered);
        let msgs = (0..n).map(|i| CosmosMsg::Stargate { type_url: format!("/m.{i}"), value: Binary::default() }).collect();
        let t = tx(&do_send(&mut d, send(msgs, vec![balance_q()], None, None)));
        assert_eq!(t.len(), n + 1);
        assert!(t[n].type_url.ends_with("MsgModuleQuerySafe"));
    }
}
''', 'a send with queries and more than eight messages', 'the query entry is not the last one')

seed('s16-timeout-capped', 'C17', [(PK, '''            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));''', '''            .plus_seconds(timeout_seconds.map_or(DEFAULT_TIMEOUT_SECONDS, |t| t.min(1_209_600)));''')], '''
#[test]
fn timeout_as_requested() {
    for t in [0u64, 1, 600, 2_000_000] {
        let mut d = opened(true, IbcOrder::Ordered);
        let r = do_send(&mut d, send(vec![], vec![], None, Some(t)));
        assert_eq!(sent(&r).2, IbcTimeout::with_timestamp(mock_env().block.time.plus_seconds(t)));
    }
}
''', 'a requested timeout of more than two weeks', 'the packet times out earlier than requested')

seed('s17-transfer-timeout-seconds', 'C18', [(CM, '''timeout_timestamp: timeout.timestamp().map_or(0, |timestamp| timestamp.nanos()),''', '''timeout_timestamp: timeout.timestamp().map_or(0, |timestamp| {
                    timestamp.nanos() - timestamp.subsec_nanos()
                }),''')], '''
#[test]
fn transfer_timeout() {
    let mut d = opened(true, IbcOrder::Ordered);
    for n in [5_000_000_000u64, 5_000_000_001] {
        let m = CosmosMsg::Ibc(IbcMsg::Transfer { channel_id: "channel-3".into(), to_address: "r".into(), amount: coin(1, "stake"),
            timeout: IbcTimeout::with_timestamp(Timestamp::from_nanos(n)), memo: None });
        let t = tx(&do_send(&mut d, send(vec![m], vec![], None, None)));
        let p: ibc_proto::ibc::apps::transfer::v1::MsgTransfer = Message::decode(t[0].value.as_slice()).unwrap();
        assert_eq!(p.timeout_timestamp, n);
    }
}
''', 'a transfer timeout that is not a whole number of seconds', 'the transfer times out at a different moment')

seed('s18-custom-dropped', 'C19', [(PK, '''                let mut proto_anys = messages
                    .into_iter()
''', '''                let mut proto_anys = messages
                    .into_iter()
                    .filter(|msg| !matches!(msg, CosmosMsg::Custom(_)))
''')], '''
#[test]
fn unsupported_aborts() {
    let r = std::panic::catch_unwind(|| {
        let mut d = opened(true, IbcOrder::Ordered);
        execute(d.as_mut(), mock_env(), inf("owner"), send(vec![CosmosMsg::Custom(Empty {})], vec![], None, None)).is_ok()
    });
    assert!(!matches!(r, Ok(true)));
}
''', 'a send containing a custom message', 'the message is silently dropped from the transaction')

seed('s19-page-limit', 'C20', [(QM, '''limit: u64::from(pagination.limit),''', '''limit: u64::from(pagination.limit.clamp(1, 1000)),''')], '''
#[test]
fn page_limit_is_carried() {
    for l in [0u32, 10, 5000] {
        let q = QueryRequest::Bank(BankQuery::AllDenomMetadata { pagination: Some(PageRequest { key: None, limit: l, reverse: true }) });
        let (_, data, _) = query_msg::query_to_protobuf(q);
        let r = cosmos_sdk_proto::cosmos::bank::v1beta1::QueryDenomsMetadataRequest::decode(data.as_slice()).unwrap();
        assert_eq!(r.pagination.unwrap().limit, u64::from(l));
    }
}
''', 'a page limit of zero or above one thousand', 'the host is asked for a different page size')

seed('s20-delegations-swapped', 'C21', [(QM, '''                            .into_iter()
                            .filter_map(|del_resp| {
                                del_resp.delegation.map(|del| -> StdResult<_> {
                                    Ok(Delegation {
                                        delegator: del.delegator_address,
                                        validator: del.validator_address,''', '''                            .into_iter()
                            .filter(|del_resp| del_resp.balance.is_some())
                            .filter_map(|del_resp| {
                                del_resp.delegation.map(|del| -> StdResult<_> {
                                    Ok(Delegation {
                                        delegator: del.delegator_address,
                                        validator: del.validator_address,''')], '''
#[test]
fn all_delegations_are_returned() {
    use cosmos_sdk_proto::cosmos::staking::v1beta1 as st;
    let del = |b: bool| st::DelegationResponse {
        delegation: Some(st::Delegation { delegator_address: "d".into(), validator_address: "v".into(), shares: "1".into() }),
        balance: b.then(|| cosmos_sdk_proto::cosmos::base::v1beta1::Coin { denom: "stake".into(), amount: "1".into() }),
    };
    let one = |b| {
        let r = st::QueryDelegatorDelegationsResponse { delegation_responses: vec![del(b)], pagination: None }.encode_to_vec();
        match query_msg::from_protobuf::response(query_msg::constants::ALL_DELEGATIONS, &r, false) {
            Ok(IcaQueryResponse::Staking(query_msg::StakingQueryResponse::AllDelegations(r))) => Some(r.delegations.len()),
            _ => None,
        }
    };
    assert_eq!(one(true), Some(1));
    assert_ne!(one(false), Some(0));
}
''', 'a delegation reported without a balance', 'that delegation silently disappears from the answer')

seed('s21-reply-for-messages', 'C22', [(C, '''        let has_queries = !queries.is_empty();''', '''        let has_queries = !queries.is_empty() && queries.len() < 64;''')], '''
#[test]
fn queries_are_remembered() {
    for n in [1usize, 64] {
        let mut d = opened(true, IbcOrder::Ordered);
        let r = do_send(&mut d, send(vec![], (0..n).map(|_| balance_q()).collect(), None, None));
        assert_eq!(r.messages[0].reply_on, ReplyOn::Success);
    }
}
''', 'a send with 64 or more queries', 'the send does not wait for its sequence number, so the results can never be matched')

seed('s22-options-not-updated', 'C24', [(C, '''            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            new_options''', '''            let known = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)?;
            if known.map_or(true, |known| known.connection_id != new_options.connection_id) {
                state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            }
            new_options''')], '''
#[test]
fn latest_options_are_remembered() {
    let mut d = setup(false);
    let mut o = opts();
    o.channel_ordering = Some(IbcOrder::Unordered);
    let a = execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: Some(o) }).unwrap();
    let b = execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).unwrap();
    assert_eq!(a.messages, b.messages);
}
''', 'create-channel with new options on the same connection, then create-channel without options', 'an older set of options is used')

seed('s23-callback-update-resets', 'C25', [(C, '''        state::STATE.save(deps.storage, &contract_state)?;

        Ok(Response::default())''', '''        if contract_state.callback_address.is_none() {
            contract_state.delete_ica_info();
        }
        state::STATE.save(deps.storage, &contract_state)?;

        Ok(Response::default())''')], '''
#[test]
fn clearing_keeps_account() {
    let mut d = opened(true, IbcOrder::Ordered);
    let before = contract_state(&d).ica_info;
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::UpdateCallbackAddress { callback_address: None }).unwrap();
    assert_eq!(contract_state(&d).ica_info, before);
}
''', 'clearing the callback address while an account is recorded', 'the recorded interchain account is forgotten')

seed('s24-migrate-prerelease', 'C26', [(C, '''        if prev_version >= version {''', '''        if prev_version.cmp_precedence(&version).is_gt() || prev_version == version {''')], '''
#[test]
fn no_migration_to_same_version() {
    use cw_ica_controller::types::keys;
    let mut d = setup(false);
    assert!(migrate(d.as_mut(), mock_env(), MigrateMsg {}).is_err());
    let v = format!("{}+build", keys::CONTRACT_VERSION);
    cw2::set_contract_version(d.as_mut().storage, keys::CONTRACT_NAME, v).unwrap();
    assert!(migrate(d.as_mut(), mock_env(), MigrateMsg {}).is_err());
}
''', 'a stored version that differs from the new one only in build metadata', 'a migration that does not move forward is accepted')

seed('s25-ack-callback-channel', 'C12', [(H, '''                channel,
                ica_address: metadata.address,''', '''                channel: IbcChannel::new(
                    channel.endpoint,
                    channel.counterparty_endpoint,
                    cosmwasm_std::IbcOrder::Ordered,
                    channel.version,
                    channel.connection_id,
                ),
                ica_address: metadata.address,''')], '''
#[test]
fn callback_names_the_channel() {
    for o in [IbcOrder::Ordered, IbcOrder::Unordered] {
        let mut d = setup(true);
        assert!(open_init(&mut d, "channel-0", o.clone(), &meta("")));
        let r = open_ack(&mut d, "channel-0", o, "ica0").unwrap();
        match callback(&r).unwrap().1 {
            Cb::OnChannelOpenAckCallback { channel: c, .. } => assert_eq!(c, channel(&d).channel),
            m => panic!("{m:?}"),
        }
    }
}
''', 'an unordered channel', 'the callback reports another ordering than the opened channel has')

seed('s26-port-ignored', 'C23', [(SG, '''            counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into);''', '''            counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::<String>::into);
        let counterparty_port_id = if counterparty_port_id.is_empty() || ordering.is_none() {
            keys::HOST_PORT_ID.to_string()
        } else {
            counterparty_port_id
        };''')], '''
#[test]
fn port_is_used() {
    for ord in [None, Some(IbcOrder::Ordered)] {
        let mut d = setup(false);
        let mut o = opts();
        o.counterparty_port_id = Some("otherport".into());
        o.channel_ordering = ord;
        let r = execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: Some(o) }).unwrap();
        match &r.messages[0].msg {
            CosmosMsg::Stargate { value, .. } => {
                let m = cosmos_sdk_proto::ibc::core::channel::v1::MsgChannelOpenInit::decode(value.as_slice()).unwrap();
                assert_eq!(m.channel.unwrap().counterparty.unwrap().port_id, "otherport");
            }
            m => panic!("{m:?}"),
        }
    }
}
''', 'options with a counterparty port but without an ordering', 'the open-init goes to another counterparty port than the options say')

seed('s27-openconfirm-accepted', 'C08', [(H, '''        IbcChannelConnectMsg::OpenConfirm { .. } => unreachable!(),''', '''        IbcChannelConnectMsg::OpenConfirm { channel } => {
            let version = channel.version.clone();
            ibc_channel_open::on_acknowledgement(deps, channel, version)
        }''')], '''
#[test]
fn open_confirm_is_refused() {
    let r = std::panic::catch_unwind(|| {
        let mut d = setup(true);
        ibc_channel_connect(d.as_mut(), mock_env(), IbcChannelConnectMsg::OpenConfirm { channel: chan("channel-0", IbcOrder::Ordered, &meta("ica0")) }).is_ok()
    });
    assert!(!matches!(r, Ok(true)));
}
''', 'a channel-open-confirm whose version is valid metadata with an address', 'the contract acts as the host side and records a channel')

seed('s28-query-channel-open-only', 'C29', [(C, '''        state::CHANNEL_STATE.load(deps.storage)
    }
}

mod migrate''', '''        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if !channel_state.is_open() {
            channel_state.channel.version = String::new();
        }
        Ok(channel_state)
    }
}

mod migrate''')], '''
#[test]
fn query_reports_recorded_channel() {
    let mut d = opened(false, IbcOrder::Ordered);
    let c = channel(&d).channel;
    do_timeout(&mut d, "channel-0", 1);
    assert_eq!(channel(&d).channel, c);
}
''', 'querying the channel after it has closed', 'the query does not report the recorded channel')

seed('s29-ack-index-panics', 'C30', [(PK, '''            let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {
                StdError::generic_err("no MsgData found at the given index".to_string())
            })?;

            Ok(query_msg::proto::MsgModuleQuerySafeResponse::decode(
                msg_resp.value.as_slice(),
            )?)''', '''            let last = tx_msg_data.msg_responses.len() - 1;

            Ok(query_msg::proto::MsgModuleQuerySafeResponse::decode(
                tx_msg_data.msg_responses[last].value.as_slice(),
            )?)''')], '''
#[test]
fn empty_ack_does_not_abort() {
    let r = std::panic::catch_unwind(|| {
        let mut d = opened(true, IbcOrder::Ordered);
        do_send(&mut d, send(vec![], vec![balance_q()], None, None));
        do_reply(&mut d, 5);
        let _ = do_ack(&mut d, "channel-0", 5, &Ack::Result(Binary::default()));
    });
    assert!(r.is_ok());
}
''', 'an acknowledgement of a query packet without message responses', 'handling the acknowledgement aborts')

HP, EV, CB, MS = 'src/helpers.rs', 'src/ibc/types/events.rs', 'src/types/callbacks.rs', 'src/types/msg.rs'

seed('s30-callback-hands-itself-over', 'C01', [(C, '''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let mut contract_state = state::STATE.load(deps.storage)?;

        contract_state.callback_address''', '''        let mut contract_state = state::STATE.load(deps.storage)?;

        // the callback contract may unsubscribe itself
        if contract_state.callback_address.as_ref() != Some(&info.sender)
            || callback_address.is_some()
        {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

        contract_state.callback_address''')], '''
#[test]
fn only_owner_updates_callback() {
    let mut d = setup(true);
    let before = contract_state(&d);
    assert!(execute(d.as_mut(), mock_env(), inf("cb"), ExecuteMsg::UpdateCallbackAddress { callback_address: Some(who("x").to_string()) }).is_err());
    assert!(execute(d.as_mut(), mock_env(), inf("cb"), ExecuteMsg::UpdateCallbackAddress { callback_address: None }).is_err());
    assert_eq!(contract_state(&d), before);
}
''', 'an update-callback-address without an address, sent by the current callback contract', 'a caller who is not the owner changes the contract state')

seed('s31-close-arms-open', 'C03', [(H, '''        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;

        // Validate that''', '''        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;
        // a closed channel may be opened again by relayers
        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;

        // Validate that''')], '''
#[test]
fn closing_does_not_authorise_opening() {
    let mut d = opened(false, IbcOrder::Ordered);
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CloseChannel {}).unwrap();
    let c = channel(&d).channel;
    ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseInit { channel: c }).unwrap();
    assert!(!open_init(&mut d, "channel-1", IbcOrder::Ordered, &meta("")));
}
''', 'a channel-open-init by a relayer after the owner closed the channel', 'anyone can open a channel that the contract did not request')

seed('s32-close-right-stays-after-reopen', 'C04', [(H, '''        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;

        // Validate that''', '''        if channel.order == cosmwasm_std::IbcOrder::Ordered {
            state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;
        }

        // Validate that''')], '''
#[test]
fn one_close_per_request() {
    for o in [IbcOrder::Ordered, IbcOrder::Unordered] {
        let mut d = opened(false, o.clone());
        execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CloseChannel {}).unwrap();
        let c = channel(&d).channel;
        ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseInit { channel: c }).unwrap();
        execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).unwrap();
        assert!(open_init(&mut d, "channel-1", o.clone(), &meta("")));
        open_ack(&mut d, "channel-1", o, "ica0").unwrap();
        let c = channel(&d).channel;
        assert!(ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseInit { channel: c }).is_err());
    }
}
''', 'an unordered channel closed once by request and opened again', 'a channel is closed without the owner asking')

seed('s33-previous-metadata-trusted', 'C05', [(H, '''            IcaMetadata::from_channel(deps.as_ref(), &channel)?
        } else {''', '''            let metadata = IcaMetadata::from_channel(deps.as_ref(), &channel)?;
            if !metadata.address.is_empty() {
                // it was validated when it was stored
                return Ok(IbcChannelOpenResponse::Some(Ibc3ChannelOpenResponse {
                    version: metadata.to_string(),
                }));
            }
            metadata
        } else {''')], '''
#[test]
fn proposal_must_be_for_this_connection() {
    let mut d = opened(false, IbcOrder::Ordered);
    do_timeout(&mut d, "channel-0", 1);
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).unwrap();
    let mut c = chan("channel-1", IbcOrder::Ordered, "");
    c.connection_id = "connection-7".into();
    assert!(ibc_channel_open(d.as_mut(), mock_env(), IbcChannelOpenMsg::OpenInit { channel: c }).is_err());
}
''', 'a channel-open-init with an empty version, over another connection, after an earlier channel closed', 'the answer proposes metadata of another connection, and the open-channel check is skipped')

seed('s34-recorded-version-is-the-proposal', 'C06', [(H, '''        channel.version = counterparty_version;
''', '''        if channel.version.is_empty() {
            channel.version = counterparty_version;
        }
''')], '''
#[test]
fn negotiated_version_is_recorded() {
    let d = opened(false, IbcOrder::Ordered);
    assert_eq!(channel(&d).channel.version, meta("ica0"));
}
''', 'a handshake whose channel end already carries the version proposed at open-init', 'the recorded channel has the proposed version, not the one agreed with the host')

seed('s35-open-check-needs-same-connection', 'C07', [(H, '''            if channel_state.is_open() {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
        // Channel state need not''', '''            if channel_state.is_open()
                && channel_state.channel.connection_id == channel.connection_id
                && channel_state.channel.order == channel.order
            {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
        // Channel state need not''')], '''
#[test]
fn no_second_handshake_while_open() {
    let mut d = opened(false, IbcOrder::Ordered);
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).unwrap();
    assert!(!open_init(&mut d, "channel-1", IbcOrder::Unordered, &meta("")));
}
''', 'a channel-open-init with another ordering while a channel is open', 'a second handshake starts while a channel is active')

seed('s36-timeout-callback-while-open', 'C12', [(R, '''        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {''', '''        let known = state
            .ica_info
            .as_ref()
            .map_or(true, |info| info.channel_id == packet.src.channel_id);
        if let Some(contract_addr) = state.callback_address.filter(|_| known) {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {''')], '''
#[test]
fn old_packets_time_out_with_callback() {
    let mut d = opened(true, IbcOrder::Unordered);
    let c = channel(&d).channel;
    ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseConfirm { channel: c }).unwrap();
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).unwrap();
    assert!(open_init(&mut d, "channel-1", IbcOrder::Unordered, &meta("")));
    open_ack(&mut d, "channel-1", IbcOrder::Unordered, "ica0").unwrap();
    assert!(callback(&do_timeout(&mut d, "channel-0", 3)).is_some());
    assert!(callback(&do_timeout(&mut d, "channel-1", 1)).is_some());
}
''', 'a packet of the previous channel timing out after a new channel opened', 'the callback contract never learns of the timeout')

seed('s37-empty-ack-event', 'C13', [(EV, '''        Event::new(EVENT_TYPE)
            .add_attributes(attributes::from_packet(packet))
            .add_attribute(attributes::ACK_BASE64, resp.to_base64())''', '''        let event = Event::new(EVENT_TYPE).add_attributes(attributes::from_packet(packet));
        if resp.is_empty() {
            event
        } else {
            event.add_attribute(attributes::ACK_BASE64, resp.to_base64())
        }''')], '''
#[test]
fn event_carries_result() {
    let mut d = opened(false, IbcOrder::Ordered);
    for data in [Binary::default(), Binary::from(b"x")] {
        let r = do_ack(&mut d, "channel-0", 1, &Ack::Result(data.clone())).unwrap();
        assert!(r.events[0].attributes.iter().any(|a| a.key == "packet_ack_base64" && a.value == data.to_base64()));
    }
}
''', 'a successful acknowledgement with an empty result', 'the event does not show the result')

seed('s38-bad-response-skipped', 'C15', [('src/types/query_msg.rs', '''        .map(|((path, is_stargate), resp)| from_protobuf::response(&path, resp, is_stargate))
        .collect::<Result<_, _>>()''', '''        .map(|((path, is_stargate), resp)| from_protobuf::response(&path, resp, is_stargate))
        .filter(|r| !matches!(r, Err(crate::types::ContractError::EmptyResponse(_))))
        .collect::<Result<_, _>>()''')], '''
#[test]
fn results_match_queries() {
    let mut d = opened(true, IbcOrder::Ordered);
    do_send(&mut d, send(vec![], vec![QueryRequest::Staking(StakingQuery::BondedDenom {}), balance_q()], None, None));
    do_reply(&mut d, 5);
    let r = do_ack(&mut d, "channel-0", 5, &query_ack(vec![vec![], balance_r("7")], 3)).unwrap();
    match result_of(&r).unwrap() {
        IcaQueryResult::Success { responses, .. } => assert_eq!(responses.len(), 2),
        IcaQueryResult::Error(_) => {}
    }
}
''', 'several queries of which one is a bonded-denom query answered without parameters', 'the results no longer line up with the queries')

seed('s39-blank-memo-dropped', 'C16', [(C, '''            &ica_info.encoding,
            packet_memo,
''', '''            &ica_info.encoding,
            packet_memo.filter(|memo| !memo.trim().is_empty()),
''')], '''
#[test]
fn memo_is_kept() {
    let mut d = opened(false, IbcOrder::Ordered);
    for memo in [None, Some(""), Some(" "), Some("m")] {
        let r = do_send(&mut d, send(vec![], vec![], memo, None));
        let p: cw_ica_controller::ibc::types::packet::IcaPacketData = from_json(sent(&r).1).unwrap();
        assert_eq!(p.memo.as_deref(), memo);
    }
}
''', 'a packet memo of white space only', 'the packet is sent without the memo the owner asked for')

seed('s40-zero-timeout-default', 'C17', [(PK, '''            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));''', '''            .plus_seconds(
                timeout_seconds
                    .filter(|seconds| *seconds > 0)
                    .unwrap_or(DEFAULT_TIMEOUT_SECONDS),
            );''')], '''
#[test]
fn timeout_is_as_asked() {
    let mut d = opened(false, IbcOrder::Ordered);
    let now = mock_env().block.time;
    for (asked, want) in [(None, 600), (Some(0), 0), (Some(1), 1)] {
        let r = do_send(&mut d, send(vec![], vec![], None, asked));
        assert_eq!(sent(&r).2.timestamp().unwrap(), now.plus_seconds(want));
    }
}
''', 'a timeout of zero seconds', 'the packet has another timeout than asked for')

seed('s41-zero-weights-skipped', 'C18', [(CM, '''                let options: Vec<ProtoWeightedVoteOption> = options
                    .into_iter()
''', '''                let options: Vec<ProtoWeightedVoteOption> = options
                    .into_iter()
                    .filter(|weighted_option| !weighted_option.weight.is_zero())
''')], '''
#[test]
fn all_vote_options_are_sent() {
    let mut d = opened(false, IbcOrder::Ordered);
    let o = vec![WeightedVoteOption { option: VoteOption::Yes, weight: Decimal::zero() }, WeightedVoteOption { option: VoteOption::No, weight: Decimal::one() }];
    let r = do_send(&mut d, send(vec![CosmosMsg::Gov(GovMsg::VoteWeighted { proposal_id: 1, options: o })], vec![], None, None));
    let m = cosmos_sdk_proto::cosmos::gov::v1::MsgVoteWeighted::decode(tx(&r)[0].value.as_slice()).unwrap();
    assert_eq!(m.options.len(), 2);
}
''', 'a weighted vote with an option of weight zero', 'the vote sent is not the vote the owner gave')

seed('s42-admin-defaults-to-account', 'C18', [(CM, '''                admin: admin.unwrap_or_default(),
                sender,
                code_id,
                msg: msg.to_vec(),
                funds: funds''', '''                admin: admin.unwrap_or_else(|| sender.clone()),
                sender,
                code_id,
                msg: msg.to_vec(),
                funds: funds''')], '''
#[test]
fn no_admin_stays_no_admin() {
    let mut d = opened(false, IbcOrder::Ordered);
    let r = do_send(&mut d, send(vec![CosmosMsg::Wasm(WasmMsg::Instantiate { admin: None, code_id: 1, msg: Binary::from(b"{}"), funds: vec![], label: "l".into() })], vec![], None, None));
    let m = cosmos_sdk_proto::cosmwasm::wasm::v1::MsgInstantiateContract::decode(tx(&r)[0].value.as_slice()).unwrap();
    assert_eq!(m.admin, "");
    assert_eq!(m.sender, "ica0");
}
''', 'an instantiate message without an admin', 'the instantiated contract gets an admin nobody asked for')

seed('s43-burn-as-send', 'C19', [(CM, '''            _ => panic!("Unsupported BankMsg"),''', '''            // an empty burn is a no-op
            BankMsg::Burn { amount } if amount.is_empty() => Any::from_msg(&MsgSend {
                from_address: from_address.clone(),
                to_address: from_address,
                amount: vec![],
            }),
            _ => panic!("Unsupported BankMsg"),''')], '''
#[test]
fn burn_is_unsupported() {
    for amount in [vec![], coins(1, "stake")] {
        let r = std::panic::catch_unwind(|| {
            let mut d = opened(false, IbcOrder::Ordered);
            execute(d.as_mut(), mock_env(), inf("owner"), send(vec![CosmosMsg::Bank(BankMsg::Burn { amount: amount.clone() })], vec![], None, None)).is_ok()
        });
        assert!(!matches!(r, Ok(true)));
    }
}
''', 'a burn message without coins', 'an unsupported message is sent as another message')

seed('s44-raw-key-text', 'C20', [('src/types/query_msg.rs', '''                    query_data: key.into(),''', '''                    query_data: String::from_utf8_lossy(&key).into_owned().into(),''')], '''
#[test]
fn raw_key_is_sent_as_is() {
    let k = Binary::from(&[0u8, 7, 0xff, 0xfe, b'a']);
    let (p, b, _) = query_msg::query_to_protobuf(QueryRequest::Wasm(WasmQuery::Raw { contract_addr: "c".into(), key: k.clone() }));
    assert_eq!(p, "/cosmwasm.wasm.v1.Query/RawContractState");
    assert_eq!(cosmos_sdk_proto::cosmwasm::wasm::v1::QueryRawContractStateRequest::decode(b.as_slice()).unwrap().query_data, k.to_vec());
}
''', 'a raw query whose key is not valid UTF-8 (as length-prefixed map keys often are)', 'another key is queried on the host')

seed('s45-next-key-empty', 'C21', [('src/types/query_msg.rs', '''                        resp.pagination
                            .map(|pagination| Binary::new(pagination.next_key)),''', '''                        resp.pagination
                            .filter(|pagination| pagination.total == 0)
                            .map(|pagination| Binary::new(pagination.next_key)),''')], '''
#[test]
fn next_key_is_reported() {
    use cosmos_sdk_proto::cosmos::{bank::v1beta1::QueryDenomsMetadataResponse as R, base::query::v1beta1::PageResponse};
    for total in [0, 9] {
        let r = R { metadatas: vec![], pagination: Some(PageResponse { next_key: vec![1, 2], total }) };
        let IcaQueryResponse::Bank(query_msg::BankQueryResponse::AllDenomMetadata(x)) = query_msg::from_protobuf::response(query_msg::constants::ALL_DENOM_METADATA, &r.encode_to_vec(), false).unwrap() else { panic!() };
        assert_eq!(x.next_key, Some(Binary::from(&[1u8, 2])));
    }
}
''', 'a page of denom metadata whose answer also states a total', 'the key of the next page is not reported')

seed('s46-reply-always', 'C22', [(C, '''            SubMsg::reply_on_success(send_packet_msg, keys::reply_ids::SEND_QUERY_PACKET)''', '''            SubMsg::reply_always(send_packet_msg, keys::reply_ids::SEND_QUERY_PACKET)''')], '''
#[test]
fn failed_send_reverts() {
    let mut d = opened(false, IbcOrder::Ordered);
    let r = do_send(&mut d, send(vec![], vec![balance_q()], None, None));
    assert_eq!(r.messages[0].reply_on, ReplyOn::Success);
}
''', 'a query packet that core IBC refuses to send', 'the contract is asked to handle the failure, and aborts')

seed('s47-ordering-follows-port', 'C23', [(SG, '''        let ordering = ordering.map_or(Order::Ordered, |ordering| match ordering {''', '''        let default = if counterparty_port_id == keys::HOST_PORT_ID {
            Order::Ordered
        } else {
            Order::Unordered
        };
        let ordering = ordering.map_or(default, |ordering| match ordering {'''),
        (SG, '''        let counterparty_port_id =
            counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into);
''', '''        let counterparty_port_id: String =
            counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into);
''')], '''
#[test]
fn default_ordering_is_ordered() {
    use cosmos_sdk_proto::ibc::core::channel::v1::MsgChannelOpenInit;
    for port in [None, Some("icahost".to_string()), Some("other".to_string())] {
        let mut d = mock_dependencies();
        let o = Options { counterparty_port_id: port, ..opts() };
        let r = instantiate(d.as_mut(), mock_env(), inf("owner"), InstantiateMsg { owner: None, channel_open_init_options: o, send_callbacks_to: None }).unwrap();
        let CosmosMsg::Stargate { value, .. } = &r.messages[0].msg else { panic!() };
        let m = MsgChannelOpenInit::decode(value.as_slice()).unwrap();
        assert_eq!(m.channel.unwrap().ordering, 2);
    }
}
''', 'options with another counterparty port and no ordering', 'the channel is not ordered by default')

seed('s48-options-merged', 'C24', [(C, '''            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            new_options
''', '''            let previous = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)?;
            let new_options = ChannelOpenInitOptions {
                channel_ordering: new_options
                    .channel_ordering
                    .or(previous.and_then(|p| p.channel_ordering)),
                ..new_options
            };
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            new_options
''')], '''
#[test]
fn new_options_replace_old_ones() {
    let mut d = mock_dependencies();
    instantiate(d.as_mut(), mock_env(), inf("owner"), InstantiateMsg { owner: None, channel_open_init_options: Options { channel_ordering: Some(IbcOrder::Unordered), ..opts() }, send_callbacks_to: None }).unwrap();
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: Some(opts()) }).unwrap();
    assert_eq!(state::CHANNEL_OPEN_INIT_OPTIONS.load(d.as_ref().storage).unwrap(), opts());
}
''', 'new options without an ordering after options with one', 'the options used and remembered are not those given')

seed('s49-callback-forgotten-with-account', 'C25', [(ST, '''            self.ica_info = Some(IcaInfo::new(ica_address, channel_id, encoding));''', '''            let info = IcaInfo::new(ica_address, channel_id, encoding);
            if self
                .ica_info
                .as_ref()
                .is_some_and(|old| old.ica_address != info.ica_address)
            {
                self.callback_address = None;
            }
            self.ica_info = Some(info);''')], '''
#[test]
fn callback_survives_new_account() {
    let mut d = opened(true, IbcOrder::Ordered);
    do_timeout(&mut d, "channel-0", 1);
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).unwrap();
    assert!(open_init(&mut d, "channel-1", IbcOrder::Ordered, &meta("")));
    open_ack(&mut d, "channel-1", IbcOrder::Ordered, "ica1").unwrap();
    assert_eq!(contract_state(&d).callback_address, Some(who("cb")));
}
''', 'a second handshake in which the host names another account', 'the callback address is lost without the owner asking')

seed('s50-migrate-rearms', 'C26', [(C, '''    cw2::set_contract_version(deps.storage, keys::CONTRACT_NAME, keys::CONTRACT_VERSION)?;
    // If state structure''', '''    cw2::set_contract_version(deps.storage, keys::CONTRACT_NAME, keys::CONTRACT_VERSION)?;
    if state::CHANNEL_STATE.may_load(deps.storage)?.is_none() {
        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;
    }
    // If state structure''')], '''
#[test]
fn migration_keeps_state() {
    let mut d = setup(false);
    assert!(open_init(&mut d, "channel-0", IbcOrder::Ordered, &meta("")));
    cw2::set_contract_version(d.as_mut().storage, "crates.io:cw-ica-controller", "0.0.1").unwrap();
    migrate(d.as_mut(), mock_env(), MigrateMsg {}).unwrap();
    assert!(!state::ALLOW_CHANNEL_OPEN_INIT.load(d.as_ref().storage).unwrap());
}
''', 'migrating during the first handshake, between open-init and open-ack', 'migration authorises another channel-open-init')

seed('s51-pending-key-clash', 'C27', [(ST, '''Map<(&str, u64), Vec<(String, bool)>> =
    cw_storage_plus::Map::new("pending_queries");''', '''Map<(&str, u64), Vec<(String, bool)>> =
    cw_storage_plus::Map::new("pending_query");''')], '''
#[test]
fn earlier_pending_queries_are_found() {
    // a contract that stored a pending query before the upgrade
    let mut d = opened(true, IbcOrder::Ordered);
    let old: cw_storage_plus::Map<(&str, u64), Vec<(String, bool)>> = cw_storage_plus::Map::new("pending_queries");
    old.save(d.as_mut().storage, ("channel-0", 5), &vec![("/cosmos.bank.v1beta1.Query/Balance".into(), false)]).unwrap();
    let r = do_ack(&mut d, "channel-0", 5, &query_ack(vec![balance_r("7")], 3)).unwrap();
    assert!(result_of(&r).is_some());
}
''', 'queries pending across a code upgrade', 'results of queries sent before the upgrade are lost')

seed('s52-memo-null', 'C28', [(PK, '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub memo: Option<String>,''', '''    pub memo: Option<String>,''')], '''
#[test]
fn packet_without_memo_has_no_memo_field() {
    let mut d = opened(false, IbcOrder::Ordered);
    let r = do_send(&mut d, send(vec![], vec![], None, None));
    assert!(!String::from_utf8(sent(&r).1.to_vec()).unwrap().contains("memo"));
}
''', 'a packet without a memo', 'the packet has a null memo, which is not ICS-27 packet data')

seed('s53-query-creates-default', 'C29', [(C, '''        state::STATE.load(deps.storage)
    }

    /// Returns the saved channel''', '''        let mut contract_state = state::STATE.load(deps.storage)?;
        // the account can only be used while its channel is open
        let open = state::CHANNEL_STATE
            .may_load(deps.storage)?
            .is_some_and(|channel_state| channel_state.is_open());
        if !open {
            contract_state.delete_ica_info();
        }
        Ok(contract_state)
    }

    /// Returns the saved channel''')], '''
#[test]
fn query_reports_stored_state() {
    let mut d = opened(false, IbcOrder::Ordered);
    do_timeout(&mut d, "channel-0", 1);
    assert_eq!(contract_state(&d), state::STATE.load(d.as_ref().storage).unwrap());
    assert!(contract_state(&d).ica_info.is_some());
}
''', 'querying the contract state while the channel is closed', 'the query hides the account')

seed('s54-height-narrowed', 'C30', [('src/types/query_msg.rs', '''            |responses| IcaQueryResult::Success {
                height: resp_msg.height,
                responses,
            },''', '''            |responses| IcaQueryResult::Success {
                height: i64::try_from(resp_msg.height)
                    .expect("heights are signed on the host")
                    .unsigned_abs(),
                responses,
            },''')], '''
#[test]
fn any_height_is_handled() {
    let r = std::panic::catch_unwind(|| {
        let mut d = opened(true, IbcOrder::Ordered);
        do_send(&mut d, send(vec![], vec![balance_q()], None, None));
        do_reply(&mut d, 5);
        do_ack(&mut d, "channel-0", 5, &query_ack(vec![balance_r("7")], u64::MAX)).is_ok()
    });
    assert!(r.is_ok());
}
''', 'a query response with a height above the signed range', 'handling the acknowledgement aborts')

seed('s55-salt-length', 'C31', [(HP, '''                salt.as_bytes(),
            )
            .map_err''', '''                salt.trim().as_bytes(),
            )
            .map_err''')], '''
use cw_ica_controller::helpers::CwIcaControllerCode;
#[test]
fn predicted_address_uses_the_salt_sent() {
    let mut d = mock_dependencies();
    d.querier.update_wasm(|_| SystemResult::Ok(ContractResult::Ok(to_json_binary(&CodeInfoResponse::new(1, who("x"), Checksum::generate(b"c"))).unwrap())));
    let mut env = mock_env();
    env.contract.address = who("me");
    let m = || InstantiateMsg { owner: None, channel_open_init_options: opts(), send_callbacks_to: None };
    let q = QuerierWrapper::new(&d.querier);
    for salt in ["s", " s"] {
        let (msg, addr) = CwIcaControllerCode::new(1).instantiate2(&d.api, &q, &env, m(), "l", None::<String>, salt).unwrap();
        let CosmosMsg::Wasm(WasmMsg::Instantiate2 { salt, .. }) = msg else { panic!() };
        let a = instantiate2_address(Checksum::generate(b"c").as_slice(), &d.api.addr_canonicalize(env.contract.address.as_str()).unwrap(), salt.as_slice()).unwrap();
        assert_eq!(addr, d.api.addr_humanize(&a).unwrap());
    }
}
''', 'a salt with leading or trailing white space', 'the predicted address is not that of the instantiated contract')

seed('s56-queries-required', 'C34', [(MS, '''        #[serde(default)]
        #[serde_as(deserialize_as = "serde_with::DefaultOnNull")]
        queries''', '''        #[serde_as(deserialize_as = "serde_with::DefaultOnNull")]
        queries''')], '''
#[test]
fn queries_may_be_left_out() {
    let m: Result<ExecuteMsg, _> = from_json(br#"{"send_cosmos_msgs":{"messages":[]}}"#);
    assert!(m.is_ok());
}
''', 'a send message written without the queries field', 'documented messages are refused')

seed('s57-short-addresses-only', 'C35', [(MD, '''    const DEFAULT_MAX_LENGTH: usize = 128;''', '''    const DEFAULT_MAX_LENGTH: usize = 64;''')], '''
#[test]
fn long_addresses_are_accepted() {
    for n in [1usize, 64, 65, 127, 128] {
        let mut d = setup(false);
        assert!(open_init(&mut d, "channel-0", IbcOrder::Ordered, &meta("")));
        open_ack(&mut d, "channel-0", IbcOrder::Ordered, &"a".repeat(n)).unwrap();
    }
}
''', 'a host that names an account address of 65 to 128 characters', 'a valid handshake is refused')

seed('s58-ack-callback-empty-error', 'C11', [(R, '''        AcknowledgementData::Error(err) => {
            ibc_packet_ack::error(deps, ack.original_packet, ack.relayer, err)
        }''', '''        AcknowledgementData::Error(err) => {
            let code = err.split(':').next().unwrap_or_default().to_string();
            ibc_packet_ack::error(deps, ack.original_packet, ack.relayer, code)
        }''')], '''
#[test]
fn error_text_is_reported() {
    let mut d = opened(true, IbcOrder::Ordered);
    let r = do_ack(&mut d, "channel-0", 1, &Ack::Error("ABCI code: 5".into())).unwrap();
    match callback(&r).unwrap().1 {
        Cb::OnAcknowledgementPacketCallback { ica_acknowledgement, .. } => assert_eq!(ica_acknowledgement, Ack::Error("ABCI code: 5".into())),
        m => panic!("{m:?}"),
    }
}
''', 'an error acknowledgement whose text contains a colon', 'the callback contract sees a shortened error')

seed('s59-pending-shared-over-channels', 'C14', [(R, '''            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
            .map(
                |paths|''', '''            .may_load(deps.storage, (&packet.dest.channel_id, packet.sequence))?
            .or(state::PENDING_QUERIES
                .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?)
            .map(
                |paths|''')], '''
#[test]
fn pending_query_belongs_to_its_packet() {
    let mut d = opened(true, IbcOrder::Ordered);
    // a query sent earlier over a channel of this contract with the id of the counterparty's channel
    state::PENDING_QUERIES.save(d.as_mut().storage, ("channel-99", 1), &vec![("x".into(), true), ("y".into(), true)]).unwrap();
    do_send(&mut d, send(vec![], vec![balance_q()], None, None));
    do_reply(&mut d, 1);
    let r = do_ack(&mut d, "channel-0", 1, &query_ack(vec![balance_r("7")], 3)).unwrap();
    assert!(matches!(result_of(&r), Some(IcaQueryResult::Success { .. })));
}
''', 'an earlier channel whose id equals the counterparty id of the current channel, with a packet still pending', 'the results of a query are matched with the paths of another packet')

seed('s60-index-clamped', 'C36', [(PK, '''            let msg_resp = tx_msg_data.msg_responses.get(index).ok_or_else(|| {''', '''            let index = index.min(tx_msg_data.msg_responses.len().saturating_sub(1));
            let msg_resp = tx_msg_data.msg_responses.get(index).ok_or_else(|| {''')], '''
#[test]
fn missing_index_is_an_error() {
    let a = query_ack(vec![balance_r("7")], 3);
    assert!(a.decode_module_query_safe_resp(0).is_ok());
    assert!(a.decode_module_query_safe_resp(1).is_err());
}
''', 'an index past the last response of the acknowledgement', 'a caller is given the response of another message')

seed('s61-empty-owner-is-sender', 'C02', [(C, '''    let owner = msg.owner.unwrap_or_else(|| info.sender.to_string());''', '''    let owner = msg
        .owner
        .filter(|owner| owner != env.contract.address.as_str())
        .unwrap_or_else(|| info.sender.to_string());''')], '''
#[test]
fn the_named_owner_is_the_owner() {
    let mut d = mock_dependencies();
    let mut env = mock_env();
    env.contract.address = who("self");
    let m = InstantiateMsg { owner: Some(who("self").to_string()), channel_open_init_options: opts(), send_callbacks_to: None };
    instantiate(d.as_mut(), env, inf("creator"), m).unwrap();
    assert_eq!(cw_ownable::get_ownership(d.as_ref().storage).unwrap().owner, Some(who("self")));
}
''', 'an instantiation that names the contract itself as owner', 'the creator becomes the owner instead of the named address')

seed('s62-empty-receive-acked', 'C08', [(R, '''    _deps: DepsMut,
    _env: Env,
    _msg: IbcPacketReceiveMsg,
) -> Result<IbcReceiveResponse, Never> {''', '''    _deps: DepsMut,
    _env: Env,
    msg: IbcPacketReceiveMsg,
) -> Result<IbcReceiveResponse, Never> {
    if msg.packet.data.is_empty() {
        return Ok(IbcReceiveResponse::new(b"{}".to_vec()));
    }''')], '''
#[test]
fn nothing_is_received() {
    let mut p = packet("channel-0", 1);
    p.data = Binary::default();
    let r = std::panic::catch_unwind(|| {
        let mut d = setup(false);
        ibc_packet_receive(d.as_mut(), mock_env(), IbcPacketReceiveMsg::new(p, who("relayer"))).is_ok()
    });
    assert!(r.is_err());
}
''', 'a packet without data sent to the controller', 'the controller acknowledges a received packet')

seed('s63-close-confirm-ignores-version', 'C09', [(H, '''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel != channel {''', '''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel.counterparty_endpoint != channel.counterparty_endpoint
            || channel_state.channel.connection_id != channel.connection_id
        {''')], '''
#[test]
fn only_the_recorded_channel_is_closed() {
    let mut d = opened(false, IbcOrder::Ordered);
    // another channel of the contract (never completed here) that the host closes
    let other = chan("channel-5", IbcOrder::Ordered, &meta("ica0"));
    let _ = ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseConfirm { channel: other });
    assert!(channel(&d).is_open());
}
''', 'a close-confirm of another channel between the same two connections', 'the active channel is recorded as closed')

seed('s64-unknown-replies-accepted', 'C22', [(C, '''        _ => Err(ContractError::UnknownReplyId(msg.id)),''', '''        id if id > u64::from(u32::MAX) => Ok(Response::default()),
        _ => Err(ContractError::UnknownReplyId(msg.id)),''')], '''
#[test]
fn unknown_replies_are_refused() {
    for id in [0u64, 2, 3, 1 << 33] {
        let mut d = setup(false);
        let r = Reply { id, payload: Binary::default(), gas_used: 0,
            result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: None, msg_responses: vec![] }) };
        assert!(reply(d.as_mut(), mock_env(), r).is_err());
    }
}
''', 'a reply with an id above 2^32', 'a reply the contract never asked for is accepted')

seed('s65-host-connection-guessed', 'C37', [(MD, '''            host_connection_id: options.counterparty_connection_id,''', '''            host_connection_id: if options.counterparty_connection_id.is_empty() {
                channel.connection_id.clone()
            } else {
                options.counterparty_connection_id
            },''')], '''
#[test]
fn remembered_counterparty_connection_is_proposed() {
    let mut d = mock_dependencies();
    let mut o = opts();
    o.counterparty_connection_id = String::new();
    let m = InstantiateMsg { owner: None, channel_open_init_options: o, send_callbacks_to: None };
    instantiate(d.as_mut(), mock_env(), inf("owner"), m).unwrap();
    let c = chan("channel-0", IbcOrder::Ordered, "");
    let r = ibc_channel_open(d.as_mut(), mock_env(), IbcChannelOpenMsg::OpenInit { channel: c }).unwrap().unwrap();
    let m: IcaMetadata = serde_json_wasm::from_str(&r.version).unwrap();
    assert_eq!(m.host_connection_id, "");
}
''', 'remembered options with an empty counterparty connection and an open-init without a version', 'the proposal names a connection nobody configured')

seed('s66-reopen-forgets-account', 'C37', [(MD, '''            if let Ok(previous_metadata) = serde_json_wasm::from_str(&channel_state.channel.version)
            {
                return Ok(previous_metadata);
            }''', '''            if channel_state.channel.connection_id == channel.connection_id
                && channel_state.channel.order == channel.order
            {
                if let Ok(previous_metadata) =
                    serde_json_wasm::from_str(&channel_state.channel.version)
                {
                    return Ok(previous_metadata);
                }
            }''')], '''
#[test]
fn reopening_proposes_the_same_account() {
    for order in [IbcOrder::Ordered, IbcOrder::Unordered] {
        let mut d = opened(false, IbcOrder::Ordered);
        do_timeout(&mut d, "channel-0", 1);
        execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).unwrap();
        let c = chan("channel-1", order, "");
        let r = ibc_channel_open(d.as_mut(), mock_env(), IbcChannelOpenMsg::OpenInit { channel: c }).unwrap().unwrap();
        let m: IcaMetadata = serde_json_wasm::from_str(&r.version).unwrap();
        assert_eq!(m.address, "ica0");
    }
}
''', 'a channel closed and re-opened with another ordering, without a proposed version', 'the proposal no longer names the existing account')

seed('s67-relayer-of-batch', 'C12', [(R, '''            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                original_packet: packet,
                relayer,
            }''', '''            let relayer = if packet.timeout.timestamp().is_none() {
                contract_addr.clone()
            } else {
                relayer
            };
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                original_packet: packet,
                relayer,
            }''')], '''
#[test]
fn timeout_callback_names_the_relayer() {
    let mut d = opened(true, IbcOrder::Unordered);
    let mut p = packet("channel-0", 1);
    p.timeout = IbcTimeout::with_block(IbcTimeoutBlock { revision: 1, height: 5 });
    let r = ibc_packet_timeout(d.as_mut(), mock_env(), IbcPacketTimeoutMsg::new(p, who("relayer"))).unwrap();
    match callback(&r).unwrap().1 {
        Cb::OnTimeoutPacketCallback { relayer, .. } => assert_eq!(relayer, who("relayer")),
        m => panic!("{m:?}"),
    }
}
''', 'a timed-out packet that has only a height timeout', 'the callback names another relayer')

seed('s68-vote-veto-abstain', 'C18', [(CM, '''                            option: convert_to_proto_vote_option(&weighted_option.option) as i32,''', '''                            option: match weighted_option.option {
                                VoteOption::NoWithVeto if weighted_option.weight.is_zero() => {
                                    ProtoVoteOption::Unspecified as i32
                                }
                                option => convert_to_proto_vote_option(&option) as i32,
                            },''')], '''
#[test]
fn weighted_votes_are_kept() {
    let mut d = opened(false, IbcOrder::Ordered);
    let m = CosmosMsg::Gov(GovMsg::VoteWeighted { proposal_id: 3, options: vec![
        WeightedVoteOption { option: VoteOption::Yes, weight: Decimal::one() },
        WeightedVoteOption { option: VoteOption::NoWithVeto, weight: Decimal::zero() }] });
    let a = &tx(&do_send(&mut d, send(vec![m], vec![], None, None)))[0];
    let v = cosmos_sdk_proto::cosmos::gov::v1::MsgVoteWeighted::decode(a.value.as_slice()).unwrap();
    assert_eq!(v.options.iter().map(|o| o.option).collect::<Vec<_>>(), vec![1, 4]);
}
''', 'a weighted vote with a zero-weight veto', 'the vote sent differs from the one requested')

seed('s69-code-id-zero-admin', 'C18', [(CM, '''            } => Any::from_msg(&MsgUpdateAdmin {
                sender,
                new_admin: admin,
                contract: contract_addr,
            }),''', '''            } => {
                let new_admin = if admin == contract_addr {
                    sender.clone()
                } else {
                    admin
                };
                Any::from_msg(&MsgUpdateAdmin {
                    sender,
                    new_admin,
                    contract: contract_addr,
                })
            }''')], '''
#[test]
fn a_contract_can_be_its_own_admin() {
    let mut d = opened(false, IbcOrder::Ordered);
    let m: CosmosMsg = WasmMsg::UpdateAdmin { contract_addr: "c1".into(), admin: "c1".into() }.into();
    let a = &tx(&do_send(&mut d, send(vec![m], vec![], None, None)))[0];
    let v = cosmos_sdk_proto::cosmwasm::wasm::v1::MsgUpdateAdmin::decode(a.value.as_slice()).unwrap();
    assert_eq!(v.new_admin, "c1");
}
''', 'an admin update that makes a contract its own admin', 'the account is made admin instead')

seed('s70-error-ack-without-pending-removal', 'C14', [(C, '''                let channel_id = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id;
                let query_paths''', '''                let channel_id = state::CHANNEL_STATE
                    .load(deps.storage)?
                    .channel
                    .counterparty_endpoint
                    .channel_id;
                let query_paths''')], '''
#[test]
fn pending_queries_are_found_by_their_packet() {
    let mut d = opened(true, IbcOrder::Ordered);
    do_send(&mut d, send(vec![], vec![balance_q()], None, None));
    do_reply(&mut d, 4);
    assert!(pending(&d, "channel-0", 4));
}
''', 'a query packet on a channel whose two ends have different ids', 'the pending queries are stored under a key no acknowledgement uses')

seed('s71-callback-validated-late', 'C25', [(C, '''        contract_state.callback_address = callback_address
            .map(|addr| deps.api.addr_validate(&addr))
            .transpose()?;''', '''        contract_state.callback_address = match callback_address {
            Some(addr) if addr == env_contract(&contract_state) => contract_state.callback_address,
            other => other.map(|addr| deps.api.addr_validate(&addr)).transpose()?,
        };'''), (C, '''mod reply {
    use cosmwasm_std::SubMsgResult;
''', '''fn env_contract(state: &ContractState) -> &str {
    state.ica_info.as_ref().map_or("", |info| info.ica_address.as_str())
}

mod reply {
    use cosmwasm_std::SubMsgResult;
'''), (C, '''    use super::{
        keys, new_ica_channel_open_init_cosmos_msg, state, ContractError, DepsMut, Env,
        MessageInfo, Response,
    };''', '''    use super::{
        env_contract, keys, new_ica_channel_open_init_cosmos_msg, state, ContractError, DepsMut,
        Env, MessageInfo, Response,
    };''')], '''
#[test]
fn callback_address_is_what_was_asked_for() {
    let mut d = setup(true);
    // the account's address is a valid address on this chain as well
    let a = who("ica").to_string();
    assert!(open_init(&mut d, "channel-0", IbcOrder::Ordered, &meta("")));
    open_ack(&mut d, "channel-0", IbcOrder::Ordered, &a).unwrap();
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::UpdateCallbackAddress { callback_address: Some(a.clone()) }).unwrap();
    assert_eq!(contract_state(&d).callback_address.unwrap().to_string(), a);
}
''', 'a callback update that names the address of the interchain account', 'the requested callback address is silently ignored')

seed('s72-options-port-blank', 'C23', [(SG, '''        let counterparty_port_id =
            counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into);''', '''        let counterparty_port_id: String =
            counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into);
        let counterparty_port_id = if counterparty_port_id.starts_with(keys::HOST_PORT_ID) {
            keys::HOST_PORT_ID.to_string()
        } else {
            counterparty_port_id
        };''')], '''
#[test]
fn requested_port_is_used() {
    let mut o = opts();
    o.counterparty_port_id = Some("icahost-2".into());
    let mut d = mock_dependencies();
    let m = InstantiateMsg { owner: None, channel_open_init_options: o, send_callbacks_to: None };
    let r = instantiate(d.as_mut(), mock_env(), inf("owner"), m).unwrap();
    #[allow(deprecated)]
    let CosmosMsg::Stargate { value, .. } = r.messages[0].msg.clone() else { panic!() };
    let m = cosmos_sdk_proto::ibc::core::channel::v1::MsgChannelOpenInit::decode(value.as_slice()).unwrap();
    assert_eq!(m.channel.unwrap().counterparty.unwrap().port_id, "icahost-2");
}
''', 'options with a counterparty port that begins with icahost', 'the open-init request names another port')

seed('s73-query-migrated-owner', 'C29', [(C, '''        QueryMsg::Ownership {} => to_json_binary(&cw_ownable::get_ownership(deps.storage)?),''', '''        QueryMsg::Ownership {} => {
            let mut ownership = cw_ownable::get_ownership(deps.storage)?;
            if ownership.pending_expiry.is_none() {
                ownership.pending_owner = None;
            }
            to_json_binary(&ownership)
        }''')], '''
#[test]
fn pending_transfer_is_reported() {
    let mut d = setup(false);
    let m = ExecuteMsg::UpdateOwnership(cw_ownable::Action::TransferOwnership { new_owner: who("next").to_string(), expiry: None });
    execute(d.as_mut(), mock_env(), inf("owner"), m).unwrap();
    let o: cw_ownable::Ownership<Addr> = from_json(query(d.as_ref(), mock_env(), QueryMsg::Ownership {}).unwrap()).unwrap();
    assert_eq!(o.pending_owner, Some(who("next")));
}
''', 'an ownership transfer that never expires, before it is accepted', 'the query hides the pending owner')

seed('s74-reply-first-wins', 'C14', [(C, '''                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;''', '''                if !state::PENDING_QUERIES.has(deps.storage, (&channel_id, sequence)) && sequence > 0 {
                    state::PENDING_QUERIES.save(
                        deps.storage,
                        (&channel_id, sequence),
                        &query_paths,
                    )?;
                }''')], '''
#[test]
fn the_latest_send_is_pending() {
    let mut d = opened(true, IbcOrder::Ordered);
    // a channel with the same id on a chain that was restarted: an entry that was never settled
    state::PENDING_QUERIES.save(d.as_mut().storage, ("channel-0", 1), &vec![]).unwrap();
    do_send(&mut d, send(vec![], vec![balance_q()], None, None));
    do_reply(&mut d, 1);
    assert_eq!(state::PENDING_QUERIES.load(d.as_ref().storage, ("channel-0", 1)).unwrap().len(), 1);
}
''', 'an entry that already exists under the key of the packet', 'the paths of the packet are not remembered')

seed('s75-confirm-conflated', 'C38', [(H, '''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel != channel {
            return Err(ContractError::InvalidChannelInContractState);
        }
        if !channel_state.is_open() {
            return Err(ContractError::InvalidChannelStatus {
                expected: state::ChannelStatus::Open.to_string(),
                actual: channel_state.channel_status.to_string(),
            });
        }
''', '''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel != channel || !channel_state.is_open() {
            return Err(ContractError::InvalidChannelInContractState);
        }
''')], '''
#[test]
fn second_confirm_names_the_status() {
    let mut d = opened(false, IbcOrder::Ordered);
    let c = channel(&d).channel;
    ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseConfirm { channel: c.clone() }).unwrap();
    let e = ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseConfirm { channel: c }).unwrap_err().to_string();
    assert_eq!(e, "invalid channel status: expected STATE_OPEN, got STATE_CLOSED");
}
''', 'a close-confirm of the recorded channel after it is already closed', 'the error says that it is another channel')

seed('s76-options-lost-connection', 'C38', [(MD, '''        let options = CHANNEL_OPEN_INIT_OPTIONS.load(deps.storage)?;
        if options.connection_id != channel.connection_id {
            return Err(ContractError::InvalidConnection);
        }
''', '''        let options = CHANNEL_OPEN_INIT_OPTIONS
            .load(deps.storage)
            .ok()
            .filter(|options| options.connection_id == channel.connection_id)
            .ok_or(ContractError::InvalidConnection)?;
''')], '''
#[test]
fn missing_options_are_not_a_wrong_connection() {
    let mut d = setup(false);
    state::CHANNEL_OPEN_INIT_OPTIONS.remove(d.as_mut().storage);
    let e = ibc_channel_open(d.as_mut(), mock_env(), IbcChannelOpenMsg::OpenInit { channel: chan("channel-0", IbcOrder::Ordered, "") }).unwrap_err().to_string();
    assert!(!e.contains("invalid connection"), "{e}");
    let mut d = setup(false);
    let mut c = chan("channel-0", IbcOrder::Ordered, "");
    c.connection_id = "connection-7".into();
    let e = ibc_channel_open(d.as_mut(), mock_env(), IbcChannelOpenMsg::OpenInit { channel: c }).unwrap_err().to_string();
    assert_eq!(e, "invalid connection");
}
''', 'an open-init without a version after the options were lost', 'a missing option set is reported as a wrong connection')

seed('s77-tx-type-quoted-wrong', 'C38', [(MD, '''            return Err(ContractError::UnsupportedTxType(self.tx_type.clone()));''', '''            return Err(ContractError::UnsupportedTxType(self.version.clone()));''')], '''
#[test]
fn tx_type_is_quoted() {
    let mut d = setup(false);
    let v = meta("").replace("sdk_multi_msg", "other_tx");
    let e = ibc_channel_open(d.as_mut(), mock_env(), IbcChannelOpenMsg::OpenInit { channel: chan("channel-0", IbcOrder::Ordered, &v) }).unwrap_err().to_string();
    assert_eq!(e, "unsupported transaction type other_tx");
}
''', 'a handshake whose transaction type is not supported', 'the error quotes the version instead of the transaction type')

seed('s78-ownership-refund', 'C39', [(C, '''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;

        Ok(Response::default())
''', '''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;

        // the message is not payable: give back what was attached
        let refund = info.funds.first().map(|_| cosmwasm_std::BankMsg::Send {
            to_address: info.sender.to_string(),
            amount: info.funds.clone(),
        });
        Ok(Response::default().add_messages(refund))
''')], '''
#[test]
fn ownership_updates_move_no_funds() {
    let mut d = setup(false);
    let m = ExecuteMsg::UpdateOwnership(cw_ownable::Action::TransferOwnership { new_owner: who("next").to_string(), expiry: None });
    let r = execute(d.as_mut(), mock_env(), message_info(&who("owner"), &coins(5, "stake")), m).unwrap();
    assert!(r.messages.is_empty());
}
''', 'an ownership update with attached funds', 'the call sends a bank message')

seed('s79-send-returns-data', 'C39', [(C, '''        let has_queries = !queries.is_empty();

''', '''        let has_queries = !queries.is_empty();
        let note = packet_memo.clone().filter(|_| timeout_seconds.is_some());

'''), (C, '''        Ok(Response::default().add_submessage(send_packet_submsg))''', '''        let mut response = Response::default().add_submessage(send_packet_submsg);
        response.data = note.map(|memo| memo.into_bytes().into());
        Ok(response)''')], '''
#[test]
fn a_send_returns_no_data() {
    let mut d = opened(false, IbcOrder::Ordered);
    let r = do_send(&mut d, send(vec![], vec![balance_q()], Some("memo"), Some(30)));
    assert!(r.data.is_none());
}
''', 'a send with both a memo and a timeout', "the contract answers with response data, which replaces a caller contract's own")

seed('s80-account-dropped-on-close', 'C40', [(H, '''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
''', '''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        let mut contract_state = state::STATE.load(deps.storage)?;
        if channel.order == cosmwasm_std::IbcOrder::Unordered {
            contract_state.delete_ica_info();
            state::STATE.save(deps.storage, &contract_state)?;
        }

''')], '''
#[test]
fn account_survives_a_close() {
    let mut d = opened(false, IbcOrder::Unordered);
    let c = channel(&d).channel;
    ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseConfirm { channel: c }).unwrap();
    assert_eq!(contract_state(&d).ica_info.unwrap().channel_id, channel(&d).channel.endpoint.channel_id);
}
''', 'a close-confirm of an unordered channel', 'the recorded channel has no account any more, so the address of the account is forgotten')

seed('s81-close-newest-channel', 'C40', [(H, '''        channel.version = counterparty_version;

        // Save the channel state
''', '''        channel.version = counterparty_version;
        if let Ok(mut previous) = state::CHANNEL_STATE.load(deps.storage) {
            // keep the first channel as the reference of the account
            previous.channel_status = state::ChannelStatus::Open;
            if previous.channel.version == channel.version {
                channel.endpoint.channel_id = previous.channel.endpoint.channel_id;
            }
        }

        // Save the channel state
''')], '''
#[test]
fn the_new_channel_is_recorded() {
    let mut d = opened(false, IbcOrder::Ordered);
    let c = channel(&d).channel;
    ibc_channel_close(d.as_mut(), mock_env(), IbcChannelCloseMsg::CloseConfirm { channel: c }).unwrap();
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).unwrap();
    assert!(open_init(&mut d, "channel-5", IbcOrder::Ordered, &meta("")));
    open_ack(&mut d, "channel-5", IbcOrder::Ordered, "ica0").unwrap();
    assert_eq!(channel(&d).channel.endpoint.channel_id, "channel-5");
    assert_eq!(contract_state(&d).ica_info.unwrap().channel_id, "channel-5");
}
''', 'a channel re-opened for the same account with the same version', 'the recorded channel is the old one while packets go to the new one')

DV = 'derive/src/lib.rs'
PRE_DV = '''use cosmwasm_schema::cw_serde;
use cosmwasm_std::{from_json, to_json_vec, Binary, CosmosMsg, WasmMsg};
use cw_ica_controller::types::callbacks::IcaControllerCallbackMsg;
use cw_ica_controller_derive::ica_callback_execute;
'''

seed('s82-macro-merges-by-prefix', 'C28', [(DV, '''        variants.extend(to_add);

        quote! { #left }.into()''', '''        // an enum that already takes the callback is left as it is
        let taken = |name: &str| {
            variants
                .iter()
                .any(|own| name.starts_with(&own.ident.to_string()))
        };
        let missing: Vec<_> = to_add
            .into_iter()
            .filter(|new| !taken(&new.ident.to_string()))
            .collect();
        variants.extend(missing);

        quote! { #left }.into()''')], '''
/// a cw20 receiver that also takes callbacks
#[ica_callback_execute]
#[cw_serde]
pub enum ExecuteMsg {
    Receive { sender: String, amount: String, msg: Binary },
    Other {},
}

#[test]
fn callbacks_reach_a_cw20_receiver() {
    let msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {
        original_packet: cosmwasm_std::IbcPacket::new(
            b"x",
            cosmwasm_std::IbcEndpoint { port_id: "p".into(), channel_id: "c".into() },
            cosmwasm_std::IbcEndpoint { port_id: "q".into(), channel_id: "d".into() },
            1,
            cosmwasm_std::IbcTimeout::with_timestamp(cosmwasm_std::Timestamp::from_seconds(1)),
        ),
        relayer: cosmwasm_std::Addr::unchecked("r"),
    };
    let sent = match msg.into_cosmos_msg::<cosmwasm_std::Empty>("receiver").unwrap() {
        CosmosMsg::Wasm(WasmMsg::Execute { msg, .. }) => msg,
        other => panic!("{other:?}"),
    };
    let got: ExecuteMsg = from_json(&sent).unwrap();
    assert!(to_json_vec(&got).unwrap().starts_with(br#"{"receive_ica_callback":"#));
}
''', 'a receiver with a variant whose name is a prefix of ReceiveIcaCallback (cw20 Receive)', 'the receiver contract has no variant for callbacks, so every callback to it fails', prelude=PRE_DV, sh='demo-derive.sh')

seed('s83-query-packets-keep-the-channel', 'C10', [(R, '''        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
    }

    ibc_packet_timeout''', '''        if !state::PENDING_QUERIES.has(deps.storage, (&msg.packet.src.channel_id, msg.packet.sequence)) {
            channel_state.close();
        }
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
    }

    ibc_packet_timeout''')], '''
#[test]
fn any_timeout_closes_an_ordered_channel() {
    let mut d = opened(true, IbcOrder::Ordered);
    do_send(&mut d, send(vec![], vec![balance_q()], None, None));
    do_reply(&mut d, 1);
    do_timeout(&mut d, "channel-0", 1);
    assert!(!channel(&d).is_open());
}
''', 'the timeout of a packet that carries queries, on an ordered channel', 'the channel stays recorded as open although the chain closed it')

seed('s84-callback-stored-under-new-name', 'C27', [(ST, '''        #[serde(default)]
        pub callback_address''', '''        #[serde(default, rename = "send_callbacks_to")]
        pub callback_address''')], '''
#[test]
fn callback_address_survives_the_upgrade() {
    let mut d = setup(false);
    let old = format!(r#"{{"ica_info":null,"callback_address":"{}"}}"#, who("cb"));
    d.as_mut().storage.set(b"state", old.as_bytes());
    assert_eq!(state::STATE.load(d.as_ref().storage).unwrap().callback_address, Some(who("cb")));
}
''', 'a contract instantiated by an earlier release and then upgraded', 'the callback contract is silently forgotten by the upgrade')

seed('s85-helper-keeps-admin', 'C31', [(HP, '''            label: label.into(),
            admin: admin.map(Into::into),
            salt:''', '''            label: label.into(),
            admin: admin
                .map(Into::into)
                .or_else(|| Some(env.contract.address.to_string())),
            salt:''')], '''
use cw_ica_controller::helpers::CwIcaControllerCode;
#[test]
fn no_admin_means_no_admin() {
    let mut d = mock_dependencies();
    d.querier.update_wasm(|_| SystemResult::Ok(ContractResult::Ok(to_json_binary(&CodeInfoResponse::new(1, who("x"), Checksum::generate(b"c"))).unwrap())));
    let mut env = mock_env();
    env.contract.address = who("me");
    let m = || InstantiateMsg { owner: None, channel_open_init_options: opts(), send_callbacks_to: None };
    let q = QuerierWrapper::new(&d.querier);
    for a in [None, Some("boss".to_string())] {
        let (msg, _) = CwIcaControllerCode::new(1).instantiate2(&d.api, &q, &env, m(), "l", a.clone(), "s").unwrap();
        let CosmosMsg::Wasm(WasmMsg::Instantiate2 { admin, .. }) = msg else { panic!() };
        assert_eq!(admin, a);
    }
}
''', 'a contract that instantiates a controller without an admin through the helper', 'the controller can be migrated by the instantiating contract')

seed('s86-null-messages', 'C34', [(MS, '''        #[serde_as(deserialize_as = "serde_with::DefaultOnNull")]
        messages''', '''        messages''')], '''
#[test]
fn null_messages_are_no_messages() {
    let m: ExecuteMsg = from_json(br#"{"send_cosmos_msgs":{"messages":null,"queries":null}}"#).unwrap();
    assert_eq!(m, send(vec![], vec![], None, None));
}
''', 'a client that encodes an empty list of messages as null', 'messages the released contract accepts are refused')

seed('s87-wrapped-version-refused', 'C35', [(MD, '''            if let Ok(previous_metadata) = serde_json_wasm::from_str(&channel_state.channel.version)
            {
                return Ok(previous_metadata);
            }
''', '''            if !channel_state.channel.version.is_empty() {
                return serde_json_wasm::from_str(&channel_state.channel.version)
                    .map_err(|_| ContractError::UnknownDataType(channel_state.channel.version));
            }
''')], '''
#[test]
fn a_wrapped_version_does_not_block_reopening() {
    let mut d = opened(false, IbcOrder::Ordered);
    do_timeout(&mut d, "channel-0", 1);
    let mut c = channel(&d);
    c.channel.version = r#"{"fee_version":"ics29-1","app_version":"x"}"#.into();
    state::CHANNEL_STATE.save(d.as_mut().storage, &c).unwrap();
    execute(d.as_mut(), mock_env(), inf("owner"), ExecuteMsg::CreateChannel { channel_open_init_options: None }).unwrap();
    assert!(open_init(&mut d, "channel-1", IbcOrder::Ordered, ""));
}
''', 'reopening without a version after a channel whose version was wrapped by the fee middleware', 'the valid handshake is refused for ever')

seed('s88-index-from-the-end', 'C36', [(PK, '''tx_msg_data.msg_responses.get(index).ok_or_else''', '''tx_msg_data.msg_responses.iter().rev().nth(index).ok_or_else''')], '''
#[test]
fn index_counts_from_the_first_response() {
    let one = |h| cosmos_sdk_proto::Any { type_url: "x".into(), value: query_msg::proto::MsgModuleQuerySafeResponse { height: h, responses: vec![] }.encode_to_vec() };
    let t = cosmos_sdk_proto::cosmos::base::abci::v1beta1::TxMsgData { data: vec![], msg_responses: vec![one(5), one(6)] };
    let a = Ack::Result(t.encode_to_vec().into());
    assert_eq!(a.decode_module_query_safe_resp(0).unwrap().height, 5);
    assert_eq!(a.decode_module_query_safe_resp(1).unwrap().height, 6);
}
''', 'an acknowledgement with several message responses', 'a caller is given the response of another message')

seed('s89-same-version-migrates', 'C26', [(C, '''        if prev_version >= version {''', '''        if prev_version.cmp_precedence(&version) == std::cmp::Ordering::Greater {''')], '''
#[test]
fn same_version_is_refused() {
    let mut d = setup(false);
    assert!(migrate(d.as_mut(), mock_env(), MigrateMsg {}).is_err());
}
''', 'a migration to the version already installed', 'migrations that do not move forward are accepted')

seed('s90-empty-error-no-result', 'C15', [(R, '''            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));''', '''            .filter(|_| !err.is_empty())
            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));''')], '''
#[test]
fn failed_queries_are_reported() {
    for e in ["boom", ""] {
        let mut d = opened(true, IbcOrder::Unordered);
        do_send(&mut d, send(vec![], vec![balance_q()], None, None));
        do_reply(&mut d, 1);
        let r = do_ack(&mut d, "channel-0", 1, &Ack::Error(e.into())).unwrap();
        assert_eq!(result_of(&r), Some(IcaQueryResult::Error(e.into())));
    }
}
''', 'an error acknowledgement with an empty message for a packet with queries', 'the callback does not learn that its queries failed')

seed('s91-removal-never-runs', 'C14', [(R, '''        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));

        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {''', '''        let _ = [packet.sequence].iter().map(|sequence| {
            state::PENDING_QUERIES.remove(&mut *deps.storage, (&packet.src.channel_id, *sequence));
        });

        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {''')], '''
#[test]
fn timeout_forgets_the_queries() {
    let mut d = opened(true, IbcOrder::Unordered);
    do_send(&mut d, send(vec![], vec![balance_q()], None, None));
    do_reply(&mut d, 1);
    assert!(pending(&d, "channel-0", 1));
    do_timeout(&mut d, "channel-0", 1);
    assert!(!pending(&d, "channel-0", 1));
}
''', 'the timeout of a packet that carries queries', 'its queries stay pending for ever: the removal sits in an iterator nobody drives')

seed('s92-commission-capped', 'C21', [(QM, '''            Decimal::from_str(&commission_rates.rate)?,
''', '''            Decimal::from_str(&commission_rates.rate)?
                .min(Decimal::from_str(&commission_rates.max_rate)?),
''')], '''
#[test]
fn commission_is_the_hosts() {
    use cosmos_sdk_proto::cosmos::staking::v1beta1::*;
    let v = Validator { operator_address: "v".into(), commission: Some(Commission { commission_rates: Some(CommissionRates { rate: "0.3".into(), max_rate: "0.2".into(), max_change_rate: "0.1".into() }), ..Default::default() }), ..Default::default() };
    let r = QueryValidatorResponse { validator: Some(v) }.encode_to_vec();
    let x = query_msg::from_protobuf::response(query_msg::constants::VALIDATOR, &r, false).unwrap();
    assert!(to_json_string(&x).unwrap().contains("0.3"));
}
''', 'a validator whose commission exceeds its maximum', 'the callback is told another commission than the host answered')
