"""Edits that keep the behaviour: the checks have to stay quiet on every one of them."""
REL, HS, CT, MD, PK, ST = ('src/ibc/relay.rs', 'src/ibc/handshake.rs', 'src/contract.rs', 'src/ibc/types/metadata.rs',
                           'src/ibc/types/packet.rs', 'src/types/state.rs')
QM, CM, SG, EV, CB, HP, MS = ('src/types/query_msg.rs', 'src/types/cosmos_msg.rs', 'src/ibc/types/stargate.rs',
                              'src/ibc/types/events.rs', 'src/types/callbacks.rs', 'src/helpers.rs', 'src/types/msg.rs')
R = {}

# ---------------------------------------------------------------- relay
R['relay-take-helper'] = [
    (REL, """            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));

        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
""", """            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));
        forget(deps.storage, &packet);
"""),
    (REL, """            .transpose()?;

        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
""", """            .transpose()?;
        forget(deps.storage, &packet);
"""),
    (REL, """    /// Handles the unsuccessful acknowledgement of an ica packet.""", """    fn forget(storage: &mut dyn cosmwasm_std::Storage, packet: &IbcPacket) {
        let key = (packet.src.channel_id.as_str(), packet.sequence);
        state::PENDING_QUERIES.remove(storage, key);
    }

    /// Handles the unsuccessful acknowledgement of an ica packet."""),
]
R['relay-mut-response'] = [
    (REL, """            Ok(IbcBasicResponse::default()
                .add_message(callback_msg)
                .add_event(success_event))
        } else {
            Ok(IbcBasicResponse::default().add_event(success_event))
        }""", """            response = response.add_message(callback_msg);
        }
        Ok(response.add_event(success_event))"""),
    (REL, """        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {
            let""", """        let mut response = IbcBasicResponse::new();
        let contract = state::STATE.load(deps.storage)?;
        if let Some(contract_addr) = contract.callback_address {
            let"""),
]
R['relay-match-query-result'] = [
    (REL, """        let query_result = state::PENDING_QUERIES
            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
            .map(
                |paths| -> Result<query_msg::IcaQueryResult, ContractError> {
                    let resp_msg =
                        ica_acknowledgement.decode_module_query_safe_resp_last_index()?;
                    Ok(query_msg::result_from_response(paths, &resp_msg))
                },
            )
            .transpose()?;

        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
""", """        let key = (packet.src.channel_id.as_str(), packet.sequence);
        let query_result = match state::PENDING_QUERIES.may_load(deps.storage, key)? {
            Some(paths) => {
                state::PENDING_QUERIES.remove(deps.storage, key);
                let resp_msg = ica_acknowledgement.decode_module_query_safe_resp_last_index()?;
                Some(query_msg::result_from_response(paths, &resp_msg))
            }
            None => None,
        };
"""),
]
R['relay-timeout-early'] = [
    (REL, """    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
    if channel_state.is_ordered()
        && channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id
    {
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
    }
""", """    let channel_state = state::CHANNEL_STATE.load(deps.storage)?;
    let same = channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id;
    if !same || !channel_state.is_ordered() {
        return ibc_packet_timeout::callback(deps, msg.packet, msg.relayer);
    }
    let closed = ChannelState {
        channel_status: state::ChannelStatus::Closed,
        ..channel_state
    };
    state::CHANNEL_STATE.save(deps.storage, &closed)?;
"""),
    (REL, "use crate::types::{query_msg, state, ContractError};", "use crate::types::state::ChannelState;\nuse crate::types::{query_msg, state, ContractError};"),
]
R['relay-timeout-update'] = [
    (REL, """    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
    if channel_state.is_ordered()
        && channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id
    {
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
    }
""", """    state::CHANNEL_STATE.update(deps.storage, |mut channel_state| -> Result<_, ContractError> {
        if channel_state.is_ordered()
            && channel_state.channel.endpoint.channel_id == msg.packet.src.channel_id
        {
            channel_state.close();
        }
        Ok(channel_state)
    })?;
"""),
]
R['relay-callback-map'] = [
    (REL, """        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                original_packet: packet,
                relayer,
            }
            .into_cosmos_msg(contract_addr)?;

            Ok(IbcBasicResponse::default().add_message(callback_msg))
        } else {
            Ok(IbcBasicResponse::default())
        }""", """        let callback = state
            .callback_address
            .map(|contract_addr| {
                IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                    original_packet: packet,
                    relayer,
                }
                .into_cosmos_msg::<cosmwasm_std::Empty>(contract_addr)
            })
            .transpose()?;

        Ok(IbcBasicResponse::new().add_messages(callback))"""),
]
R['relay-one-handler'] = [
    (REL, """    match from_json(&ack.acknowledgement.data)? {
        AcknowledgementData::Result(res) => {
            ibc_packet_ack::success(deps, ack.original_packet, ack.relayer, res)
        }
        AcknowledgementData::Error(err) => {
            ibc_packet_ack::error(deps, ack.original_packet, ack.relayer, err)
        }
    }""", """    let IbcPacketAckMsg {
        acknowledgement,
        original_packet,
        relayer,
        ..
    } = ack;
    let data: AcknowledgementData = from_json(acknowledgement.data)?;
    match data {
        AcknowledgementData::Error(err) => {
            ibc_packet_ack::error(deps, original_packet, relayer, err)
        }
        AcknowledgementData::Result(res) => {
            ibc_packet_ack::success(deps, original_packet, relayer, res)
        }
    }"""),
]
R['relay-shared-finish'] = [
    (REL, """        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement,
                original_packet: packet,
                relayer,
                query_result,
            }
            .into_cosmos_msg(contract_addr)?;

            Ok(IbcBasicResponse::default()
                .add_message(callback_msg)
                .add_event(success_event))
        } else {
            Ok(IbcBasicResponse::default().add_event(success_event))
        }
    }
""", """        let response = IbcBasicResponse::default().add_event(success_event);
        finish(deps.as_ref(), response, ica_acknowledgement, packet, relayer, query_result)
    }

    fn finish(
        deps: cosmwasm_std::Deps,
        response: IbcBasicResponse,
        ica_acknowledgement: AcknowledgementData,
        original_packet: IbcPacket,
        relayer: Addr,
        query_result: Option<query_msg::IcaQueryResult>,
    ) -> Result<IbcBasicResponse, ContractError> {
        let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address else {
            return Ok(response);
        };
        let callback = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
            ica_acknowledgement,
            original_packet,
            relayer,
            query_result,
        };
        Ok(response.add_message(callback.into_cosmos_msg(contract_addr)?))
    }
"""),
    (REL, """        let state = state::STATE.load(deps.storage)?;
        let error_event""", """        let error_event"""),
    (REL, """        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement: AcknowledgementData::Error(err),
                original_packet: packet,
                relayer,
                query_result,
            }
            .into_cosmos_msg(contract_addr)?;

            Ok(IbcBasicResponse::default()
                .add_message(callback_msg)
                .add_event(error_event))
        } else {
            Ok(IbcBasicResponse::default().add_event(error_event))
        }""", """        let response = IbcBasicResponse::default().add_event(error_event);
        let ack = AcknowledgementData::Error(err);
        finish(deps.as_ref(), response, ack, packet, relayer, query_result)"""),
]
# ---------------------------------------------------------------- handshake
R['hs-allow-may-load'] = [
    (HS, """        if !state::ALLOW_CHANNEL_OPEN_INIT
            .load(deps.storage)
            .unwrap_or_default()
        {
            return Err(ContractError::ChannelOpenInitNotAllowed);
        }
""", """        let allowed = matches!(
            state::ALLOW_CHANNEL_OPEN_INIT.may_load(deps.storage),
            Ok(Some(true))
        );
        if !allowed {
            return Err(ContractError::ChannelOpenInitNotAllowed);
        }
"""),
    (HS, """        if !state::ALLOW_CHANNEL_CLOSE_INIT
            .load(deps.storage)
            .unwrap_or_default()
        {
            return Err(ContractError::ChannelCloseInitNotAllowed);
        };
""", """        let allowed = state::ALLOW_CHANNEL_CLOSE_INIT.may_load(deps.storage)?;
        if allowed != Some(true) {
            return Err(ContractError::ChannelCloseInitNotAllowed);
        }
"""),
]
R['hs-reorder'] = [
    (HS, """        // Check if the channel is already exists
        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
            // this contract can only store one active channel
            // if the channel is already open, return an error
            if channel_state.is_open() {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
        // Channel state""", """        // Channel state"""),
    (HS, """        // Validate the host port
        if channel.counterparty_endpoint.port_id""", """        if let Some(true) = state::CHANNEL_STATE
            .may_load(deps.storage)?
            .map(|c| c.is_open())
        {
            return Err(ContractError::ActiveChannelAlreadySet);
        }

        // Validate the host port
        if channel.counterparty_endpoint.port_id"""),
]
R['hs-helpers'] = [
    (HS, """        // Check if the channel is already exists
        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
            // this contract can only store one active channel
            // if the channel is already open, return an error
            if channel_state.is_open() {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
        // Channel state""", """        ensure_inactive(deps.storage)?;
        // Channel state"""),
    (HS, """        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
            if channel_state.is_open() {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
""", """        ensure_inactive(deps.storage)?;
"""),
    (HS, """            serde_json_wasm::from_str(&channel.version).map_err(|_| {
                ContractError::UnknownDataType(
                    "cannot unmarshal ICS-27 interchain accounts metadata".to_string(),
                )
            })?
""", """            parse_metadata(&channel.version)?
"""),
    (HS, """        let metadata: IcaMetadata =
            serde_json_wasm::from_str(&counterparty_version).map_err(|_| {
                ContractError::UnknownDataType(
                    "cannot unmarshal ICS-27 interchain accounts metadata".to_string(),
                )
            })?;
""", """        let metadata = parse_metadata(&counterparty_version)?;
"""),
    (HS, """    /// Handles the `OpenAck` part of the IBC handshake.
    #[allow(clippy::needless_pass_by_value)]
    pub fn on_ack""", """    fn ensure_inactive(storage: &dyn cosmwasm_std::Storage) -> Result<(), ContractError> {
        match state::CHANNEL_STATE.may_load(storage)? {
            Some(current) if current.is_open() => Err(ContractError::ActiveChannelAlreadySet),
            _ => Ok(()),
        }
    }

    fn parse_metadata(version: &str) -> Result<IcaMetadata, ContractError> {
        match serde_json_wasm::from_str(version) {
            Ok(metadata) => Ok(metadata),
            Err(_) => Err(ContractError::UnknownDataType(
                "cannot unmarshal ICS-27 interchain accounts metadata".to_string(),
            )),
        }
    }

    /// Handles the `OpenAck` part of the IBC handshake.
    #[allow(clippy::needless_pass_by_value)]
    pub fn on_ack"""),
]
R['hs-close-shared'] = [
    (HS, """        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel != channel {
            return Err(ContractError::InvalidChannelInContractState);
        }
        if !channel_state.is_open() {
            return Err(ContractError::InvalidChannelStatus {
                expected: state::ChannelStatus::Open.to_string(),
                actual: channel_state.channel_status.to_string(),
            });
        }

        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }

    /// Handles the `ChanCloseConfirm` for the IBC module.
    #[allow(clippy::needless_pass_by_value)]
    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
""", """        confirm(deps, channel)
    }

    /// Handles the `ChanCloseConfirm` for the IBC module.
    #[allow(clippy::needless_pass_by_value)]
    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
"""),
]
R['hs-close-fieldwise'] = [
    (HS, """    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel != channel {
            return Err(ContractError::InvalidChannelInContractState);
        }
        if !channel_state.is_open() {""", """    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        let stored = &channel_state.channel;
        let same = stored.endpoint == channel.endpoint
            && stored.counterparty_endpoint == channel.counterparty_endpoint
            && stored.order == channel.order
            && stored.version == channel.version
            && stored.connection_id == channel.connection_id;
        if !same {
            return Err(ContractError::InvalidChannelInContractState);
        }
        if channel_state.channel_status != state::ChannelStatus::Open {"""),
]
R['hs-ensure'] = [
    (HS, """        if channel.counterparty_endpoint.port_id != keys::HOST_PORT_ID {
            return Err(ContractError::InvalidHostPort);
        }""", """        cosmwasm_std::ensure_eq!(
            channel.counterparty_endpoint.port_id,
            keys::HOST_PORT_ID,
            ContractError::InvalidHostPort
        );"""),
    (HS, """        if metadata.address.is_empty() {
            return Err(ContractError::InvalidIcaAddress);
        }""", """        cosmwasm_std::ensure!(
            !metadata.address.is_empty(),
            ContractError::InvalidIcaAddress
        );"""),
    (HS, """        if channel.endpoint.port_id == keys::HOST_PORT_ID {
            return Err(ContractError::InvalidControllerPort);
        }""", """        cosmwasm_std::ensure_ne!(
            channel.endpoint.port_id,
            keys::HOST_PORT_ID,
            ContractError::InvalidControllerPort
        );"""),
]
R['hs-ack-order'] = [
    (HS, """        let mut state = state::STATE.load(deps.storage)?;

        // portID""", """        // portID"""),
    (HS, """        // update state with the ica info
        state.set_ica_info(
            &metadata.address,
            &channel.endpoint.channel_id,
            metadata.encoding.clone(),
        );
        state::STATE.save(deps.storage, &state)?;

        channel.version = counterparty_version;

        // Save the channel state
        state::CHANNEL_STATE.save(
            deps.storage,
            &ChannelState::new_open_channel(channel.clone()),
        )?;
""", """        channel.version = counterparty_version;
        let opened = ChannelState::new_open_channel(channel);
        state::CHANNEL_STATE.save(deps.storage, &opened)?;
        let channel = opened.channel;

        let state = state::STATE.update(deps.storage, |mut s| -> Result<_, ContractError> {
            s.set_ica_info(
                metadata.address.clone(),
                channel.endpoint.channel_id.clone(),
                metadata.encoding.clone(),
            );
            Ok(s)
        })?;
"""),
]
R['md-address-loop'] = [
    (MD, """    if address.len() > DEFAULT_MAX_LENGTH || !address.chars().all(char::is_alphanumeric) {
        return Err(ContractError::InvalidIcaAddress);
    }
    Ok(())""", """    if address.len() > DEFAULT_MAX_LENGTH {
        return Err(ContractError::InvalidIcaAddress);
    }
    for c in address.chars() {
        if !c.is_alphanumeric() {
            return Err(ContractError::InvalidIcaAddress);
        }
    }
    Ok(())"""),
]
R['md-address-any'] = [
    (MD, """    if address.len() > DEFAULT_MAX_LENGTH || !address.chars().all(char::is_alphanumeric) {
        return Err(ContractError::InvalidIcaAddress);
    }
    Ok(())""", """    let too_long = address.len() >= DEFAULT_MAX_LENGTH + 1;
    let bad_char = address.chars().any(|c| !c.is_alphanumeric());
    match too_long || bad_char {
        true => Err(ContractError::InvalidIcaAddress),
        false => Ok(()),
    }"""),
]
R['md-address-ascii'] = [
    (MD, """!address.chars().all(char::is_alphanumeric)""", """address.chars().find(|c| !c.is_alphanumeric()).is_some()"""),
]
R['md-validate-match'] = [
    (MD, """        if !matches!(self.encoding, TxEncoding::Protobuf) {
            return Err(ContractError::UnsupportedPacketEncoding(
                self.encoding.to_string(),
            ));
        }""", """        match self.encoding {
            TxEncoding::Protobuf => {}
            TxEncoding::Proto3Json => {
                return Err(ContractError::UnsupportedPacketEncoding(
                    self.encoding.to_string(),
                ))
            }
        }"""),
    (MD, """        if !self.address.is_empty() {
            validate_ica_address(&self.address)?;
        }
        if self.tx_type != "sdk_multi_msg" {
            return Err(ContractError::UnsupportedTxType(self.tx_type.clone()));
        }
        Ok(())""", """        if self.tx_type.as_str() != "sdk_multi_msg" {
            return Err(ContractError::UnsupportedTxType(self.tx_type.clone()));
        }
        if self.address.is_empty() {
            return Ok(());
        }
        validate_ica_address(&self.address)"""),
    (MD, """        if self.version != ICA_VERSION {""", """        let version_ok = self.version.eq(ICA_VERSION);
        if !version_ok {"""),
]
R['md-from-channel'] = [
    (MD, """        if let Ok(channel_state) = CHANNEL_STATE.load(deps.storage) {
            if let Ok(previous_metadata) = serde_json_wasm::from_str(&channel_state.channel.version)
            {
                return Ok(previous_metadata);
            }
        }
""", """        let previous = CHANNEL_STATE
            .load(deps.storage)
            .ok()
            .and_then(|c| serde_json_wasm::from_str::<Self>(&c.channel.version).ok());
        if let Some(metadata) = previous {
            return Ok(metadata);
        }
"""),
]
# ---------------------------------------------------------------- contract
R['ct-auth-first'] = [
    (CT, """    match msg {
        ExecuteMsg::CreateChannel {
            channel_open_init_options,
        } => execute::""", """    if !matches!(msg, ExecuteMsg::UpdateOwnership(_)) {
        cw_ownable::assert_owner(deps.storage, &info.sender)?;
    }
    match msg {
        ExecuteMsg::CreateChannel {
            channel_open_init_options,
        } => execute::"""),
    (CT, """        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let options = if""", """        let _ = info;

        let options = if"""),
    (CT, """        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let channel_state""", """        let _ = info;
        let channel_state"""),
]
R['ct-auth-helper'] = [
    (CT, """        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let options = if""", """        only_owner(&deps, &info)?;

        let options = if"""),
    (CT, """        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let channel_state""", """        only_owner(&deps, &info)?;

        let channel_state"""),
    (CT, """    /// Submits a [`IbcMsg::CloseChannel`].""", """    fn only_owner(deps: &DepsMut, info: &MessageInfo) -> Result<(), ContractError> {
        if !cw_ownable::is_owner(deps.storage, &info.sender)? {
            return Err(cw_ownable::OwnershipError::NotOwner.into());
        }
        Ok(())
    }

    /// Submits a [`IbcMsg::CloseChannel`]."""),
]
R['ct-options-match'] = [
    (CT, """        let options = if let Some(new_options) = options {
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            new_options
        } else {
            state::CHANNEL_OPEN_INIT_OPTIONS
                .may_load(deps.storage)?
                .ok_or(ContractError::NoChannelInitOptions)?
        };
""", """        if let Some(new_options) = &options {
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, new_options)?;
        }
        let Some(options) = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)? else {
            return Err(ContractError::NoChannelInitOptions);
        };
"""),
]
R['ct-options-destructure'] = [
    (CT, """        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;

        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(
            env.contract.address.to_string(),
            options.connection_id,
            options.counterparty_port_id,
            options.counterparty_connection_id,
            None,
            options.channel_ordering,
        );

        Ok(Response::new().add_message(ica_channel_open_init_msg))""", """        let ChannelOpenInitOptions {
            connection_id,
            counterparty_connection_id,
            counterparty_port_id,
            channel_ordering,
        } = options;
        let message = new_ica_channel_open_init_cosmos_msg(
            env.contract.address,
            connection_id,
            counterparty_port_id,
            counterparty_connection_id,
            None,
            channel_ordering,
        );
        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;

        Ok(Response::default().add_messages(vec![message]))"""),
]
R['ct-send-variants'] = [
    (CT, """        let contract_state = state::STATE.load(deps.storage)?;
        let ica_info = contract_state.get_ica_info()?;
        let has_queries = !queries.is_empty();
""", """        let ica_info = state::STATE.load(deps.storage)?.get_ica_info()?;
        let query_count = queries.len();
"""),
    (CT, """        let send_packet_submsg = if has_queries {
            // TODO: use payload when we switch to cosmwasm_2_0 feature
            SubMsg::reply_on_success(send_packet_msg, keys::reply_ids::SEND_QUERY_PACKET)
        } else {
            SubMsg::new(send_packet_msg)
        };

        Ok(Response::default().add_submessage(send_packet_submsg))""", """        let response = Response::new();
        Ok(match query_count {
            0 => response.add_message(send_packet_msg),
            _ => response.add_submessage(SubMsg::reply_on_success(
                send_packet_msg,
                keys::reply_ids::SEND_QUERY_PACKET,
            )),
        })"""),
]
R['ct-send-count'] = [
    (CT, """        let has_queries = !queries.is_empty();
""", """        let has_queries = queries.len() > 0;
"""),
    (ST, """            self.ica_info
                .as_ref()
                .map_or(Err(ContractError::IcaInfoNotSet), |s| Ok(s.clone()))""", """            self.ica_info.clone().ok_or(ContractError::IcaInfoNotSet)"""),
]
R['ct-callback-update'] = [
    (CT, """        let mut contract_state = state::STATE.load(deps.storage)?;

        contract_state.callback_address = callback_address
            .map(|addr| deps.api.addr_validate(&addr))
            .transpose()?;

        state::STATE.save(deps.storage, &contract_state)?;
""", """        let validated = match callback_address {
            Some(addr) => Some(deps.api.addr_validate(addr.as_str())?),
            None => None,
        };
        state::STATE.update(deps.storage, |s| -> Result<_, ContractError> {
            Ok(state::ContractState {
                callback_address: validated,
                ..s
            })
        })?;
"""),
]
R['ct-ownership-match'] = [
    (CT, """        if action == cw_ownable::Action::RenounceOwnership {
            return Err(ContractError::OwnershipCannotBeRenounced);
        };

        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;

        Ok(Response::default())""", """        match action {
            cw_ownable::Action::RenounceOwnership => {
                Err(ContractError::OwnershipCannotBeRenounced)
            }
            action => {
                cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
                Ok(Response::new())
            }
        }"""),
]
R['ct-reply-if'] = [
    (CT, """    match msg.id {
        keys::reply_ids::SEND_QUERY_PACKET => reply::send_query_packet(deps, env, msg.result),
        _ => Err(ContractError::UnknownReplyId(msg.id)),
    }""", """    if msg.id != keys::reply_ids::SEND_QUERY_PACKET {
        return Err(ContractError::UnknownReplyId(msg.id));
    }
    reply::send_query_packet(deps, env, msg.result)"""),
    (CT, """        match result {
            SubMsgResult::Ok(resp) => {
                #[allow(deprecated)] // TODO: Remove deprecated `.data` field
                let sequence = anybuf::Bufany::deserialize(&resp.data.unwrap_or_default())?
                    .uint64(1)
                    .unwrap();
                let channel_id = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id;
                let query_paths = state::QUERY.load(deps.storage)?;

                state::QUERY.remove(deps.storage);
                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;

                Ok(Response::default())
            }
            SubMsgResult::Err(err) => unreachable!("query packet failed: {err}"),
        }""", """        let resp = match result {
            SubMsgResult::Ok(resp) => resp,
            SubMsgResult::Err(err) => unreachable!("query packet failed: {err}"),
        };
        #[allow(deprecated)]
        let data = resp.data.unwrap_or_default();
        let sequence = anybuf::Bufany::deserialize(&data)?.uint64(1).unwrap();
        let query_paths = state::QUERY.load(deps.storage)?;
        let ica_info = state::STATE.load(deps.storage)?.get_ica_info()?;
        let key = (ica_info.channel_id.as_str(), sequence);

        state::PENDING_QUERIES.save(deps.storage, key, &query_paths)?;
        state::QUERY.remove(deps.storage);

        Ok(Response::default())"""),
]
R['ct-migrate-cmp'] = [
    (CT, """        if prev_version >= version {
            return""", """        if !(version > prev_version) {
            return"""),
    (CT, """            if !matches!(
                ica_info.encoding,
                crate::ibc::types::metadata::TxEncoding::Protobuf
            ) {""", """            if ica_info.encoding != crate::ibc::types::metadata::TxEncoding::Protobuf {"""),
]
R['ct-migrate-ord'] = [
    (CT, """        if prev_version >= version {
            return""", """        if version.cmp(&prev_version) != std::cmp::Ordering::Greater {
            return"""),
    (CT, """        let version: semver::Version = keys::CONTRACT_VERSION.parse()?;
        let prev_version: semver::Version = prev_cw2_version.version.parse()?;
""", """        let prev_version = semver::Version::parse(&prev_cw2_version.version)?;
        let version = semver::Version::parse(keys::CONTRACT_VERSION)?;
"""),
    (CT, """    migrate::validate_semver(deps.as_ref())?;
    migrate::validate_channel_encoding(deps.as_ref())?;
""", """    migrate::validate_channel_encoding(deps.as_ref())?;
    migrate::validate_semver(deps.as_ref())?;
"""),
]
R['ct-instantiate-order'] = [
    (CT, """    cw2::set_contract_version(deps.storage, keys::CONTRACT_NAME, keys::CONTRACT_VERSION)?;

    let owner = msg.owner.unwrap_or_else(|| info.sender.to_string());
    cw_ownable::initialize_owner(deps.storage, deps.api, Some(&owner))?;

    let callback_address = msg
        .send_callbacks_to
        .map(|addr| deps.api.addr_validate(&addr))
        .transpose()?;
""", """    let callback_address = if let Some(addr) = msg.send_callbacks_to {
        Some(deps.api.addr_validate(&addr)?)
    } else {
        None
    };
    let owner = match msg.owner {
        Some(owner) => owner,
        None => info.sender.into_string(),
    };
    cw_ownable::initialize_owner(deps.storage, deps.api, Some(owner.as_str()))?;
    cw2::set_contract_version(deps.storage, keys::CONTRACT_NAME, keys::CONTRACT_VERSION)?;
"""),
]
R['ct-query-inline'] = [
    (CT, """        QueryMsg::GetContractState {} => to_json_binary(&query::state(deps)?),
        QueryMsg::GetChannel {} => to_json_binary(&query::channel(deps)?),
        QueryMsg::Ownership {} => to_json_binary(&cw_ownable::get_ownership(deps.storage)?),
""", """        QueryMsg::Ownership {} => {
            let ownership = cw_ownable::get_ownership(deps.storage)?;
            to_json_binary(&ownership)
        }
        QueryMsg::GetChannel {} => query::channel(deps).and_then(|c| to_json_binary(&c)),
        QueryMsg::GetContractState {} => {
            let s: ContractState = query::state(deps)?;
            to_json_binary(&s)
        }
"""),
]
# ---------------------------------------------------------------- packet
QOLD = """                    let (abci_queries, _paths): (
                        Vec<query_msg::proto::AbciQueryRequest>,
                        Vec<(String, bool)>,
                    ) = queries.into_iter().fold((vec![], vec![]), |mut acc, msg| {
                        let (path, data, is_stargate) = query_msg::query_to_protobuf(msg);

                        acc.1.push((path.clone(), is_stargate));
                        acc.0
                            .push(query_msg::proto::AbciQueryRequest { path, data });

                        acc
                    });
"""
R['pk-query-loop'] = [(PK, QOLD, """                    let mut abci_queries = Vec::with_capacity(queries.len());
                    let mut _paths = Vec::with_capacity(queries.len());
                    for query in queries {
                        let (path, data, is_stargate) = query_msg::query_to_protobuf(query);
                        _paths.push((path.clone(), is_stargate));
                        abci_queries.push(query_msg::proto::AbciQueryRequest { path, data });
                    }
""")]
R['pk-query-unzip'] = [(PK, QOLD, """                    let (abci_queries, _paths): (Vec<_>, Vec<(String, bool)>) = queries
                        .into_iter()
                        .map(|query| {
                            let (path, data, is_stargate) = query_msg::query_to_protobuf(query);
                            let request = query_msg::proto::AbciQueryRequest {
                                path: path.clone(),
                                data,
                            };
                            (request, (path, is_stargate))
                        })
                        .unzip();
""")]
R['pk-query-two-pass'] = [(PK, QOLD, """                    let converted: Vec<_> = queries
                        .into_iter()
                        .map(query_msg::query_to_protobuf)
                        .collect();
                    let _paths: Vec<(String, bool)> = converted
                        .iter()
                        .map(|(path, _, is_stargate)| (path.clone(), *is_stargate))
                        .collect();
                    let abci_queries = converted
                        .into_iter()
                        .map(|(path, data, _)| query_msg::proto::AbciQueryRequest { path, data })
                        .collect();
""")]
MOLD = """                let mut proto_anys = messages
                    .into_iter()
                    .map(|msg| -> StdResult<cosmos_sdk_proto::Any> {
                        convert_to_proto_any(msg, ica_address.to_string())
                            .map_err(|e| StdError::generic_err(e.to_string()))
                    })
                    .collect::<StdResult<Vec<cosmos_sdk_proto::Any>>>()?;
"""
R['pk-msg-loop'] = [(PK, MOLD, """                let mut proto_anys = Vec::with_capacity(messages.len() + 1);
                for msg in messages {
                    let any = convert_to_proto_any(msg, ica_address.to_string())
                        .map_err(|e| StdError::generic_err(e.to_string()))?;
                    proto_anys.push(any);
                }
""")]
R['pk-msg-tryfold'] = [(PK, MOLD, """                let mut proto_anys = messages.into_iter().try_fold(
                    Vec::new(),
                    |mut acc, msg| -> StdResult<Vec<cosmos_sdk_proto::Any>> {
                        acc.push(
                            convert_to_proto_any(msg, ica_address.to_owned())
                                .map_err(|e| StdError::generic_err(e.to_string()))?,
                        );
                        Ok(acc)
                    },
                )?;
""")]
R['pk-msg-helper'] = [(PK, MOLD, """                let mut proto_anys = Self::convert_all(messages, ica_address)?;
"""), (PK, """    /// Creates an [`IbcMsg::SendPacket`] message""", """    #[cfg(feature = "query")]
    fn convert_all(
        messages: Vec<CosmosMsg>,
        ica_address: &str,
    ) -> StdResult<Vec<cosmos_sdk_proto::Any>> {
        let mut out = vec![];
        let mut iter = messages.into_iter();
        while let Some(msg) = iter.next() {
            match convert_to_proto_any(msg, String::from(ica_address)) {
                Ok(any) => out.push(any),
                Err(e) => return Err(StdError::generic_err(e.to_string())),
            }
        }
        Ok(out)
    }

    /// Creates an [`IbcMsg::SendPacket`] message""")]
R['pk-encoding-guard'] = [(PK, """                    #[cfg(feature = "export")]
                    #[allow(clippy::used_underscore_binding)]
                    crate::types::state::QUERY.save(storage, &_paths)?;

                    let query_msg = query_msg::proto::MsgModuleQuerySafe {
                        signer: ica_address.to_string(),
                        requests: abci_queries,
                    };

                    proto_anys.push(cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {
                        StdError::generic_err(format!("failed to convert query msg: {e}"))
                    })?);
""", """                    let query_msg = query_msg::proto::MsgModuleQuerySafe {
                        requests: abci_queries,
                        signer: ica_address.into(),
                    };
                    let any = match cosmos_sdk_proto::Any::from_msg(&query_msg) {
                        Ok(any) => any,
                        Err(e) => {
                            return Err(StdError::generic_err(format!(
                                "failed to convert query msg: {e}"
                            )))
                        }
                    };
                    proto_anys.extend(std::iter::once(any));

                    #[cfg(feature = "export")]
                    #[allow(clippy::used_underscore_binding)]
                    crate::types::state::QUERY.save(storage, &_paths)?;
""")]
R['pk-timeout'] = [(PK, """        let timeout_timestamp = env
            .block
            .time
            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));
        Ok(IbcMsg::SendPacket {
            channel_id: channel_id.into(),
            data: to_json_binary(&self)?,
            timeout: IbcTimeout::with_timestamp(timeout_timestamp),
        })""", """        let seconds = match timeout_seconds {
            Some(seconds) => seconds,
            None => DEFAULT_TIMEOUT_SECONDS,
        };
        let timeout: IbcTimeout = env.block.time.plus_seconds(seconds).into();
        let data = to_json_binary(self)?;
        Ok(IbcMsg::SendPacket {
            channel_id: channel_id.into(),
            data,
            timeout,
        })""")]
LOLD = """            let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {
                StdError::generic_err("no MsgData found at the given index".to_string())
            })?;

            Ok(query_msg::proto::MsgModuleQuerySafeResponse::decode(
                msg_resp.value.as_slice(),
            )?)
        }
    }
"""
R['pk-last-pop'] = [(PK, LOLD, """            let mut responses = tx_msg_data.msg_responses;
            let Some(msg_resp) = responses.pop() else {
                return Err(StdError::generic_err("no MsgData found at the given index").into());
            };
            let decoded =
                query_msg::proto::MsgModuleQuerySafeResponse::decode(&msg_resp.value[..])?;
            Ok(decoded)
        }
    }
""")]
R['pk-last-index'] = [(PK, LOLD, """            if tx_msg_data.msg_responses.is_empty() {
                return Err(StdError::generic_err("no MsgData found at the given index").into());
            }
            let msg_resp = &tx_msg_data.msg_responses[tx_msg_data.msg_responses.len() - 1];

            Ok(query_msg::proto::MsgModuleQuerySafeResponse::decode(
                msg_resp.value.as_slice(),
            )?)
        }
    }
""")]
R['pk-last-iter'] = [(PK, LOLD, """            let msg_resp = tx_msg_data
                .msg_responses
                .into_iter()
                .last()
                .ok_or_else(|| StdError::generic_err("no MsgData found at the given index"))?;

            query_msg::proto::MsgModuleQuerySafeResponse::decode(msg_resp.value.as_slice())
                .map_err(Into::into)
        }
    }
""")]
R['pk-last-checked'] = [(PK, """            let tx_msg_data = self.to_tx_msg_data()?;
            let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {
                StdError::generic_err("no MsgData found at the given index".to_string())
            })?;

            Ok(query_msg::proto::MsgModuleQuerySafeResponse::decode(
                msg_resp.value.as_slice(),
            )?)
        }
    }
""", """            let count = self.to_tx_msg_data()?.msg_responses.len();
            let index = count.checked_sub(1).ok_or_else(|| {
                StdError::generic_err("no MsgData found at the given index".to_string())
            })?;
            self.decode_module_query_safe_resp(index)
        }
    }
""")]
# ---------------------------------------------------------------- queries
ROLD = """    paths
        .into_iter()
        .zip(resp_msg.responses.iter())
        .map(|((path, is_stargate), resp)| from_protobuf::response(&path, resp, is_stargate))
        .collect::<Result<_, _>>()
        .map_or_else(
            |e| IcaQueryResult::Error(e.to_string()),
            |responses| IcaQueryResult::Success {
                height: resp_msg.height,
                responses,
            },
        )
"""
R['qm-result-loop'] = [(QM, ROLD, """    let mut responses = Vec::with_capacity(paths.len());
    for ((path, is_stargate), resp) in paths.iter().zip(&resp_msg.responses) {
        match from_protobuf::response(path, resp, *is_stargate) {
            Ok(response) => responses.push(response),
            Err(e) => return IcaQueryResult::Error(e.to_string()),
        }
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }
""")]
R['qm-result-enumerate'] = [(QM, ROLD, """    let mut responses = vec![];
    for (i, (path, is_stargate)) in paths.into_iter().enumerate() {
        match from_protobuf::response(&path, &resp_msg.responses[i], is_stargate) {
            Ok(response) => responses.push(response),
            Err(e) => return IcaQueryResult::Error(e.to_string()),
        }
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }
""")]
R['qm-result-index'] = [(QM, ROLD, """    let mut responses = vec![];
    for i in 0..paths.len() {
        let (path, is_stargate) = &paths[i];
        match from_protobuf::response(path, &resp_msg.responses[i], *is_stargate) {
            Ok(response) => responses.push(response),
            Err(e) => return IcaQueryResult::Error(e.to_string()),
        }
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }
""")]
R['qm-result-match'] = [(QM, ROLD, """    let converted: Result<Vec<IcaQueryResponse>, crate::types::ContractError> = resp_msg
        .responses
        .iter()
        .zip(paths)
        .map(|(resp, (path, is_stargate))| from_protobuf::response(&path, resp, is_stargate))
        .collect();
    match converted {
        Ok(responses) => IcaQueryResult::Success {
            height: resp_msg.height,
            responses,
        },
        Err(e) => IcaQueryResult::Error(e.to_string()),
    }
""")]
R['qm-response-if'] = [(QM, """        match path {
            x if x.starts_with("/cosmos.bank.v1beta1.Query/") => bank_response(path, resp),
            x if x.starts_with("/cosmwasm.wasm.v1.Query/") => wasm_response(path, resp),
            #[cfg(feature = "staking")]
            x if x.starts_with("/cosmos.staking.v1beta1.Query/") => staking_response(path, resp),
            _ => Err(ContractError::UnknownDataType(path.to_string())),
        }""", """        #[cfg(feature = "staking")]
        if path.starts_with("/cosmos.staking.v1beta1.Query/") {
            return staking_response(path, resp);
        }
        if path.starts_with("/cosmwasm.wasm.v1.Query/") {
            wasm_response(path, resp)
        } else if path.starts_with("/cosmos.bank.v1beta1.Query/") {
            bank_response(path, resp)
        } else {
            Err(ContractError::UnknownDataType(path.to_string()))
        }"""), (QM, """                        resp.balances
                            .into_iter()
                            .map(convert_to_coin)
                            .collect::<StdResult<_>>()?,
                    ),""", """                        {
                            let mut coins = Vec::new();
                            for balance in resp.balances {
                                coins.push(convert_to_coin(balance)?);
                            }
                            coins
                        },
                    ),"""), (QM, """                    if resp.data.is_empty() {
                        None
                    } else {
                        Some(resp.data.into())
                    },""", """                    (!resp.data.is_empty()).then(|| Binary::from(resp.data)),"""),
    (QM, """                            if info.admin.is_empty() {
                                None
                            } else {
                                Some(cosmwasm_std::Addr::unchecked(info.admin))
                            },""", """                            Some(info.admin)
                                .filter(|a| !a.is_empty())
                                .map(cosmwasm_std::Addr::unchecked),""")]
R['qm-delegation-if'] = [(QM, """                        delegation: resp
                            .delegation_response
                            .and_then(|del_resp| {
                                del_resp.delegation.map(|del| -> StdResult<_> {
                                    Ok(Delegation {
                                        delegator: del.delegator_address,
                                        validator: del.validator_address,
                                        amount: convert_to_coin(
                                            del_resp.balance.unwrap_or_default(),
                                        )?,
                                    })
                                })
                            })
                            .transpose()?,
""", """                        delegation: match resp.delegation_response {
                            Some(del_resp) => convert_to_delegation(del_resp)?,
                            None => None,
                        },
"""), (QM, """                        delegations: resp
                            .delegation_responses
                            .into_iter()
                            .filter_map(|del_resp| {
                                del_resp.delegation.map(|del| -> StdResult<_> {
                                    Ok(Delegation {
                                        delegator: del.delegator_address,
                                        validator: del.validator_address,
                                        amount: convert_to_coin(
                                            del_resp.balance.unwrap_or_default(),
                                        )?,
                                    })
                                })
                            })
                            .collect::<StdResult<_>>()?,
""", """                        delegations: resp
                            .delegation_responses
                            .into_iter()
                            .map(convert_to_delegation)
                            .filter_map(StdResult::transpose)
                            .collect::<StdResult<_>>()?,
"""), (QM, """    #[cfg(feature = "staking")]
    fn convert_to_validator(""", """    #[cfg(feature = "staking")]
    fn convert_to_delegation(
        resp: cosmos_sdk_proto::cosmos::staking::v1beta1::DelegationResponse,
    ) -> StdResult<Option<super::Delegation>> {
        let Some(del) = resp.delegation else {
            return Ok(None);
        };
        let amount = convert_to_coin(resp.balance.unwrap_or_default())?;
        Ok(Some(super::Delegation {
            delegator: del.delegator_address,
            validator: del.validator_address,
            amount,
        }))
    }

    #[cfg(feature = "staking")]
    fn convert_to_validator(""")]
R['qm-request-helper'] = [(QM, """            BankQuery::Balance { address, denom } => (
                constants::BALANCE.to_string(),
                QueryBalanceRequest { address, denom }.encode_to_vec(),
                false,
            ),""", """            BankQuery::Balance { address, denom } => {
                request(constants::BALANCE, &QueryBalanceRequest { address, denom })
            }"""), (QM, """            BankQuery::Supply { denom } => (
                constants::SUPPLY.to_string(),
                QuerySupplyOfRequest { denom }.encode_to_vec(),
                false,
            ),""", """            BankQuery::Supply { denom } => {
                request(constants::SUPPLY, &QuerySupplyOfRequest { denom })
            }"""), (QM, """    pub fn wasm(wasm_query: WasmQuery)""", """    fn request(path: &str, message: &impl Message) -> (String, Vec<u8>, bool) {
        (path.to_string(), message.encode_to_vec(), false)
    }

    pub fn wasm(wasm_query: WasmQuery)"""), (QM, """                let pagination = pagination.map(|pagination| PageRequest {
                    key: pagination.key.unwrap_or_default().into(),
                    limit: u64::from(pagination.limit),
                    reverse: pagination.reverse,
                    offset: 0,
                    count_total: false,
                });
""", """                let pagination = match pagination {
                    Some(p) => Some(PageRequest {
                        key: p.key.map(|k| k.to_vec()).unwrap_or_default(),
                        limit: p.limit as u64,
                        reverse: p.reverse,
                        ..Default::default()
                    }),
                    None => None,
                };
""")]
# ---------------------------------------------------------------- messages
R['cm-coin-helper'] = [(CM, """                amount: amount
                    .into_iter()
                    .map(|coin| ProtoCoin {
                        denom: coin.denom,
                        amount: coin.amount.to_string(),
                    })
                    .collect(),
            }),
            _ => panic!("Unsupported BankMsg"),""", """                amount: coins(amount),
            }),
            _ => panic!("Unsupported BankMsg"),"""), (CM, """    pub fn ibc(msg: IbcMsg, sender: String)""", """    fn coin(coin: cosmwasm_std::Coin) -> ProtoCoin {
        let cosmwasm_std::Coin { denom, amount } = coin;
        ProtoCoin {
            amount: amount.to_string(),
            denom,
        }
    }

    fn coins(list: Vec<cosmwasm_std::Coin>) -> Vec<ProtoCoin> {
        let mut out = Vec::with_capacity(list.len());
        for c in list {
            out.push(coin(c));
        }
        out
    }

    pub fn ibc(msg: IbcMsg, sender: String)"""), (CM, """                    depositor: sender,
                    amount: amount
                        .into_iter()
                        .map(|coin| ProtoCoin {
                            denom: coin.denom,
                            amount: coin.amount.to_string(),
                        })
                        .collect(),""", """                    depositor: sender,
                    amount: amount.into_iter().map(coin).collect::<Vec<_>>(),""")]
R['cm-ibc-match'] = [(CM, """                timeout_height: timeout.block().map(|block| Height {
                    revision_number: block.revision,
                    revision_height: block.height,
                }),
                timeout_timestamp: timeout.timestamp().map_or(0, |timestamp| timestamp.nanos()),
                memo: memo.unwrap_or_default(),""", """                timeout_height: match timeout.block() {
                    None => None,
                    Some(block) => Some(Height {
                        revision_height: block.height,
                        revision_number: block.revision,
                    }),
                },
                timeout_timestamp: timeout.timestamp().map(|t| t.nanos()).unwrap_or_default(),
                memo: match memo {
                    Some(memo) => memo,
                    None => String::new(),
                },""")]
R['cm-gov'] = [(CM, """                option: convert_to_proto_vote_option(&option) as i32,
            }),""", """                option: convert_to_proto_vote_option(&option).into(),
            }),"""), (CM, """                let options: Vec<ProtoWeightedVoteOption> = options
                    .into_iter()
                    .map(|weighted_option| -> ProtoWeightedVoteOption {
                        ProtoWeightedVoteOption {
                            weight: weighted_option.weight.to_string(),
                            option: convert_to_proto_vote_option(&weighted_option.option) as i32,
                        }
                    })
                    .collect();
""", """                let mut converted = vec![];
                for weighted in &options {
                    converted.push(ProtoWeightedVoteOption {
                        option: i32::from(convert_to_proto_vote_option(&weighted.option)),
                        weight: weighted.weight.to_string(),
                    });
                }
                let options = converted;
""")]
R['cm-dispatch-order'] = [(CM, """        CosmosMsg::Bank(bank_msg) => convert_to_any::bank(bank_msg, from_address),
        CosmosMsg::Ibc(ibc_msg) => convert_to_any::ibc(ibc_msg, from_address),
        CosmosMsg::Wasm(wasm_msg) => convert_to_any::wasm(wasm_msg, from_address),
        CosmosMsg::Gov(gov_msg) => convert_to_any::gov(gov_msg, from_address),
""", """        CosmosMsg::Gov(gov_msg) => convert_to_any::gov(gov_msg, from_address),
        CosmosMsg::Wasm(wasm_msg) => convert_to_any::wasm(wasm_msg, from_address),
        CosmosMsg::Ibc(ibc_msg) => {
            let sender = from_address;
            convert_to_any::ibc(ibc_msg, sender)
        }
        CosmosMsg::Bank(bank_msg) => convert_to_any::bank(bank_msg, from_address),
"""), (CM, """            value: value.to_vec(),
        }),""", """            value: value.into(),
        }),""")]
# ---------------------------------------------------------------- the rest
R['ev-loop'] = [(EV, """            .add_attributes(attributes::from_packet(packet))
            .add_attribute(attributes::ACK_BASE64, resp.to_base64())""", """            .add_attribute(attributes::SEQUENCE, format!("{}", packet.sequence))
            .add_attribute(attributes::SRC_PORT, &packet.src.port_id)
            .add_attribute(attributes::SRC_CHANNEL, &packet.src.channel_id)
            .add_attributes(vec![(attributes::ACK_BASE64, resp.to_base64())])""")]
R['ev-mut'] = [(EV, """        Event::new(EVENT_TYPE)
            .add_attributes(attributes::from_packet(packet))
            .add_attribute(attributes::ERROR, err)""", """        let mut attrs = attributes::from_packet(packet);
        attrs.push(cosmwasm_std::Attribute::new(attributes::ERROR, err));
        let mut event = Event::new(EVENT_TYPE);
        event = event.add_attributes(attrs);
        event""")]
R['sg-inline'] = [(SG, """        let counterparty_port_id =
            counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into);

        let ordering = ordering.map_or(Order::Ordered, |ordering| match ordering {
            IbcOrder::Ordered => Order::Ordered,
            IbcOrder::Unordered => Order::Unordered,
        });
""", """        let counterparty_port_id = match counterparty_port_id {
            Some(port) => port.into(),
            None => keys::HOST_PORT_ID.to_string(),
        };
        let ordering = if matches!(ordering, Some(IbcOrder::Unordered)) {
            Order::Unordered
        } else {
            Order::Ordered
        };
"""), (SG, """                state: State::Init.into(),
                ordering: ordering.into(),""", """                state: State::Init as i32,
                ordering: ordering as i32,""")]
R['sg-any'] = [(SG, """            format!("wasm.{contract_address}"),""", """            ["wasm.", contract_address.as_str()].concat(),""")]
R['sg-push'] = [(SG, """            format!("wasm.{contract_address}"),""", """            {
                let mut port = String::from("wasm.");
                port.push_str(&contract_address);
                port
            },"""), (SG, """            "sdk_multi_msg".to_string(),""", """            String::from("sdk_multi_msg"),""")]
R['st-methods'] = [(ST, """            matches!(self.channel_status, ChannelStatus::Open)""", """            match self.channel_status {
                ChannelStatus::Open => true,
                ChannelStatus::Uninitialized
                | ChannelStatus::Init
                | ChannelStatus::TryOpen
                | ChannelStatus::Closed
                | ChannelStatus::Flushing
                | ChannelStatus::FlushComplete => false,
            }"""), (ST, """            matches!(self.channel.order, IbcOrder::Ordered)""", """            !matches!(self.channel.order, IbcOrder::Unordered)"""),
    (ST, """            self.ica_info
                .as_ref()
                .map_or(Err(ContractError::IcaInfoNotSet), |s| Ok(s.clone()))""", """            match &self.ica_info {
                Some(info) => Ok(info.to_owned()),
                None => Err(ContractError::IcaInfoNotSet),
            }"""), (ST, """            self.ica_info = Some(IcaInfo::new(ica_address, channel_id, encoding));""", """            self.ica_info.replace(IcaInfo {
                ica_address: ica_address.into(),
                channel_id: channel_id.into(),
                encoding,
            });""")]
R['cb-inline'] = [(CB, """        let msg = ReceiverExecuteMsg::ReceiveIcaCallback(self);
        to_json_binary(&msg)""", """        to_json_binary(&ReceiverExecuteMsg::ReceiveIcaCallback(self))"""), (CB, """        let execute = WasmMsg::Execute {
            contract_addr: contract_addr.into(),
            msg: self.into_json_binary()?,
            funds: vec![],
        };

        Ok(execute.into())""", """        let contract_addr = contract_addr.into();
        let msg = self.into_json_binary()?;
        Ok(CosmosMsg::Wasm(WasmMsg::Execute {
            contract_addr,
            msg,
            funds: Vec::new(),
        }))""")]
R['st-storage-helpers'] = [(ST, """mod contract {
    use crate::ibc""", """/// Sets the flag that allows a channel open init.
///
/// # Errors
///
/// Returns an error if the flag cannot be saved.
pub fn set_allow_open(
    storage: &mut dyn cosmwasm_std::Storage,
    allowed: bool,
) -> cosmwasm_std::StdResult<()> {
    ALLOW_CHANNEL_OPEN_INIT.save(storage, &allowed)
}

mod contract {
    use crate::ibc"""), (HS, """        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;""", """        state::set_allow_open(deps.storage, false)?;"""),
    (CT, """        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;

        let ica""", """        state::set_allow_open(deps.storage, true)?;

        let ica""")]
R['flag-remove'] = [(HS, """        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;""", """        state::ALLOW_CHANNEL_OPEN_INIT.remove(deps.storage);"""),
    (HS, """        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;""", """        state::ALLOW_CHANNEL_CLOSE_INIT.remove(deps.storage);""")]
R['qm-result-while'] = [(QM, ROLD, """    let mut responses = Vec::with_capacity(paths.len());
    let mut i = 0;
    while i < paths.len() {
        let (path, is_stargate) = &paths[i];
        match from_protobuf::response(path, &resp_msg.responses[i], *is_stargate) {
            Ok(response) => responses.push(response),
            Err(e) => return IcaQueryResult::Error(e.to_string()),
        }
        i += 1;
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }
""")]
R['qm-result-while-resp'] = [(QM, ROLD, """    let count = resp_msg.responses.len();
    let mut responses = Vec::with_capacity(count);
    let mut i: usize = 0;
    loop {
        if i >= count {
            break;
        }
        let resp = &resp_msg.responses[i];
        let (path, is_stargate) = &paths[i];
        match from_protobuf::response(path, resp, *is_stargate) {
            Ok(response) => responses.push(response),
            Err(e) => return IcaQueryResult::Error(e.to_string()),
        }
        i = i + 1;
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }
""")]
R['qm-result-get'] = [(QM, ROLD, """    let mut responses = Vec::new();
    for (i, resp) in resp_msg.responses.iter().enumerate() {
        let Some((path, is_stargate)) = paths.get(i) else {
            continue;
        };
        match from_protobuf::response(path, resp, *is_stargate) {
            Ok(response) => responses.push(response),
            Err(e) => return IcaQueryResult::Error(e.to_string()),
        }
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }
""")]
R['qm-result-nextpair'] = [(QM, ROLD, """    let mut responses = Vec::new();
    let mut raw = resp_msg.responses.iter();
    for (path, is_stargate) in paths {
        let Some(resp) = raw.next() else { break };
        match from_protobuf::response(&path, resp, is_stargate) {
            Ok(response) => responses.push(response),
            Err(e) => return IcaQueryResult::Error(e.to_string()),
        }
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }
""")]
BUG = {}  # not behaviour-preserving: have to be reported (engine soundness)
BUG['qm-result-restarted'] = [(QM, ROLD, """    let mut responses = Vec::new();
    for resp in &resp_msg.responses {
        let mut it = paths.iter();
        let Some((path, is_stargate)) = it.next() else { break };
        match from_protobuf::response(path, resp, *is_stargate) {
            Ok(response) => responses.push(response),
            Err(e) => return IcaQueryResult::Error(e.to_string()),
        }
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }
""")]
BUG['qm-result-halfspeed'] = [(QM, ROLD, """    let mut responses = Vec::new();
    let mut raw = resp_msg.responses.iter();
    for (path, is_stargate) in paths {
        let Some(resp) = raw.next() else { break };
        if is_stargate {
            raw.next();
        }
        match from_protobuf::response(&path, resp, is_stargate) {
            Ok(response) => responses.push(response),
            Err(e) => return IcaQueryResult::Error(e.to_string()),
        }
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }
""")]
