"""behaviour-preserving edits, fourth batch: std idioms, closures, conversions, macros, wrappers"""
from refdefs2 import *  # noqa: the file names
R = {}
OWNER = "        cw_ownable::assert_owner(deps.storage, &info.sender)?;\n"
# ---------------------------------------------------------------- contract.rs
R['r4-ct-macro-owner'] = [
    (CT, "    use cosmwasm_std::{Empty, QueryRequest};\n", """    use cosmwasm_std::{Empty, QueryRequest};

    macro_rules! only_owner {
        ($deps:expr, $info:expr) => {
            cw_ownable::assert_owner($deps.storage, &$info.sender)?
        };
    }
"""),
    (CT, "    pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {\n" + OWNER,
     "    pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {\n        only_owner!(deps, info);\n"),
]
R['r4-ct-owner-map-err'] = [
    (CT, "    pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {\n" + OWNER,
     "    pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {\n        if let Err(e) = cw_ownable::assert_owner(deps.storage, &info.sender) {\n            return Err(ContractError::from(e));\n        }\n"),
]
R['r4-ct-owner-and-then'] = [
    (CT, ("    pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {\n" + OWNER, "        state::ALLOW_CHANNEL_CLOSE_INIT"),
     """    pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {
        cw_ownable::assert_owner(deps.storage, &info.sender)?;
        let channel_state = state::CHANNEL_STATE
            .load(deps.storage)
            .map_err(ContractError::from)
            .and_then(|channel_state| {
                if channel_state.is_open() {
                    Ok(channel_state)
                } else {
                    Err(ContractError::InvalidChannelStatus {
                        expected: state::ChannelStatus::Open.to_string(),
                        actual: channel_state.channel_status.to_string(),
                    })
                }
            })?;

"""),
]
R['r4-ct-close-destructure'] = [
    (CT, ("        let channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n        if !channel_state.is_open() {", "    /// Sends an array"),
     """        let state::ChannelState {
            channel,
            channel_status,
        } = state::CHANNEL_STATE.load(deps.storage)?;
        match channel_status {
            state::ChannelStatus::Open => (),
            other => {
                return Err(ContractError::InvalidChannelStatus {
                    expected: state::ChannelStatus::Open.to_string(),
                    actual: other.to_string(),
                })
            }
        }

        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;

        let cosmwasm_std::IbcEndpoint { channel_id, .. } = channel.endpoint;
        let mut response = Response::new();
        response.messages.push(SubMsg::new(IbcMsg::CloseChannel { channel_id }));
        Ok(response)
    }

"""),
]
R['r4-ct-send-closure'] = [
    (CT, ("        let send_packet_submsg = if has_queries {", "        Ok(Response::default().add_submessage(send_packet_submsg))"),
     """        let to_submsg: fn(IbcMsg) -> SubMsg = if has_queries {
            |m| SubMsg::reply_on_success(m, keys::reply_ids::SEND_QUERY_PACKET)
        } else {
            |m| SubMsg::new(m)
        };
        let send_packet_submsg = to_submsg(send_packet_msg);

"""),
]
R['r4-ct-send-fields'] = [
    (CT, ("        let send_packet_submsg = if has_queries {", "        Ok(Response::default().add_submessage(send_packet_submsg))"),
     """        let mut send_packet_submsg: SubMsg = SubMsg::new(send_packet_msg);
        if has_queries {
            send_packet_submsg.reply_on = cosmwasm_std::ReplyOn::Success;
            send_packet_submsg.id = keys::reply_ids::SEND_QUERY_PACKET;
        }

"""),
]
R['r4-ct-send-then'] = [
    (CT, ("        let send_packet_submsg = if has_queries {", "        Ok(Response::default().add_submessage(send_packet_submsg))"),
     """        let reply_id = has_queries.then_some(keys::reply_ids::SEND_QUERY_PACKET);
        let send_packet_submsg = match reply_id {
            Some(id) => SubMsg::reply_on_success(send_packet_msg, id),
            None => SubMsg::new(send_packet_msg),
        };

"""),
]
R['r4-ct-callback-helper'] = [
    (CT, """        contract_state.callback_address = callback_address
            .map(|addr| deps.api.addr_validate(&addr))
            .transpose()?;

        state::STATE.save(deps.storage, &contract_state)?;
""", """        let validated = match callback_address {
            Some(addr) => Some(deps.api.addr_validate(&addr)?),
            None => None,
        };
        let _old = std::mem::replace(&mut contract_state.callback_address, validated);

        state::STATE.save(deps.storage, &contract_state)?;
"""),
]
R['r4-ct-callback-update-item'] = [
    (CT, ("        let mut contract_state = state::STATE.load(deps.storage)?;\n\n        contract_state.callback_address", "        Ok(Response::default())"),
     """        let api = deps.api;
        state::STATE.update(deps.storage, |contract_state| -> Result<_, ContractError> {
            Ok(state::ContractState {
                callback_address: callback_address
                    .as_deref()
                    .map(|addr| api.addr_validate(addr))
                    .transpose()?,
                ..contract_state
            })
        })?;

"""),
]
R['r4-ct-reply-try-block'] = [
    (CT, ("                let sequence = anybuf::Bufany::deserialize(", "                let channel_id = state::STATE"),
     """                let data = resp.data.unwrap_or_default();
                let decoded = anybuf::Bufany::deserialize(data.as_slice())?;
                let sequence = decoded.uint64(1).expect("the sequence number of the packet");
"""),
]
R['r4-ct-reply-fetch'] = [
    (CT, """                let channel_id = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id;
                let query_paths = state::QUERY.load(deps.storage)?;

                state::QUERY.remove(deps.storage);
                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;
""", """                let query_paths = state::QUERY.load(deps.storage)?;
                let state::ContractState { ica_info, .. } = state::STATE.load(deps.storage)?;
                let info = ica_info.ok_or(ContractError::IcaInfoNotSet)?;
                let key = (info.channel_id.as_str(), sequence);

                state::PENDING_QUERIES.save(deps.storage, key, &query_paths)?;
                state::QUERY.remove(deps.storage);
"""),
]
R['r4-ct-migrate-letelse'] = [
    (CT, ("        // Reject the migration if the channel encoding is not protobuf\n", "        Ok(())\n    }\n}\n"),
     """        use crate::ibc::types::metadata::TxEncoding;
        let Some(ica_info) = state::STATE.load(deps.storage)?.ica_info else {
            return Ok(());
        };
        if ica_info.encoding != TxEncoding::Protobuf {
            return Err(ContractError::UnsupportedPacketEncoding(
                ica_info.encoding.to_string(),
            ));
        }
"""),
]
R['r4-ct-migrate-partial-cmp'] = [
    (CT, "        if prev_version >= version {\n", "        if version.cmp(&prev_version) != std::cmp::Ordering::Greater {\n"),
]
R['r4-ct-migrate-tuple'] = [
    (CT, ("        let version: semver::Version = keys::CONTRACT_VERSION.parse()?;\n", "        if prev_version >= version {"),
     """        let (version, prev_version) = (
            semver::Version::parse(keys::CONTRACT_VERSION)?,
            semver::Version::parse(&prev_cw2_version.version)?,
        );
"""),
]
R['r4-ct-ownership-swap'] = [
    (CT, ("        if action == cw_ownable::Action::RenounceOwnership {", "        Ok(Response::default())"),
     """        match action {
            cw_ownable::Action::RenounceOwnership => {
                return Err(ContractError::OwnershipCannotBeRenounced)
            }
            action @ (cw_ownable::Action::TransferOwnership { .. }
            | cw_ownable::Action::AcceptOwnership) => {
                cw_ownable::update_ownership(deps, &env.block, &info.sender, action)
                    .map(|_ownership| ())?;
            }
        }

"""),
]
R['r4-ct-query-match'] = [
    (CT, ("    match msg {\n        QueryMsg::GetContractState {} =>", "/// Migrate contract"),
     """    let answer = match msg {
        QueryMsg::GetContractState {} => query::state(deps).and_then(|s| to_json_binary(&s)),
        QueryMsg::GetChannel {} => query::channel(deps).and_then(|c| to_json_binary(&c)),
        QueryMsg::Ownership {} => {
            let ownership = cw_ownable::get_ownership(deps.storage)?;
            to_json_binary(&ownership)
        }
    }?;
    Ok(answer)
}

"""),
]
R['r4-ct-options-clone-ref'] = [
    (CT, ("        let options = if let Some(new_options) = options {", "        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n\n        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(\n            env.contract.address.to_string(),\n            options."),
     """        if let Some(new_options) = options.as_ref() {
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, new_options)?;
        }
        let options = state::CHANNEL_OPEN_INIT_OPTIONS
            .may_load(deps.storage)?
            .ok_or(ContractError::NoChannelInitOptions)?;

"""),
]
R['r4-ct-options-map-or'] = [
    (CT, ("        let options = if let Some(new_options) = options {", "        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;\n\n        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(\n            env.contract.address.to_string(),\n            options."),
     """        let stored = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)?;
        let given = options.is_some();
        let options = options.or(stored).ok_or(ContractError::NoChannelInitOptions)?;
        if given {
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &options)?;
        }

"""),
]
R['r4-ct-iife'] = [
    (CT, "    migrate::validate_semver(deps.as_ref())?;\n    migrate::validate_channel_encoding(deps.as_ref())?;\n",
     """    let check = || -> Result<(), ContractError> {
        migrate::validate_semver(deps.as_ref())?;
        migrate::validate_channel_encoding(deps.as_ref())
    };
    check()?;
"""),
]
R['r4-ct-checks-array'] = [
    (CT, "    migrate::validate_semver(deps.as_ref())?;\n    migrate::validate_channel_encoding(deps.as_ref())?;\n",
     """    let checks: [fn(Deps) -> Result<(), ContractError>; 2] =
        [migrate::validate_semver, migrate::validate_channel_encoding];
    for check in checks {
        check(deps.as_ref())?;
    }
"""),
]
# ---------------------------------------------------------------- handshake.rs
ACTIVE = """        // Check if the channel is already exists
        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
            // this contract can only store one active channel
            // if the channel is already open, return an error
            if channel_state.is_open() {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
"""
R['r4-hs-is-some-and'] = [
    (HS, ACTIVE, """        let active = state::CHANNEL_STATE
            .may_load(deps.storage)?
            .is_some_and(|channel_state| channel_state.is_open());
        if active {
            return Err(ContractError::ActiveChannelAlreadySet);
        }
"""),
]
R['r4-hs-filter'] = [
    (HS, ACTIVE, """        if state::CHANNEL_STATE
            .may_load(deps.storage)?
            .filter(state::ChannelState::is_open)
            .is_some()
        {
            return Err(ContractError::ActiveChannelAlreadySet);
        }
"""),
]
R['r4-hs-map-or'] = [
    (HS, ACTIVE, """        let channel_state = state::CHANNEL_STATE.may_load(deps.storage)?;
        cosmwasm_std::ensure!(
            channel_state.map_or(true, |c| !c.is_open()),
            ContractError::ActiveChannelAlreadySet
        );
"""),
]
R['r4-hs-nested-guard'] = [
    (HS, ACTIVE, """        match state::CHANNEL_STATE.may_load(deps.storage)? {
            Some(ref channel_state) if channel_state.is_open() => {
                return Err(ContractError::ActiveChannelAlreadySet)
            }
            Some(_) | None => {}
        }
"""),
]
R['r4-hs-version-map'] = [
    (HS, ("        let metadata: IcaMetadata = if channel.version.is_empty() {", "        metadata.validate(&channel)?;\n\n        // Check if the channel"),
     """        let metadata: IcaMetadata = match channel.version.as_str() {
            "" => IcaMetadata::from_channel(deps.as_ref(), &channel),
            version => serde_json_wasm::from_str(version).map_err(|_| {
                ContractError::UnknownDataType(
                    "cannot unmarshal ICS-27 interchain accounts metadata".to_string(),
                )
            }),
        }?;
"""),
]
R['r4-hs-version-len'] = [
    (HS, "if channel.version.is_empty() {", "if channel.version.len() == 0 {"),
]
R['r4-hs-version-eq'] = [
    (HS, "if channel.version.is_empty() {", "if channel.version == String::default() {"),
]
R['r4-hs-open-flag-match'] = [
    (HS, ("        if !state::ALLOW_CHANNEL_OPEN_INIT\n", "        state::ALLOW_CHANNEL_OPEN_INIT.save"),
     """        match state::ALLOW_CHANNEL_OPEN_INIT.load(deps.storage) {
            Ok(true) => {}
            Ok(false) | Err(_) => return Err(ContractError::ChannelOpenInitNotAllowed),
        }

"""),
]
R['r4-hs-flag-generic'] = [
    (HS, ("        if !state::ALLOW_CHANNEL_OPEN_INIT\n", "        // Validate the host port"),
     """        super::consume(
            deps.storage,
            &state::ALLOW_CHANNEL_OPEN_INIT,
            ContractError::ChannelOpenInitNotAllowed,
        )?;

"""),
    (HS, ("        if !state::ALLOW_CHANNEL_CLOSE_INIT\n", "        // Validate that this is the stored channel"),
     """        super::consume(
            deps.storage,
            &state::ALLOW_CHANNEL_CLOSE_INIT,
            ContractError::ChannelCloseInitNotAllowed,
        )?;

"""),
    (HS, "mod ibc_channel_open {\n", """/// Uses up an authorisation.
fn consume(
    storage: &mut dyn cosmwasm_std::Storage,
    flag: &cw_storage_plus::Item<bool>,
    refusal: ContractError,
) -> Result<(), ContractError> {
    let granted = flag.load(storage).unwrap_or(false);
    if granted {
        flag.save(storage, &false)?;
        Ok(())
    } else {
        Err(refusal)
    }
}

mod ibc_channel_open {
"""),
]
R['r4-hs-ack-struct'] = [
    (HS, """        // update state with the ica info
        state.set_ica_info(
            &metadata.address,
            &channel.endpoint.channel_id,
            metadata.encoding.clone(),
        );
        state::STATE.save(deps.storage, &state)?;

        channel.version = counterparty_version;

        // Save the channel state
        state::CHANNEL_STATE.save(
            deps.storage,
            &ChannelState::new_open_channel(channel.clone()),
        )?;
""", """        let IcaMetadata {
            address, encoding, ..
        } = metadata.clone();
        state.set_ica_info(address, channel.endpoint.channel_id.as_str(), encoding);
        channel.version = counterparty_version;
        let opened = ChannelState {
            channel,
            channel_status: state::ChannelStatus::Open,
        };
        state::CHANNEL_STATE.save(deps.storage, &opened)?;
        state::STATE.save(deps.storage, &state)?;
        let channel = opened.channel;
"""),
]
R['r4-hs-ack-mem-replace'] = [
    (HS, "        channel.version = counterparty_version;\n", "        let _proposed = std::mem::replace(&mut channel.version, counterparty_version);\n"),
]
R['r4-hs-close-if-chain'] = [
    (HS, ("    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {\n", "        // Update the channel state"),
     """    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        let matching = channel_state.channel.eq(&channel);
        let open = channel_state.is_open();
        match (matching, open) {
            (true, true) => {}
            (false, _) => return Err(ContractError::InvalidChannelInContractState),
            (true, false) => {
                return Err(ContractError::InvalidChannelStatus {
                    expected: state::ChannelStatus::Open.to_string(),
                    actual: channel_state.channel_status.to_string(),
                })
            }
        }

"""),
]
R['r4-hs-close-method'] = [
    (ST, "        /// Closes the channel\n        pub fn close(&mut self) {\n            self.channel_status = ChannelStatus::Closed;\n        }\n",
     """        /// Closes the channel
        pub fn close(&mut self) {
            let _ = self.set_status(ChannelStatus::Closed);
        }

        fn set_status(&mut self, status: ChannelStatus) -> ChannelStatus {
            std::mem::replace(&mut self.channel_status, status)
        }
"""),
]
R['r4-st-open-eq'] = [
    (ST, "        pub const fn is_open(&self) -> bool {\n            matches!(self.channel_status, ChannelStatus::Open)\n",
     "        pub fn is_open(&self) -> bool {\n            self.channel_status == ChannelStatus::Open\n"),
]
R['r4-st-ica-info-clone'] = [
    (ST, ("            self.ica_info\n                .as_ref()", "        }\n\n        /// Sets the ICA info"),
     """            let Some(info) = &self.ica_info else {
                return Err(ContractError::IcaInfoNotSet);
            };
            Ok(IcaInfo {
                ica_address: info.ica_address.clone(),
                channel_id: info.channel_id.clone(),
                encoding: info.encoding.clone(),
            })
"""),
]
R['r4-st-ica-info-cloned'] = [
    (ST, ("            self.ica_info\n                .as_ref()", "        }\n\n        /// Sets the ICA info"),
     "            self.ica_info.clone().ok_or(ContractError::IcaInfoNotSet)\n"),
]
R['r4-st-set-insert'] = [
    (ST, "            self.ica_info = Some(IcaInfo::new(ica_address, channel_id, encoding));", "            let _ = self.ica_info.insert(IcaInfo::new(ica_address, channel_id, encoding));"),
]
R['r4-st-set-replace'] = [
    (ST, "            self.ica_info = Some(IcaInfo::new(ica_address, channel_id, encoding));", "            self.ica_info.replace(IcaInfo::new(ica_address, channel_id, encoding));"),
]
# ---------------------------------------------------------------- metadata.rs
R['r4-md-address-filter'] = [
    (MD, "    if address.len() > DEFAULT_MAX_LENGTH || !address.chars().all(char::is_alphanumeric) {\n        return Err(ContractError::InvalidIcaAddress);\n    }\n    Ok(())",
     """    let invalid = address.chars().filter(|c| !c.is_alphanumeric()).count();
    if invalid > 0 || address.len() > DEFAULT_MAX_LENGTH {
        Err(ContractError::InvalidIcaAddress)
    } else {
        Ok(())
    }"""),
]
R['r4-md-address-find'] = [
    (MD, "    if address.len() > DEFAULT_MAX_LENGTH || !address.chars().all(char::is_alphanumeric) {\n        return Err(ContractError::InvalidIcaAddress);\n    }\n    Ok(())",
     """    let foreign = address.find(|c: char| !c.is_alphanumeric());
    match foreign {
        None if address.len() <= DEFAULT_MAX_LENGTH => Ok(()),
        _ => Err(ContractError::InvalidIcaAddress),
    }"""),
]
R['r4-md-address-contains'] = [
    (MD, "    if address.len() > DEFAULT_MAX_LENGTH || !address.chars().all(char::is_alphanumeric) {",
     "    if address.len() > DEFAULT_MAX_LENGTH || address.contains(|c: char| !c.is_alphanumeric()) {"),
]
R['r4-md-address-try'] = [
    (MD, "    if address.len() > DEFAULT_MAX_LENGTH || !address.chars().all(char::is_alphanumeric) {\n        return Err(ContractError::InvalidIcaAddress);\n    }\n    Ok(())",
     """    if address.len() > DEFAULT_MAX_LENGTH {
        return Err(ContractError::InvalidIcaAddress);
    }
    address.chars().try_for_each(|c| {
        if c.is_alphanumeric() {
            Ok(())
        } else {
            Err(ContractError::InvalidIcaAddress)
        }
    })"""),
]
R['r4-md-prev-ok-and-then'] = [
    (MD, ("        if let Ok(channel_state) = CHANNEL_STATE.load(deps.storage) {", "        let options = CHANNEL_OPEN_INIT_OPTIONS"),
     """        let previous: Option<Self> = CHANNEL_STATE
            .load(deps.storage)
            .ok()
            .and_then(|channel_state| serde_json_wasm::from_str(&channel_state.channel.version).ok());
        if let Some(metadata) = previous {
            return Ok(metadata);
        }

"""),
]
R['r4-md-prev-map-or-else'] = [
    (MD, ("        if let Ok(channel_state) = CHANNEL_STATE.load(deps.storage) {", "    /// Validates the [`IcaMetadata`]"),
     """        CHANNEL_STATE
            .load(deps.storage)
            .ok()
            .and_then(|state| serde_json_wasm::from_str::<Self>(&state.channel.version).ok())
            .map_or_else(|| Self::from_options(deps, channel), Ok)
    }

    fn from_options(deps: Deps, channel: &IbcChannel) -> Result<Self, ContractError> {
        let options = CHANNEL_OPEN_INIT_OPTIONS.load(deps.storage)?;
        if options.connection_id == channel.connection_id {
            Ok(Self::new(
                ICA_VERSION.to_owned(),
                options.connection_id,
                options.counterparty_connection_id,
                String::new(),
                TxEncoding::Protobuf,
                "sdk_multi_msg".to_owned(),
            ))
        } else {
            Err(ContractError::InvalidConnection)
        }
    }

"""),
]
R['r4-md-validate-chain'] = [
    (MD, ("        if self.version != ICA_VERSION {", "impl std::fmt::Display for IcaMetadata"),
     """        self.check_version()
            .and_then(|()| self.check_connection(channel))
            .and_then(|()| self.check_rest())
    }

    fn check_version(&self) -> Result<(), ContractError> {
        match self.version.as_str() {
            ICA_VERSION => Ok(()),
            actual => Err(ContractError::InvalidVersion {
                expected: ICA_VERSION.to_string(),
                actual: actual.to_string(),
            }),
        }
    }

    fn check_connection(&self, channel: &IbcChannel) -> Result<(), ContractError> {
        (self.controller_connection_id == channel.connection_id)
            .then_some(())
            .ok_or(ContractError::InvalidConnection)
    }

    fn check_rest(&self) -> Result<(), ContractError> {
        match self.encoding {
            TxEncoding::Protobuf => {}
            ref other => return Err(ContractError::UnsupportedPacketEncoding(other.to_string())),
        }
        if !self.address.is_empty() {
            validate_ica_address(&self.address)?;
        }
        match self.tx_type.as_ref() {
            "sdk_multi_msg" => Ok(()),
            other => Err(ContractError::UnsupportedTxType(other.to_string())),
        }
    }
}

"""),
]
R['r4-md-display'] = [
    (MD, "impl std::fmt::Display for IcaMetadata {\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {\n        f.write_str(&serde_json_wasm::to_string(self).unwrap())",
     "impl std::fmt::Display for IcaMetadata {\n    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {\n        let json = serde_json_wasm::to_string(self).map_err(|_| std::fmt::Error)?;\n        write!(f, \"{json}\")"),
]
# ---------------------------------------------------------------- packet.rs
R['r4-pk-scan-enumerate'] = [
    (PK, ("                    let (abci_queries, _paths): (", "                    #[cfg(feature = \"export\")]\n                    #[allow(clippy::used"),
     """                    let mut abci_queries = Vec::with_capacity(queries.len());
                    let mut _paths: Vec<(String, bool)> = Vec::with_capacity(queries.len());
                    queries
                        .into_iter()
                        .map(query_msg::query_to_protobuf)
                        .for_each(|(path, data, is_stargate)| {
                            _paths.push((path.clone(), is_stargate));
                            abci_queries.push(query_msg::proto::AbciQueryRequest { path, data });
                        });

"""),
]
R['r4-pk-converted-vec'] = [
    (PK, ("                    let (abci_queries, _paths): (", "                    #[cfg(feature = \"export\")]\n                    #[allow(clippy::used"),
     """                    let converted: Vec<(String, Vec<u8>, bool)> = queries
                        .into_iter()
                        .map(query_msg::query_to_protobuf)
                        .collect();
                    let _paths: Vec<(String, bool)> = converted
                        .iter()
                        .map(|(path, _, is_stargate)| (path.clone(), *is_stargate))
                        .collect();
                    let abci_queries: Vec<_> = converted
                        .into_iter()
                        .map(|(path, data, _)| query_msg::proto::AbciQueryRequest { path, data })
                        .collect();

"""),
]
R['r4-pk-zip-later'] = [
    (PK, ("                    let (abci_queries, _paths): (", "                    #[cfg(feature = \"export\")]\n                    #[allow(clippy::used"),
     """                    let (paths, rest): (Vec<String>, Vec<(Vec<u8>, bool)>) = queries
                        .into_iter()
                        .map(|q| {
                            let (path, data, is_stargate) = query_msg::query_to_protobuf(q);
                            (path, (data, is_stargate))
                        })
                        .unzip();
                    let _paths: Vec<(String, bool)> = paths
                        .iter()
                        .cloned()
                        .zip(rest.iter().map(|(_, s)| *s))
                        .collect();
                    let abci_queries: Vec<query_msg::proto::AbciQueryRequest> = paths
                        .into_iter()
                        .zip(rest)
                        .map(|(path, (data, _))| query_msg::proto::AbciQueryRequest { path, data })
                        .collect();

"""),
]
R['r4-pk-timeout-or-else'] = [
    (PK, """        let timeout_timestamp = env
            .block
            .time
            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));
""", """        let seconds = match timeout_seconds {
            Some(seconds) => seconds,
            None => DEFAULT_TIMEOUT_SECONDS,
        };
        let timeout_timestamp: cosmwasm_std::Timestamp = env.block.time.plus_seconds(seconds);
"""),
]
R['r4-pk-timeout-into'] = [
    (PK, "            timeout: IbcTimeout::with_timestamp(timeout_timestamp),", "            timeout: timeout_timestamp.into(),"),
]
R['r4-pk-timeout-nanos'] = [
    (PK, """            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));
""", """            .plus_seconds(timeout_seconds.map_or(DEFAULT_TIMEOUT_SECONDS, std::convert::identity));
"""),
]
R['r4-pk-ack-tx-data'] = [
    (PK, """            match self {
                Self::Result(data) => Ok(TxMsgData::decode(data.as_slice())?),
                Self::Error(err) => Err(StdError::generic_err(err))?,
            }
""", """            let data = match self {
                Self::Error(err) => return Err(ContractError::Std(StdError::generic_err(err))),
                Self::Result(data) => data,
            };
            TxMsgData::decode(&data[..]).map_err(ContractError::from)
"""),
]
R['r4-pk-last-rev'] = [
    (PK, "let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {", "let msg_resp = tx_msg_data.msg_responses.iter().next_back().ok_or_else(|| {"),
]
R['r4-pk-last-rev2'] = [
    (PK, "let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {", "let msg_resp = tx_msg_data.msg_responses.iter().rev().next().ok_or_else(|| {"),
]
R['r4-pk-last-slice'] = [
    (PK, """            let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {
                StdError::generic_err("no MsgData found at the given index".to_string())
            })?;
""", """            let [.., msg_resp] = tx_msg_data.msg_responses.as_slice() else {
                return Err(ContractError::Std(StdError::generic_err(
                    "no MsgData found at the given index",
                )));
            };
"""),
]
R['r4-pk-last-splitlast'] = [
    (PK, """            let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {
                StdError::generic_err("no MsgData found at the given index".to_string())
            })?;
""", """            let Some((msg_resp, _)) = tx_msg_data.msg_responses.split_last() else {
                return Err(ContractError::Std(StdError::generic_err(
                    "no MsgData found at the given index",
                )));
            };
"""),
]
R['r4-pk-nth'] = [
    (PK, "            let msg_resp = tx_msg_data.msg_responses.get(index).ok_or_else(|| {", "            let msg_resp = tx_msg_data.msg_responses.iter().nth(index).ok_or_else(|| {"),
]
R['r4-pk-from-parts'] = [
    (PK, "        let cosmos_tx = CosmosTx { messages };\n        let data = cosmos_tx.encode_to_vec();\n        Self::new(data, memo)",
     "        let cosmos_tx = CosmosTx { messages };\n        let mut data = Vec::with_capacity(cosmos_tx.encoded_len());\n        cosmos_tx\n            .encode(&mut data)\n            .expect(\"a vector grows as needed\");\n        Self::new(data, memo)"),
]
# ---------------------------------------------------------------- relay.rs
R['r4-relay-ack-tuple'] = [
    (REL, ("    match from_json(&ack.acknowledgement.data)? {", "/// Implements the IBC module's `OnTimeout"),
     """    let IbcPacketAckMsg {
        acknowledgement,
        original_packet,
        relayer,
        ..
    } = ack;
    let outcome: AcknowledgementData = from_json(acknowledgement.data)?;
    match outcome {
        AcknowledgementData::Error(err) => {
            ibc_packet_ack::error(deps, original_packet, relayer, err)
        }
        AcknowledgementData::Result(res) => {
            ibc_packet_ack::success(deps, original_packet, relayer, res)
        }
    }
}

"""),
]
R['r4-relay-response-builder'] = [
    (REL, ("            Ok(IbcBasicResponse::default()\n                .add_message(callback_msg)\n                .add_event(success_event))", "    /// Handles the unsuccessful"),
     """            let messages = vec![callback_msg];
            Ok(IbcBasicResponse::new()
                .add_event(success_event)
                .add_messages(messages))
        } else {
            let mut response = IbcBasicResponse::new();
            response.events = vec![success_event];
            Ok(response)
        }
    }

"""),
]
R['r4-relay-remove-if-some'] = [
    (REL, """            .transpose()?;

        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
""", """            .transpose()?;

        if query_result.is_some() {
            state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
        }
"""),
]
R['r4-relay-timeout-channel'] = [
    (REL, ("    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;\n    if channel_state.is_ordered()", "    ibc_packet_timeout::callback"),
     """    let channel_state = state::CHANNEL_STATE.load(deps.storage)?;
    let affected = match channel_state.channel.order {
        cosmwasm_std::IbcOrder::Ordered => {
            msg.packet.src.channel_id == channel_state.channel.endpoint.channel_id
        }
        cosmwasm_std::IbcOrder::Unordered => false,
    };
    if affected {
        state::CHANNEL_STATE.save(
            deps.storage,
            &state::ChannelState {
                channel_status: state::ChannelStatus::Closed,
                ..channel_state
            },
        )?;
    }

"""),
]
# ---------------------------------------------------------------- stargate.rs / callbacks.rs / events.rs
R['r4-sg-ordering'] = [
    (SG, ("        let ordering = ordering.map_or(Order::Ordered, |ordering| match ordering {", "        MsgChannelOpenInit {\n"),
     """        let ordering = match ordering.unwrap_or(IbcOrder::Ordered) {
            IbcOrder::Ordered => Order::Ordered,
            IbcOrder::Unordered => Order::Unordered,
        };

"""),
]
R['r4-sg-ordering-if'] = [
    (SG, ("        let ordering = ordering.map_or(Order::Ordered, |ordering| match ordering {", "        MsgChannelOpenInit {\n"),
     """        let ordering = if ordering == Some(IbcOrder::Unordered) {
            Order::Unordered
        } else {
            Order::Ordered
        };

"""),
]
R['r4-sg-port-concat'] = [
    (SG, "            format!(\"wasm.{contract_address}\"),", "            [\"wasm\", contract_address.as_str()].join(\".\"),"),
]
R['r4-sg-port-add'] = [
    (SG, "            format!(\"wasm.{contract_address}\"),", "            \"wasm.\".to_string() + &contract_address,"),
]
R['r4-sg-port-or'] = [
    (SG, "        let counterparty_port_id =\n            counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into);", "        let counterparty_port_id: String = counterparty_port_id\n            .map(Into::into)\n            .unwrap_or_else(|| String::from(keys::HOST_PORT_ID));"),
]
R['r4-cb-wasm-from'] = [
    (CB, ("        let execute = WasmMsg::Execute {", "    }\n}\n"),
     """        self.into_json_binary().map(|msg| {
            CosmosMsg::Wasm(WasmMsg::Execute {
                contract_addr: contract_addr.into(),
                msg,
                funds: Vec::default(),
            })
        })
"""),
]
