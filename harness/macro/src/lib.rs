//! Receivers of callbacks, written as the documentation of the macro says.  Compiled and inspected, never run.
use cosmwasm_schema::cw_serde;
use cw_ica_controller_derive::ica_callback_execute;

#[ica_callback_execute]
#[cw_serde]
pub enum Receiver {
    Plain {},
    Named { first: String, second: u64 },
    Tuple(bool),
}

#[ica_callback_execute]
#[cw_serde]
pub enum OnlyCallbacks {}

/// one variant, with attributes and documentation of its own
#[ica_callback_execute]
#[cw_serde]
pub enum Single {
    /// Documented.
    #[serde(rename = "other_name")]
    Renamed { value: Option<u64> },
}

/// names that resemble the one the macro adds
#[ica_callback_execute]
#[cw_serde]
pub enum Neighbours {
    Receive(String),
    ReceiveNft { token_id: String },
    ReceiveIca(u64),
    IcaCallback {},
    Callback(bool),
    Execute {},
    SendIcaCallback(String),
}

/// no variant carries data
#[ica_callback_execute]
#[cw_serde]
pub enum Units {
    Start,
    Stop,
    Pause,
    Resume,
}

/// more variants than a small contract has
#[ica_callback_execute]
#[cw_serde]
pub enum Many {
    V1(u64),
    V2 {},
    V3(u64),
    V4 {},
    V5(u64),
    V6 {},
    V7(u64),
    V8 {},
    V9(u64),
    V10 {},
    V11(u64),
    V12 {},
    V13(u64),
    V14 {},
    V15(u64),
    V16 {},
    V17(u64),
    V18 {},
    V19(u64),
    V20 {},
    V21(u64),
    V22 {},
    V23(u64),
    V24 {},
    V25(u64),
    V26 {},
    V27(u64),
    V28 {},
    V29(u64),
    V30 {},
    V31(u64),
    V32 {},
    V33(u64),
    V34 {},
    V35(u64),
    V36 {},
    V37(u64),
    V38 {},
    V39(u64),
    V40 {},
}
