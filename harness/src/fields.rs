//! The crate's field traits, without names that clash with types.
pub use fuel_tx::field::{
    BytecodeLength as _, BytecodeWitnessIndex as _, GasLimit as _, GasPrice as _, Inputs as _, Maturity as _,
    Outputs as _, ReceiptsRoot as _, Salt as _, Script as _, ScriptData as _, StorageSlots as _, TxPointer as _,
    Witnesses as _,
};
