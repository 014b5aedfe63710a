//@ file json_typegen_shared/src/options.rs
//@ type OutputMode
//@ type ImportStyle
//@ type InputMode
//@ type StringTransform
//@ raw
// generators never look at the hints
#[verifier::external_body] pub struct Hint { x: u8 }
//@ type Options
