# failure::Error: any error
== prelude
#[derive(Debug)]
#[verifier::external_body]
pub struct Error { e: () }
