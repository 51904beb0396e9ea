//! Messages used by the scenarios.
use postcard_rpc::{endpoints, topics, TopicDirection};
use postcard_schema::Schema;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Ans {
    pub who: u8,
    pub what: u32,
}

#[derive(Serialize, Deserialize, Schema, Debug, PartialEq, Clone)]
pub struct Blob(pub Vec<u8>);

endpoints! {
    list = EPS;
    | EndpointTy | RequestTy | ResponseTy | Path     |
    | ---------- | --------- | ---------- | ----     |
    | Alpha      | Ans       | Ans        | "v/alpha" |
    | Beta       | Ans       | Ans        | "v/beta"  |
    | Gamma      | u8        | u32        | "v/gamma" |
    | Delta      | ()        | ()         | "v/delta" |
}

topics! {
    list = TIN;
    direction = TopicDirection::ToServer;
    | TopicTy | MessageTy | Path     |
    | ------- | --------- | ----     |
    | Up1     | Ans       | "v/up1"  |
    | Up2     | Blob      | "v/up2"  |
}

topics! {
    list = TOUT;
    direction = TopicDirection::ToClient;
    | TopicTy | MessageTy | Path      |
    | ------- | --------- | ----      |
    | Down1   | Ans       | "v/down1" |
    | Down2   | u32       | "v/down2" |
    | Down3   | Ans       | "v/down3" |
}
