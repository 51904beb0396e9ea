// The interface, declared with the macros of `prpc` (included once per build).
macro_rules! icd {
    ($m:ident, $q1:literal $q2:literal $p1:literal $p2:literal) => {
        pub mod $m {
            use crate::c24::types::*;
            use super::prpc::{endpoints, topics, TopicDirection};
            endpoints! {
                list = EPS;
                | EndpointTy | RequestTy | ResponseTy | Path |
                | ---------- | --------- | ---------- | ---- |
                | Eb | Ans | Ans | "1/eb" |
                | Ea | u32 | Ans | "1/ea" |
                | Es | Shape | u64 | "1/es" |
                | Ef | u8 | Fussy | "1/ef" |
                | Q1 | Ans | Ans | $q1 |
                | Q2 | Ans | Ans | $q2 |
            }
            topics! {
                list = TIN;
                direction = TopicDirection::ToServer;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                | Tb | Ans | "1/tb" |
                | Ta | Shape | "1/ta" |
                | Ts | u16 | "1/ts" |
                | P1 | Ans | $p1 |
                | P2 | Ans | $p2 |
            }
            topics! {
                list = TOUT;
                direction = TopicDirection::ToClient;
                | TopicTy | MessageTy | Path |
                | ------- | --------- | ---- |
                | To | Ans | "1/to" |
                | Tx | Shape | "1/tx" |
            }
        }
    };
}
icd!(d1, "q1/a" "q1/b" "p1/a" "p1/b");
icd!(d2, "q2/b" "q2/13" "p2/18" "p2/1d");
icd!(d4, "q4/92" "q4/150" "p4/110" "p4/1d5");
icd!(d8, "q8/52be" "q8/112b1" "p8/bca2" "p8/1529d");
