DEVCRATE='/verif/vendor/device'
INTER=dict(extra='''postcard-rpc-device = { path = "device" }
''',dirs=[(DEVCRATE,'device')])
IN_MAIN='''//PRELUDE
use postcard_rpc_device as fw;
'''
seed('c24-schema-topic-fields','C24','standard_icd.rs',[
("""        /// The key of the Message type + path
        key: Key,
        /// The direction of the Topic
        direction: TopicDirection,
    },
}

/// A single element of schema information
#[cfg(feature = "use-std")]""","""        /// The direction of the Topic
        direction: TopicDirection,
        /// The key of the Message type + path
        key: Key,
    },
}

/// A single element of schema information
#[cfg(feature = "use-std")]""")],
"a device built without std that is asked for its schema by a host",
"the device sends the schema of topics in an order (and under a key) the host does not know: schema discovery fails",
IN_MAIN+'''fn main() {
    let k = [1u8, 2, 3, 4, 5, 6, 7, 8];
    let d = fw::standard_icd::SchemaData::Topic { path: "a", key: unsafe { fw::Key::from_bytes(k) }, direction: fw::TopicDirection::ToClient };
    let b = postcard::to_stdvec(&d).unwrap();
    let h: postcard_rpc::standard_icd::OwnedSchemaData = postcard::from_bytes(&b).unwrap();
    assert_eq!(h, postcard_rpc::standard_icd::OwnedSchemaData::Topic { path: "a".into(), key: unsafe { postcard_rpc::Key::from_bytes(k) }, direction: postcard_rpc::TopicDirection::ToClient });
    assert_eq!(<fw::standard_icd::GetAllSchemaDataTopic as fw::Topic>::TOPIC_KEY.to_bytes(), postcard_rpc::standard_icd::GetAllSchemaDataTopic::TOPIC_KEY.to_bytes());
}
''',**INTER)
seed('c24-log-path-differs','C24','standard_icd.rs',[
("""    | LoggingTopic          | str               | "postcard-rpc/logging"        | cfg(not(feature = "use-std")) |""",
"""    | LoggingTopic          | str               | "postcard-rpc/log"            | cfg(not(feature = "use-std")) |""")],
"a device built without std that sends log messages to a host",
"the log messages travel under a key no host listens to and never show up",
IN_MAIN+'''fn main() {
    assert_eq!(<fw::standard_icd::LoggingTopic as fw::Topic>::TOPIC_KEY.to_bytes(), postcard_rpc::standard_icd::LoggingTopic::TOPIC_KEY.to_bytes());
}
''',**INTER)
