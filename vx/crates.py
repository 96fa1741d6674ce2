"""Which shims, theory and source modules make up each verified crate."""
ROOT = """
pub use error::{Error, ErrorKind};
pub type Result<T> = ::std::result::Result<T, Error>;
"""
MIASHT = """
pub mod miasht {
    pub mod header { pub use miasht_header::*; }
    pub mod status { pub use miasht_status::*; }
    pub use miasht_status::Status;
    pub use miasht_method::Method;
    pub mod builtin { pub mod headers { pub use miasht_headers::*; } }
    pub mod server { pub use miasht_server::*; }
    pub mod client { pub use miasht_client::*; }
}
pub mod types { pub use miasht_status::Status as HttpStatus; pub use miasht_method::Method as HttpMethod; TYPES }
"""
RESP_TRAITS = """
pub trait RpcResponse: serde::Serialize {
    /// the body the value supplies
    spec fn body_spec(&self) -> Seq<u8>;
    fn body(&mut self) -> (r: Box<bytesx::DynBytes>)
        ensures stdx::AsRefBytes::byte_seq(&*r) == old(self).body_spec();
}
"""
CRATES = {
    "path": {
        "shims": ["prelude", "std", "text", "serde", "url"],
        "theory": ["utf8", "path", "scalar", "c01"],
        "modules": [("procedure", "procedure"), ("serializers::url_path", "ser_url_path"), ("deserializers::url_path", "de_url_path"),
                    ],
        "root": ROOT + "pub mod types { pub use procedure::{EntryPoint, PathSegment}; }\n",
    },
    "query": {
        "shims": ["prelude", "std", "text", "serde", "url"],
        "theory": ["scalar", "query", "seeds", "c02"],
        "modules": [("serializers::url_query", "ser_url_query"), ("deserializers::url_query", "de_url_query")],
        "root": ROOT,
    },
    "header": {
        "shims": ["prelude", "std", "text", "serde", "miasht_header"],
        "theory": ["scalar", "header", "seeds", "c03"],
        "modules": [("serializers::http_header", "ser_http_header"), ("deserializers::http_header", "de_http_header")],
        "root": ROOT + "pub mod miasht { pub mod header { pub use miasht_header::*; } }\n",
    },
    "response": {
        "shims": ["prelude", "std", "text", "serde", "miasht_header", "miasht_msg"],
        "theory": ["scalar", "header", "seeds", "status", "response", "c06"],
        "modules": [("miasht_status", "miasht_status"), ("miasht_method", "miasht_method"), ("serializers::http_header", "ser_http_header"), ("deserializers::http_header", "de_http_header"),
                    ("serializers::rpc_response", "ser_rpc_response"), ("deserializers::rpc_response", "de_rpc_response")],
        "root": ROOT + MIASHT.replace("TYPES", "") + RESP_TRAITS,
        "reexport": {"serializers": "pub use self::http_header::HttpHeaderSerializer;\n", "deserializers": "pub use self::http_header::HttpHeaderDeserializer;\n"},
    },
    "request": {
        "shims": ["prelude", "std", "text", "serde", "url", "url_msg", "miasht_header", "miasht_msg"],
        "theory": ["utf8", "path", "scalar", "query", "header", "seeds", "status", "request", "c05"],
        "modules": [("miasht_status", "miasht_status"), ("miasht_method", "miasht_method"), ("procedure", "procedure"),
                    ("serializers::url_path", "ser_url_path"), ("deserializers::url_path", "de_url_path"),
                    ("serializers::url_query", "ser_url_query"), ("deserializers::url_query", "de_url_query"),
                    ("serializers::http_header", "ser_http_header"), ("deserializers::http_header", "de_http_header"),
                    ("serializers::rpc_request", "ser_rpc_request"), ("deserializers::rpc_request", "de_rpc_request")],
        "root": ROOT + MIASHT.replace("TYPES", "pub use procedure::{EntryPoint, PathSegment};"),
        "reexport": {
            "serializers": "pub use self::http_header::HttpHeaderSerializer; pub use self::url_path::UrlPathSerializer; pub use self::url_query::UrlQuerySerializer;\n",
            "deserializers": "pub use self::http_header::HttpHeaderDeserializer; pub use self::url_path::UrlPathDeserializer; pub use self::url_query::UrlQueryDeserializer;\n"},
    },
    "pool": {
        "shims": ["prelude", "std", "pool", "futures", "connect"],
        "theory": ["pool"],
        "modules": [("miasht_method", "miasht_method"), ("pool", "pool")],
        "root": ROOT + "pub mod miasht { pub mod client { pub use connectx::*; } pub use connectx::Client; }\n",
    },
    "client": {
        "shims": ["prelude", "std", "text", "pool", "futures", "fu", "connect", "client"],
        "theory": ["pool"],
        "modules": [("miasht_method", "miasht_method"), ("procedure", "procedure"), ("client", "client"), ("pool", "pool"), ("pool_call", "pool_call")],
        "root": ROOT + "pub mod miasht { pub mod client { pub use connectx::*; } pub use connectx::Client; pub use clientx::MiashtError as Error; }\npub use clientx::{RpcRequest, RpcResponse, Procedure};\npub mod types { pub use miasht_method::Method as HttpMethod; }\n",
    },
    "router": {
        "shims": ["prelude", "std", "text", "serde", "url", "miasht_header", "miasht_msg", "router"],
        "theory": ["status", "router"],
        "modules": [("miasht_status", "miasht_status"), ("miasht_method", "miasht_method"), ("procedure", "procedure"), ("router", "router")],
        "root": ROOT + MIASHT.replace("TYPES", "pub use procedure::{EntryPoint, PathSegment};"),
    },
    "embed": {
        "shims": ["prelude", "std", "embed"],
        "theory": ["c14"],
        "modules": [("json", "json"), ("json_pretty", "json_pretty"), ("msgpack", "msgpack")],
        "root": ROOT,
    },
    "problem": {
        "shims": ["prelude", "std", "text", "embed", "problem"],
        "theory": ["status", "c13"],
        "modules": [("miasht_status", "miasht_status"), ("rfc7807", "rfc7807")],
        "root": ROOT,
    },
    "server": {
        "shims": ["prelude", "std", "text", "url", "pool", "futures", "fu", "server"],
        "theory": ["status", "c08"],
        "modules": [("miasht_status", "miasht_status"), ("miasht_method", "miasht_method"), ("procedure", "procedure"), ("misc", "misc"), ("server", "server")],
        "root": ROOT + "pub mod miasht { pub use serverx::MiashtError as Error; }\npub use serverx::RpcRequest;\n",
    },
}
