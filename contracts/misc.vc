%source src/misc.rs
%skip use -- names come from the prelude of the contract file
%rewrite `static mut DUMMY_BASE_URL: Option<&'static Url> = None;` => `let mut DUMMY_BASE_URL: Option<&'static Url> = None;`
%rewrite `static START: Once = Once::new();` => ``
%rewrite `START.call_once(|| {` => `{`
%rewrite `DUMMY_BASE_URL = Some(&*Box::into_raw(url)) } });` => `DUMMY_BASE_URL = Some(::urlx::leaked(url)); } }`

%prelude
use urlx::*;
use url::Url;
use error::Error;
use Result;
%fn parse_relative_url
    ensures match url_of(url@) { Some(u) => r is Ok && r->Ok_0 == u, None => r is Err }
%closures 1
%start
    broadcast use axiom_base;
