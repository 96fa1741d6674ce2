pub mod status_theory {
    use vstd::prelude::*;
    use miasht_status::Status;
    verus! {
    // The supported statuses: the names of the response variants and the codes the standard assigns to them.
    #[verifier::opaque]
    pub open spec fn name_code(s: Seq<char>) -> Option<u16> {
        if s == "Continue"@ { Some(100u16) }
        else if s == "SwitchingProtocols"@ { Some(101u16) }
        else if s == "Processing"@ { Some(102u16) }
        else if s == "Ok"@ { Some(200u16) }
        else if s == "Created"@ { Some(201u16) }
        else if s == "Accepted"@ { Some(202u16) }
        else if s == "NonAuthoritativeInformation"@ { Some(203u16) }
        else if s == "NoContent"@ { Some(204u16) }
        else if s == "ResetContent"@ { Some(205u16) }
        else if s == "PartialContent"@ { Some(206u16) }
        else if s == "MultiStatus"@ { Some(207u16) }
        else if s == "AlreadyReported"@ { Some(208u16) }
        else if s == "ImUsed"@ { Some(226u16) }
        else if s == "MultipleChoices"@ { Some(300u16) }
        else if s == "MovedPermanently"@ { Some(301u16) }
        else if s == "Found"@ { Some(302u16) }
        else if s == "SeeOther"@ { Some(303u16) }
        else if s == "NotModified"@ { Some(304u16) }
        else if s == "UseProxy"@ { Some(305u16) }
        else if s == "TemporaryRedirect"@ { Some(307u16) }
        else if s == "PermanentRedirect"@ { Some(308u16) }
        else if s == "BadRequest"@ { Some(400u16) }
        else if s == "Unauthorized"@ { Some(401u16) }
        else if s == "PaymentRequired"@ { Some(402u16) }
        else if s == "Forbidden"@ { Some(403u16) }
        else if s == "NotFound"@ { Some(404u16) }
        else if s == "MethodNotAllowed"@ { Some(405u16) }
        else if s == "NotAcceptable"@ { Some(406u16) }
        else if s == "ProxyAuthenticationRequired"@ { Some(407u16) }
        else if s == "RequestTimeout"@ { Some(408u16) }
        else if s == "Conflict"@ { Some(409u16) }
        else if s == "Gone"@ { Some(410u16) }
        else if s == "LengthRequired"@ { Some(411u16) }
        else if s == "PreconditionFailed"@ { Some(412u16) }
        else if s == "PayloadTooLarge"@ { Some(413u16) }
        else if s == "UriTooLong"@ { Some(414u16) }
        else if s == "UnsupportedMediaType"@ { Some(415u16) }
        else if s == "RangeNotSatisfiable"@ { Some(416u16) }
        else if s == "ExceptionFailed"@ { Some(417u16) }
        else if s == "ImATeapot"@ { Some(418u16) }
        else if s == "MisdirectedRequest"@ { Some(421u16) }
        else if s == "UnprocessableEntity"@ { Some(422u16) }
        else if s == "Locked"@ { Some(423u16) }
        else if s == "FailedDependency"@ { Some(424u16) }
        else if s == "UpgradeRequired"@ { Some(426u16) }
        else if s == "UnavailableForLegalReasons"@ { Some(451u16) }
        else if s == "InternalServerError"@ { Some(500u16) }
        else if s == "NotImplemented"@ { Some(501u16) }
        else if s == "BadGateway"@ { Some(502u16) }
        else if s == "ServiceUnavailable"@ { Some(503u16) }
        else if s == "GatewayTimeout"@ { Some(504u16) }
        else if s == "HttpVersionNotSupported"@ { Some(505u16) }
        else if s == "VariantAlsoNegotiates"@ { Some(506u16) }
        else if s == "InsufficientStorage"@ { Some(507u16) }
        else if s == "LoopDetected"@ { Some(508u16) }
        else if s == "BandwidthLimitExceeded"@ { Some(509u16) }
        else if s == "NotExtended"@ { Some(510u16) }
        else { None }
    }
    pub open spec fn code_name(c: u16) -> Option<Seq<char>> {
        if c == 100 { Some("Continue"@) }
        else if c == 101 { Some("SwitchingProtocols"@) }
        else if c == 102 { Some("Processing"@) }
        else if c == 200 { Some("Ok"@) }
        else if c == 201 { Some("Created"@) }
        else if c == 202 { Some("Accepted"@) }
        else if c == 203 { Some("NonAuthoritativeInformation"@) }
        else if c == 204 { Some("NoContent"@) }
        else if c == 205 { Some("ResetContent"@) }
        else if c == 206 { Some("PartialContent"@) }
        else if c == 207 { Some("MultiStatus"@) }
        else if c == 208 { Some("AlreadyReported"@) }
        else if c == 226 { Some("ImUsed"@) }
        else if c == 300 { Some("MultipleChoices"@) }
        else if c == 301 { Some("MovedPermanently"@) }
        else if c == 302 { Some("Found"@) }
        else if c == 303 { Some("SeeOther"@) }
        else if c == 304 { Some("NotModified"@) }
        else if c == 305 { Some("UseProxy"@) }
        else if c == 307 { Some("TemporaryRedirect"@) }
        else if c == 308 { Some("PermanentRedirect"@) }
        else if c == 400 { Some("BadRequest"@) }
        else if c == 401 { Some("Unauthorized"@) }
        else if c == 402 { Some("PaymentRequired"@) }
        else if c == 403 { Some("Forbidden"@) }
        else if c == 404 { Some("NotFound"@) }
        else if c == 405 { Some("MethodNotAllowed"@) }
        else if c == 406 { Some("NotAcceptable"@) }
        else if c == 407 { Some("ProxyAuthenticationRequired"@) }
        else if c == 408 { Some("RequestTimeout"@) }
        else if c == 409 { Some("Conflict"@) }
        else if c == 410 { Some("Gone"@) }
        else if c == 411 { Some("LengthRequired"@) }
        else if c == 412 { Some("PreconditionFailed"@) }
        else if c == 413 { Some("PayloadTooLarge"@) }
        else if c == 414 { Some("UriTooLong"@) }
        else if c == 415 { Some("UnsupportedMediaType"@) }
        else if c == 416 { Some("RangeNotSatisfiable"@) }
        else if c == 417 { Some("ExceptionFailed"@) }
        else if c == 418 { Some("ImATeapot"@) }
        else if c == 421 { Some("MisdirectedRequest"@) }
        else if c == 422 { Some("UnprocessableEntity"@) }
        else if c == 423 { Some("Locked"@) }
        else if c == 424 { Some("FailedDependency"@) }
        else if c == 426 { Some("UpgradeRequired"@) }
        else if c == 451 { Some("UnavailableForLegalReasons"@) }
        else if c == 500 { Some("InternalServerError"@) }
        else if c == 501 { Some("NotImplemented"@) }
        else if c == 502 { Some("BadGateway"@) }
        else if c == 503 { Some("ServiceUnavailable"@) }
        else if c == 504 { Some("GatewayTimeout"@) }
        else if c == 505 { Some("HttpVersionNotSupported"@) }
        else if c == 506 { Some("VariantAlsoNegotiates"@) }
        else if c == 507 { Some("InsufficientStorage"@) }
        else if c == 508 { Some("LoopDetected"@) }
        else if c == 509 { Some("BandwidthLimitExceeded"@) }
        else if c == 510 { Some("NotExtended"@) }
        else { None }
    }
    pub open spec fn status_code(s: Status) -> u16 {
        match s {
            Status::Continue => 100,
            Status::SwitchingProtocols => 101,
            Status::Processing => 102,
            Status::Ok => 200,
            Status::Created => 201,
            Status::Accepted => 202,
            Status::NonAuthoritativeInformation => 203,
            Status::NoContent => 204,
            Status::ResetContent => 205,
            Status::PartialContent => 206,
            Status::MultiStatus => 207,
            Status::AlreadyReported => 208,
            Status::ImUsed => 226,
            Status::MultipleChoices => 300,
            Status::MovedPermanently => 301,
            Status::Found => 302,
            Status::SeeOther => 303,
            Status::NotModified => 304,
            Status::UseProxy => 305,
            Status::TemporaryRedirect => 307,
            Status::PermanentRedirect => 308,
            Status::BadRequest => 400,
            Status::Unauthorized => 401,
            Status::PaymentRequired => 402,
            Status::Forbidden => 403,
            Status::NotFound => 404,
            Status::MethodNotAllowed => 405,
            Status::NotAcceptable => 406,
            Status::ProxyAuthenticationRequired => 407,
            Status::RequestTimeout => 408,
            Status::Conflict => 409,
            Status::Gone => 410,
            Status::LengthRequired => 411,
            Status::PreconditionFailed => 412,
            Status::PayloadTooLarge => 413,
            Status::UriTooLong => 414,
            Status::UnsupportedMediaType => 415,
            Status::RangeNotSatisfiable => 416,
            Status::ExceptionFailed => 417,
            Status::ImATeapot => 418,
            Status::MisdirectedRequest => 421,
            Status::UnprocessableEntity => 422,
            Status::Locked => 423,
            Status::FailedDependency => 424,
            Status::UpgradeRequired => 426,
            Status::UnavailableForLegalReasons => 451,
            Status::InternalServerError => 500,
            Status::NotImplemented => 501,
            Status::BadGateway => 502,
            Status::ServiceUnavailable => 503,
            Status::GatewayTimeout => 504,
            Status::HttpVersionNotSupported => 505,
            Status::VariantAlsoNegotiates => 506,
            Status::InsufficientStorage => 507,
            Status::LoopDetected => 508,
            Status::BandwidthLimitExceeded => 509,
            Status::NotExtended => 510,
        }
    }
    pub open spec fn known_code(c: u16) -> bool { code_name(c) is Some }
    pub proof fn lemma_names()
        ensures
            name_code("Continue"@) == Some(100u16),
            name_code("SwitchingProtocols"@) == Some(101u16),
            name_code("Processing"@) == Some(102u16),
            name_code("Ok"@) == Some(200u16),
            name_code("Created"@) == Some(201u16),
            name_code("Accepted"@) == Some(202u16),
            name_code("NonAuthoritativeInformation"@) == Some(203u16),
            name_code("NoContent"@) == Some(204u16),
            name_code("ResetContent"@) == Some(205u16),
            name_code("PartialContent"@) == Some(206u16),
            name_code("MultiStatus"@) == Some(207u16),
            name_code("AlreadyReported"@) == Some(208u16),
            name_code("ImUsed"@) == Some(226u16),
            name_code("MultipleChoices"@) == Some(300u16),
            name_code("MovedPermanently"@) == Some(301u16),
            name_code("Found"@) == Some(302u16),
            name_code("SeeOther"@) == Some(303u16),
            name_code("NotModified"@) == Some(304u16),
            name_code("UseProxy"@) == Some(305u16),
            name_code("TemporaryRedirect"@) == Some(307u16),
            name_code("PermanentRedirect"@) == Some(308u16),
            name_code("BadRequest"@) == Some(400u16),
            name_code("Unauthorized"@) == Some(401u16),
            name_code("PaymentRequired"@) == Some(402u16),
            name_code("Forbidden"@) == Some(403u16),
            name_code("NotFound"@) == Some(404u16),
            name_code("MethodNotAllowed"@) == Some(405u16),
            name_code("NotAcceptable"@) == Some(406u16),
            name_code("ProxyAuthenticationRequired"@) == Some(407u16),
            name_code("RequestTimeout"@) == Some(408u16),
            name_code("Conflict"@) == Some(409u16),
            name_code("Gone"@) == Some(410u16),
            name_code("LengthRequired"@) == Some(411u16),
            name_code("PreconditionFailed"@) == Some(412u16),
            name_code("PayloadTooLarge"@) == Some(413u16),
            name_code("UriTooLong"@) == Some(414u16),
            name_code("UnsupportedMediaType"@) == Some(415u16),
            name_code("RangeNotSatisfiable"@) == Some(416u16),
            name_code("ExceptionFailed"@) == Some(417u16),
            name_code("ImATeapot"@) == Some(418u16),
            name_code("MisdirectedRequest"@) == Some(421u16),
            name_code("UnprocessableEntity"@) == Some(422u16),
            name_code("Locked"@) == Some(423u16),
            name_code("FailedDependency"@) == Some(424u16),
            name_code("UpgradeRequired"@) == Some(426u16),
            name_code("UnavailableForLegalReasons"@) == Some(451u16),
            name_code("InternalServerError"@) == Some(500u16),
            name_code("NotImplemented"@) == Some(501u16),
            name_code("BadGateway"@) == Some(502u16),
            name_code("ServiceUnavailable"@) == Some(503u16),
            name_code("GatewayTimeout"@) == Some(504u16),
            name_code("HttpVersionNotSupported"@) == Some(505u16),
            name_code("VariantAlsoNegotiates"@) == Some(506u16),
            name_code("InsufficientStorage"@) == Some(507u16),
            name_code("LoopDetected"@) == Some(508u16),
            name_code("BandwidthLimitExceeded"@) == Some(509u16),
            name_code("NotExtended"@) == Some(510u16),
    {
        reveal(name_code);
        reveal_strlit("Continue");
        reveal_strlit("SwitchingProtocols");
        reveal_strlit("Processing");
        reveal_strlit("Ok");
        reveal_strlit("Created");
        reveal_strlit("Accepted");
        reveal_strlit("NonAuthoritativeInformation");
        reveal_strlit("NoContent");
        reveal_strlit("ResetContent");
        reveal_strlit("PartialContent");
        reveal_strlit("MultiStatus");
        reveal_strlit("AlreadyReported");
        reveal_strlit("ImUsed");
        reveal_strlit("MultipleChoices");
        reveal_strlit("MovedPermanently");
        reveal_strlit("Found");
        reveal_strlit("SeeOther");
        reveal_strlit("NotModified");
        reveal_strlit("UseProxy");
        reveal_strlit("TemporaryRedirect");
        reveal_strlit("PermanentRedirect");
        reveal_strlit("BadRequest");
        reveal_strlit("Unauthorized");
        reveal_strlit("PaymentRequired");
        reveal_strlit("Forbidden");
        reveal_strlit("NotFound");
        reveal_strlit("MethodNotAllowed");
        reveal_strlit("NotAcceptable");
        reveal_strlit("ProxyAuthenticationRequired");
        reveal_strlit("RequestTimeout");
        reveal_strlit("Conflict");
        reveal_strlit("Gone");
        reveal_strlit("LengthRequired");
        reveal_strlit("PreconditionFailed");
        reveal_strlit("PayloadTooLarge");
        reveal_strlit("UriTooLong");
        reveal_strlit("UnsupportedMediaType");
        reveal_strlit("RangeNotSatisfiable");
        reveal_strlit("ExceptionFailed");
        reveal_strlit("ImATeapot");
        reveal_strlit("MisdirectedRequest");
        reveal_strlit("UnprocessableEntity");
        reveal_strlit("Locked");
        reveal_strlit("FailedDependency");
        reveal_strlit("UpgradeRequired");
        reveal_strlit("UnavailableForLegalReasons");
        reveal_strlit("InternalServerError");
        reveal_strlit("NotImplemented");
        reveal_strlit("BadGateway");
        reveal_strlit("ServiceUnavailable");
        reveal_strlit("GatewayTimeout");
        reveal_strlit("HttpVersionNotSupported");
        reveal_strlit("VariantAlsoNegotiates");
        reveal_strlit("InsufficientStorage");
        reveal_strlit("LoopDetected");
        reveal_strlit("BandwidthLimitExceeded");
        reveal_strlit("NotExtended");
        assert("Continue"@.len() == 8 && "Continue"@[3] == 't');
        assert("SwitchingProtocols"@.len() == 18 && "SwitchingProtocols"@[1] == 'w');
        assert("Processing"@.len() == 10 && "Processing"@[3] == 'c');
        assert("Ok"@.len() == 2);
        assert("Created"@.len() == 7);
        assert("Accepted"@.len() == 8 && "Accepted"@[3] == 'e');
        assert("NonAuthoritativeInformation"@.len() == 27 && "NonAuthoritativeInformation"@[0] == 'N');
        assert("NoContent"@.len() == 9 && "NoContent"@[0] == 'N');
        assert("ResetContent"@.len() == 12 && "ResetContent"@[0] == 'R');
        assert("PartialContent"@.len() == 14 && "PartialContent"@[0] == 'P');
        assert("MultiStatus"@.len() == 11 && "MultiStatus"@[3] == 't');
        assert("AlreadyReported"@.len() == 15 && "AlreadyReported"@[6] == 'y');
        assert("ImUsed"@.len() == 6 && "ImUsed"@[0] == 'I');
        assert("MultipleChoices"@.len() == 15 && "MultipleChoices"@[6] == 'l');
        assert("MovedPermanently"@.len() == 16 && "MovedPermanently"@[1] == 'o');
        assert("Found"@.len() == 5);
        assert("SeeOther"@.len() == 8 && "SeeOther"@[3] == 'O');
        assert("NotModified"@.len() == 11 && "NotModified"@[3] == 'M');
        assert("UseProxy"@.len() == 8 && "UseProxy"@[3] == 'P');
        assert("TemporaryRedirect"@.len() == 17 && "TemporaryRedirect"@[0] == 'T');
        assert("PermanentRedirect"@.len() == 17 && "PermanentRedirect"@[0] == 'P');
        assert("BadRequest"@.len() == 10 && "BadRequest"@[3] == 'R');
        assert("Unauthorized"@.len() == 12 && "Unauthorized"@[0] == 'U');
        assert("PaymentRequired"@.len() == 15 && "PaymentRequired"@[6] == 't');
        assert("Forbidden"@.len() == 9 && "Forbidden"@[0] == 'F');
        assert("NotFound"@.len() == 8 && "NotFound"@[3] == 'F');
        assert("MethodNotAllowed"@.len() == 16 && "MethodNotAllowed"@[1] == 'e');
        assert("NotAcceptable"@.len() == 13);
        assert("ProxyAuthenticationRequired"@.len() == 27 && "ProxyAuthenticationRequired"@[0] == 'P');
        assert("RequestTimeout"@.len() == 14 && "RequestTimeout"@[0] == 'R');
        assert("Conflict"@.len() == 8 && "Conflict"@[3] == 'f');
        assert("Gone"@.len() == 4);
        assert("LengthRequired"@.len() == 14 && "LengthRequired"@[0] == 'L');
        assert("PreconditionFailed"@.len() == 18 && "PreconditionFailed"@[1] == 'r');
        assert("PayloadTooLarge"@.len() == 15 && "PayloadTooLarge"@[6] == 'd');
        assert("UriTooLong"@.len() == 10 && "UriTooLong"@[3] == 'T');
        assert("UnsupportedMediaType"@.len() == 20);
        assert("RangeNotSatisfiable"@.len() == 19 && "RangeNotSatisfiable"@[2] == 'n');
        assert("ExceptionFailed"@.len() == 15 && "ExceptionFailed"@[6] == 'i');
        assert("ImATeapot"@.len() == 9 && "ImATeapot"@[0] == 'I');
        assert("MisdirectedRequest"@.len() == 18 && "MisdirectedRequest"@[1] == 'i');
        assert("UnprocessableEntity"@.len() == 19 && "UnprocessableEntity"@[2] == 'p');
        assert("Locked"@.len() == 6 && "Locked"@[0] == 'L');
        assert("FailedDependency"@.len() == 16 && "FailedDependency"@[1] == 'a');
        assert("UpgradeRequired"@.len() == 15 && "UpgradeRequired"@[6] == 'e');
        assert("UnavailableForLegalReasons"@.len() == 26);
        assert("InternalServerError"@.len() == 19 && "InternalServerError"@[2] == 't');
        assert("NotImplemented"@.len() == 14 && "NotImplemented"@[0] == 'N');
        assert("BadGateway"@.len() == 10 && "BadGateway"@[3] == 'G');
        assert("ServiceUnavailable"@.len() == 18 && "ServiceUnavailable"@[1] == 'e');
        assert("GatewayTimeout"@.len() == 14 && "GatewayTimeout"@[0] == 'G');
        assert("HttpVersionNotSupported"@.len() == 23);
        assert("VariantAlsoNegotiates"@.len() == 21);
        assert("InsufficientStorage"@.len() == 19 && "InsufficientStorage"@[2] == 's');
        assert("LoopDetected"@.len() == 12 && "LoopDetected"@[0] == 'L');
        assert("BandwidthLimitExceeded"@.len() == 22);
        assert("NotExtended"@.len() == 11 && "NotExtended"@[3] == 'E');
    }
    pub proof fn lemma_other(s: Seq<char>)
        ensures
            name_code(s) is Some ==> code_name(name_code(s)->Some_0) == Some(s),
            (s != "Continue"@ && s != "SwitchingProtocols"@ && s != "Processing"@ && s != "Ok"@ && s != "Created"@ && s != "Accepted"@ && s != "NonAuthoritativeInformation"@ && s != "NoContent"@ && s != "ResetContent"@ && s != "PartialContent"@ && s != "MultiStatus"@ && s != "AlreadyReported"@ && s != "ImUsed"@ && s != "MultipleChoices"@ && s != "MovedPermanently"@ && s != "Found"@ && s != "SeeOther"@ && s != "NotModified"@ && s != "UseProxy"@ && s != "TemporaryRedirect"@ && s != "PermanentRedirect"@ && s != "BadRequest"@ && s != "Unauthorized"@ && s != "PaymentRequired"@ && s != "Forbidden"@ && s != "NotFound"@ && s != "MethodNotAllowed"@ && s != "NotAcceptable"@ && s != "ProxyAuthenticationRequired"@ && s != "RequestTimeout"@ && s != "Conflict"@ && s != "Gone"@ && s != "LengthRequired"@ && s != "PreconditionFailed"@ && s != "PayloadTooLarge"@ && s != "UriTooLong"@ && s != "UnsupportedMediaType"@ && s != "RangeNotSatisfiable"@ && s != "ExceptionFailed"@ && s != "ImATeapot"@ && s != "MisdirectedRequest"@ && s != "UnprocessableEntity"@ && s != "Locked"@ && s != "FailedDependency"@ && s != "UpgradeRequired"@ && s != "UnavailableForLegalReasons"@ && s != "InternalServerError"@ && s != "NotImplemented"@ && s != "BadGateway"@ && s != "ServiceUnavailable"@ && s != "GatewayTimeout"@ && s != "HttpVersionNotSupported"@ && s != "VariantAlsoNegotiates"@ && s != "InsufficientStorage"@ && s != "LoopDetected"@ && s != "BandwidthLimitExceeded"@ && s != "NotExtended"@) ==> name_code(s) is None,
    { reveal(name_code); }
    /// C04: names and codes correspond one to one.
    pub proof fn theorem_one_to_one(c: u16, s: Seq<char>)
        ensures
            code_name(c) matches Some(n) ==> name_code(n) == Some(c),
            name_code(s) matches Some(k) ==> code_name(k) == Some(s),
    {
        lemma_names();
        lemma_other(s);
    }
    pub proof fn theorem_distinct(s: Seq<char>, t: Seq<char>)
        requires name_code(s) is Some, name_code(s) == name_code(t)
        ensures s == t
    {
        theorem_one_to_one(0, s);
        theorem_one_to_one(0, t);
    }
    }
}
