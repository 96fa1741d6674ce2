SQ, DQ = "src/serializers/url_query.rs", "src/deserializers/url_query.rs"
SP, DP = "src/serializers/url_path.rs", "src/deserializers/url_path.rs"
SH, DH = "src/serializers/http_header.rs", "src/deserializers/http_header.rs"
SR, DR = "src/serializers/rpc_request.rs", "src/deserializers/rpc_request.rs"
SS, DS = "src/serializers/rpc_response.rs", "src/deserializers/rpc_response.rs"
PO, CL, RO, SV, MI, PB, JS, JP, MP = ["src/%s.rs" % x for x in "pool client router server misc rfc7807 json json_pretty msgpack".split()]

# ---- C02
M("q-none-key", "C02", (SQ, "track_assert!(self.key.take().is_some(), ErrorKind::Invalid);", "track_assert!(self.key.is_some(), ErrorKind::Invalid);"))
M("q-f64", "C02", (SQ, "    fn serialize_f64(self, v: f64) -> Result<Self::Ok> {\n        self.append(Cow::Owned(v.to_string()));", "    fn serialize_f64(self, v: f64) -> Result<Self::Ok> {\n        self.append(Cow::Owned(format!(\"{:.6}\", v)));"))
M("q-empty-skip", "C02", (SQ, "            let val = &key_or_val;\n            self.query.append_pair(&key, val);", "            let val = &key_or_val;\n            if !val.is_empty() {\n                self.query.append_pair(&key, val);\n            }"))
M("q-i64-narrow", "C02", (SQ, "    fn serialize_i32(self, v: i32) -> Result<Self::Ok> {\n        track!(self.serialize_i64(v as i64))", "    fn serialize_i32(self, v: i32) -> Result<Self::Ok> {\n        track!(self.serialize_i16(v as i16))"))
M("q-key-only", "C02", (SQ, "            self.query.append_pair(&key, val);", "            if val.is_empty() {\n                self.query.append_key_only(&key);\n            } else {\n                self.query.append_pair(&key, val.trim());\n            }"))
M("q-char", "C02", (SQ, "        track!(self.serialize_str(&v.to_string()))", "        track!(self.serialize_str(&v.to_lowercase().to_string()))"))
M("q-end-peek", "C02", (DQ, "        self.query.peek().is_none()", "        self.query.peek().map_or(true, |kv| kv.0.is_empty())"))
M("q-opt-empty", "C02", (DQ, "        track!(visitor.visit_some(self))", "        if let Phase::Value(ref v) = self.phase {\n            if v.is_empty() {\n                self.phase = Phase::Key;\n                return visitor.visit_none();\n            }\n        }\n        track!(visitor.visit_some(self))"))
M("q-key-case", "C02", (DQ, "                self.phase = Phase::Value(v);\n                Ok(k)", "                self.phase = Phase::Value(v);\n                Ok(Cow::Owned(k.to_lowercase()))"))
M("q-newtype-dup", "C02", (SQ, "        track!(value.serialize(self))\n    }\n    fn serialize_newtype_variant", "        if self.key.is_none() { self.key = Some(Cow::Borrowed(\"value\")); }\n        track!(value.serialize(self))\n    }\n    fn serialize_newtype_variant"))
# ---- C03
M("h-none-key", "C03", (SH, "track_assert!(self.key.take().is_some(), ErrorKind::Invalid);", "track_assert!(self.key.is_some(), ErrorKind::Invalid);"))
M("h-lower", "C03", (DH, "Cow::Owned(k.to_lowercase().into_bytes())", "Cow::Borrowed(k.as_bytes())"))
M("h-empty-skip", "C03", (SH, "            self.headers.add_raw_header(&key, val.as_bytes());", "            if !val.is_empty() {\n                self.headers.add_raw_header(&key, val.as_bytes());\n            }"))
M("h-list", "C03", (SH, "            self.headers.add_raw_header(&key, val.as_bytes());", "            for v in val.split(',') {\n                self.headers.add_raw_header(&key, v.as_bytes());\n            }"))
M("h-phase", "C03", (DH, "            self.phase.next();\n            Ok(v)", "            if !v.is_empty() || self.phase.is_key() { self.phase.next(); }\n            Ok(v)"))
M("h-value-lower", "C03", (DH, "                    Cow::Borrowed(v)\n", "                    Cow::Owned(v.to_ascii_lowercase())\n"))
M("h-u64", "C03", (SH, "    fn serialize_u64(self, v: u64) -> Result<Self::Ok> {\n        track!(self.append(Cow::Owned(v.to_string())))", "    fn serialize_u64(self, v: u64) -> Result<Self::Ok> {\n        track!(self.append(Cow::Owned((v as i64).to_string())))"))
# ---- C04
M("s-swap", "C04", (SS, "\"Locked\" => HttpStatus::Locked", "\"Locked\" => HttpStatus::FailedDependency"))
M("s-swap-client", "C04", (DS, "=> \"UseProxy\"", "=> \"TemporaryRedirect\""), )
M("s-default", "C04", (SS, "        _ => track_panic!(ErrorKind::Invalid, \"Unknown HTTP status: {:?}\", s),\n    })", "        \"\" => track_panic!(ErrorKind::Invalid, \"Unknown HTTP status: {:?}\", s),\n        _ => HttpStatus::InternalServerError,\n    })"))
M("s-number", "C04", (SS, "let status = track!(status.parse().map_err(Error::from))?;", "let status: u16 = track!(status.parse().map_err(Error::from))?;\n                let status = if status == 418 { 400 } else { status };"))
M("s-phase", "C04", (DS, "self.response.status().code().into_deserializer();", "(self.response.status().code() / 1).min(511).into_deserializer();"))
# ---- C05
M("r-head-len", "C05", (SR, "        request.add_header(&ContentLength(body.len() as u64));", "        if !body.is_empty() || self.method == HttpMethod::Post {\n            request.add_header(&ContentLength(body.len() as u64));\n        }"))
M("r-fragment", "C05", (SR, "            let relative_url = &self.temp_url[url::Position::BeforePath..];\n            let connection = self.connection.take().unwrap();\n            Ok(", "            let relative_url = &self.temp_url[url::Position::BeforePath..url::Position::AfterPath];\n            let connection = self.connection.take().unwrap();\n            Ok("))
M("r-header-first", "C05", (SR, "                let mut request = track!(self.take_request())?;", "                let mut request = match self.request.take() {\n                    Some(r) => r,\n                    None => {\n                        let c = self.connection.take().unwrap();\n                        c.build_request(self.method, \"/\")\n                    }\n                };"))
M("r-query-twice", "C05", (DR, "UrlQueryDeserializer::new(self.url.query_pairs())", "UrlQueryDeserializer::new(::url::form_urlencoded::parse(self.url.fragment().or(self.url.query()).unwrap_or(\"\").as_bytes()))"))
M("r-unknown", "C05", (SR, "                self.request = Some(request);\n                Ok(())\n            }\n            _ => track_panic!(ErrorKind::Invalid, \"Unknown field: {:?}\", key),", "                self.request = Some(request);\n                Ok(())\n            }\n            \"body\" => Ok(()),\n            _ => track_panic!(ErrorKind::Invalid, \"Unknown field: {:?}\", key),"))
M("r-method", "C05", (SR, "self.request = Some(connection.build_request(self.method, relative_url));", "let method = if self.method == HttpMethod::Head { HttpMethod::Get } else { self.method };\n                self.request = Some(connection.build_request(method, relative_url));"))
# ---- C06
M("p-len", "C06", (SS, "response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));", "if (*body).as_ref().len() > 0 {\n            response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));\n        }"))
M("p-nostatus", "C06", (SS, "        track_assert!(self.response.is_some(), ErrorKind::Invalid);\n        let mut response = self.response.expect(\"Never fail\");", "        let connection = self.connection;\n        let mut response = self.response.unwrap_or_else(|| connection.unwrap().build_response(HttpStatus::Ok));"))
M("p-twice", "C06", (SS, "    fn serialize_struct(self, _name: &'static str, _len: usize) -> Result<Self::SerializeStruct> {\n        Ok(self)", "    fn serialize_struct(self, _name: &'static str, len: usize) -> Result<Self::SerializeStruct> {\n        if len == 0 { let c = self.connection.take().unwrap(); self.response = Some(c.build_response(HttpStatus::NoContent)); }\n        Ok(self)"))
M("p-body-early", "C06", (SS, "        let mut serializer = RpcResponseSerializer::new(connection);\n        track!(rpc_response.serialize(&mut serializer))?;\n        let body = rpc_response.body();", "        let mut serializer = RpcResponseSerializer::new(connection);\n        let body = rpc_response.body();\n        track!(rpc_response.serialize(&mut serializer))?;"))
M("p-header-skip", "C06", (SS, "                let response = self.response.as_mut().unwrap();\n                let mut serializer = HttpHeaderSerializer::new(response.headers_mut());\n                track!(value.serialize(&mut serializer))?;\n                Ok(())\n            }\n            _ => track_panic!(ErrorKind::Invalid, \"Unknown field: {:?}\", key),\n        }\n    }\n    fn end(self) -> Result<Self::Ok> {\n        Ok(())\n    }\n}\n\nfn", "                let response = self.response.as_mut().unwrap();\n                let mut serializer = HttpHeaderSerializer::new(response.headers_mut());\n                let _ = value.serialize(&mut serializer);\n                Ok(())\n            }\n            _ => track_panic!(ErrorKind::Invalid, \"Unknown field: {:?}\", key),\n        }\n    }\n    fn end(self) -> Result<Self::Ok> {\n        Ok(())\n    }\n}\n\nfn"))
# ---- C07
M("t-var-empty", "C07", (RO, "self.children.get(&None) {", "self.children.get(&None).filter(|_| !segment.is_empty()) {"))
M("t-405", "C07", (RO, "self.get_value(method).ok_or(HttpStatus::MethodNotAllowed)", "self.get_value(method).ok_or(HttpStatus::NotFound)"))
M("t-head-get", "C07", (RO, "        self.leafs.get(&method)", "        self.leafs.get(&method).or_else(|| if method == HttpMethod::Head { self.leafs.get(&HttpMethod::Get) } else { None })"))
M("t-case", "C07", (RO, "        self.children.get(&Some(segment))", "        self.children.get(&Some(segment)).or_else(|| self.children.iter().find(|&(k, _)| k.map_or(false, |k| k.eq_ignore_ascii_case(segment))).map(|(_, v)| v))"))
M("t-overwrite", "C07", (RO, "            !node.leafs.contains_key(&method),", "            !node.leafs.contains_key(&method) || entry_point.segments().is_empty(),"))
M("t-slash", "C07", (RO, "        self.trie.root().find(segments, request.method())", "        match self.trie.root().find(segments, request.method()) {\n            Err(HttpStatus::NotFound) if url.path().ends_with('/') => {\n                self.trie.root().find(url.path()[1..url.path().len().max(2) - 1].split('/'), request.method())\n            }\n            r => r,\n        }"))
M("t-insert-before", "C07", (RO, "        track_assert!(\n            !node.leafs.contains_key(&method),", "        let dup = node.leafs.remove(&method).is_some();\n        track_assert!(\n            !dup,"))
# ---- C08
M("v-head", "C08", (SV, "if self.method == HttpMethod::Head {\n                        Box::new(response)", "if self.method == HttpMethod::Head && self.router.clone().route_any() {\n                        Box::new(response)"), (RO, "impl Router {\n", "impl Router {\n    pub fn route_any(&self) -> bool { !self.trie.root().children.is_empty() }\n"))
M("v-notfound-body", "C08", (SV, "                                    let future = futures::done(request.into_body_reader())\n                                        .map_err(Error::from)\n                                        .and_then(|request| {\n                                            request.read_all_bytes().map_err(Error::from)\n                                        })\n                                        .and_then(move |(request, _)| {\n                                            let request = request.into_inner();\n", "                                    let future = futures::done(Ok(request))\n                                        .and_then(move |request: Request<TcpStream>| {\n"))
M("v-status", "C08", (SV, "                                            Problem::trackable(HttpStatus::BadRequest, e)\n                                                .into_response();", "                                            Problem::trackable(HttpStatus::InternalServerError, e)\n                                                .into_response();"))
M("v-bad-dec", "C08", (SV, "                                    Problem::trackable(HttpStatus::BadRequest, e).into_response();", "                                    Problem::trackable(if P::method() == HttpMethod::Head { HttpStatus::NotFound } else { HttpStatus::BadRequest }, e).into_response();"))
M("v-method-stale", "C08", (SV, "                    self.method = request.method();", "                    if request.method() != HttpMethod::Head || self.method == HttpMethod::Get { self.method = request.method(); }"))
M("v-abs", "C08", (MI, "            .parse(url)\n", "            .parse(url.trim_left_matches('/'))\n"))
M("v-one-shot", "C08", (SV, "                    Phase::A(future)\n                }\n                _ => unreachable!(),\n            };\n            self.phase = next;\n        }\n    }\n}\nimpl Future for HandleHttpRequest", "                    if self.method == HttpMethod::Delete { self.phase = Phase::A(future); return match self.phase.poll() { Ok(Async::NotReady) => Ok(Async::NotReady), Ok(_) => Ok(Async::Ready(())), Err(e) => Err(e.into()) }; }\n                    Phase::A(future)\n                }\n                _ => unreachable!(),\n            };\n            self.phase = next;\n        }\n    }\n}\nimpl Future for HandleHttpRequest"))
# ---- C09, C10
M("l-ge", "C09", (PO, "while self.connections.len() > self.pool_size {", "while self.connections.len() > self.pool_size + 1 {"))
M("l-one", "C09", (PO, "while self.connections.len() > self.pool_size {", "while self.connections.len() > self.pool_size.max(1) {"))
M("l-newest", "C09", (PO, "                .map(|(seq_no, addr)| ConnectionId::new(*addr, *seq_no))\n                .nth(0)", "                .map(|(seq_no, addr)| ConnectionId::new(*addr, *seq_no))\n                .last()"))
M("l-second", "C09", (PO, "                .map(|(seq_no, addr)| ConnectionId::new(*addr, *seq_no))\n                .nth(0)", "                .map(|(seq_no, addr)| ConnectionId::new(*addr, *seq_no))\n                .nth(if self.pool_size > 2 { 1 } else { 0 })"))
M("l-byaddr", "C09", (PO, "            let id = self.lru_queue\n                .iter()\n                .map(|(seq_no, addr)| ConnectionId::new(*addr, *seq_no))\n                .nth(0)", "            let id = self.connections\n                .keys()\n                .cloned()\n                .nth(0)"))
M("l-seq", "C09", (PO, "        self.seq_no += 1;\n", "        self.seq_no = (self.seq_no + 1) % 7;\n"))
M("l-queue-leak", "C10", (PO, "            self.lru_queue.remove(&id.seq_no);\n            let connection", "            let connection"))
M("l-noaddr", "C10", (PO, ".and_then(|id| if id.addr == addr { Some(id) } else { None })", ".and_then(|id| if id.addr.port() == addr.port() { Some(id) } else { None })"))
M("l-clone", "C10", (PO, "        let lower = ConnectionId::new(addr, 0);", "        let lower = ConnectionId::new(addr, 1);"))
M("l-port", "C10", (PO, "(self.addr, self.seq_no).cmp(&(other.addr, other.seq_no))", "(self.addr.port(), self.seq_no).cmp(&(other.addr.port(), other.seq_no))"))
M("l-seqfirst", "C10", (PO, "(self.addr, self.seq_no).cmp(&(other.addr, other.seq_no))", "(self.seq_no, self.addr).cmp(&(other.seq_no, other.addr))"))
# ---- C11
M("b-once", "C11", (PO, "                        self.blacklist.insert(addr, suspended_until);\n                        let future", "                        let future"))
M("b-flip", "C11", (PO, "if suspended_until > SystemTime::now() {", "if suspended_until < SystemTime::now() {"))
M("b-extend", "C11", (PO, "                        self.blacklist.insert(addr, suspended_until);\n                        let future", "                        self.blacklist.insert(addr, SystemTime::now() + self.suspended_duration);\n                        let future"))
M("b-dur", "C11", (PO, "now.checked_add(self.suspended_duration)", "now.checked_add(self.suspended_duration.min(Duration::from_secs(3600)))"))
M("b-first", "C11", (PO, "                self.blacklist.insert(addr, suspended_until);\n            }\n        }\n    }", "                self.blacklist.entry(addr).or_insert(suspended_until);\n            }\n        }\n    }"))
M("b-clear", "C11", (PO, "        self.seq_no += 1;\n", "        self.seq_no += 1;\n        self.blacklist.remove(&addr);\n"))
M("b-idle", "C11", (PO, "                if let Some(suspended_until) = self.blacklist.remove(&addr) {", "                let idle = self.lru_queue.values().any(|a| *a == addr);\n                if let Some(suspended_until) = if idle { None } else { self.blacklist.remove(&addr) } {"))
M("b-ip", "C11", (PO, "                self.blacklist.insert(addr, suspended_until);\n            }\n        }\n    }", "                self.blacklist.insert(SocketAddr::new(addr.ip(), addr.port()), suspended_until);\n            }\n        }\n    }"))
M("b-idle-fail", "C11", (PO, "            PooledConnection {\n                phase,\n                on_error: None,\n            }\n        } else", "            PooledConnection {\n                phase,\n                on_error: Some((addr, self.command_tx.clone())),\n            }\n        } else"))
M("b-callfail", "C11", (PO, "        if let Async::Ready((response, connection)) = track!(self.inner.poll())? {", "        let r = self.inner.poll();\n        if r.is_err() { let _ = self.handle.command_tx.send(Command::AddToBlacklist { addr: self.addr }); }\n        if let Async::Ready((response, connection)) = track!(r)? {"))
# ---- C12
M("c-head-body", "C12", (CL, "if P::method() == HttpMethod::Head {", "if P::method() == HttpMethod::Head || response.status().code() == 304 {"))
M("c-empty-body", "C12", (CL, "                    rpc_response.set_body(body);", "                    if !body.is_empty() { rpc_response.set_body(body); }"))
M("c-retry", "C12", (CL, "let mut rpc_request = self.request.take().expect(\"Never fail\");\n                    let mut ser = RpcRequestSerializer::new(connection, P::method(), entry_point);\n                    track!(rpc_request.serialize(&mut ser))?;\n                    let body = rpc_request.body();", "let mut rpc_request = self.request.take().expect(\"Never fail\");\n                    let body = rpc_request.body();\n                    let mut ser = RpcRequestSerializer::new(connection, P::method(), entry_point);\n                    track!(rpc_request.serialize(&mut ser))?;"))
M("c-release-addr", "C12", (PO, "            self.handle.release_connection(self.addr, connection);", "            let peer = connection.inner_ref().peer_addr().unwrap_or(self.addr);\n            self.handle.release_connection(peer, connection);"))
M("c-no-release", "C12", (PO, "            self.handle.release_connection(self.addr, connection);", "            if self.handle.command_tx.send(Command::ReleaseConnection { addr: self.addr, connection }).is_err() { self.handle.acquire_connection(self.addr); self.handle.acquire_connection(self.addr); }"))
# ---- C13
M("pb-ct", "C13", (PB, "#[serde(rename = \"application/problem+json\")]", "#[serde(rename = \"application/problem-json\")]"))
M("pb-status", "C13", (PB, "            Problem::Trackable(ref p) => p.status,", "            Problem::Trackable(ref p) => if p.status < 400 { 500 } else { p.status },"))
M("pb-detail", "C13", (PB, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    #[serde(default)]\n    pub instance: Option<Url>,", "    #[serde(skip_serializing)]\n    #[serde(default)]\n    pub instance: Option<Url>,"))
M("pb-body", "C13", (PB, "        if let Ok(body) = serdeconv::from_json_slice(&body) {\n            // TODO\n            self.body = body;\n        }", "        self.body = serdeconv::from_json_slice(&body).expect(\"a problem\");"))
M("pb-default", "C13", (PB, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    #[serde(default)]\n    pub history", "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub history"))
# ---- C14
M("e-pretty", "C14", (JP, "to_json_string_pretty(", "to_json_string("))
M("e-trim", "C14", (JS, "serdeconv::from_json_str(&json)", "serdeconv::from_json_str(json.trim_right_matches(|c| c == ';' || c == ' '))"))
M("e-null", "C14", (JS, "    json.serialize(serializer)", "    if json == \"null\" { return serializer.serialize_none(); }\n    json.serialize(serializer)"))
M("e-msgpack-err", "C14", (MP, "serdeconv::to_msgpack_vec(&value)).map_err(|e| ser::Error::custom(e))?", "serdeconv::to_msgpack_vec(&value)).or_else(|_| serdeconv::to_json_string(&value).map(|s| s.into_bytes())).map_err(|e| ser::Error::custom(e))?"))
M("e-msgpack-empty", "C14", (MP, "    track!(serdeconv::from_msgpack_slice(&msgpack))", "    let msgpack: Vec<u8> = if (&msgpack as &Vec<u8>).is_empty() { vec![0xc0] } else { msgpack };\n    track!(serdeconv::from_msgpack_slice(&msgpack))"))
# ---- C15
M("d-trim", "C15", (DQ, "s.parse().map_err", "s.trim().parse().map_err"))
M("d-u8", "C15", (DH, "        let v = track!(parse_slice(v))?;\n        track!(visitor.visit_u8(v))", "        let v: u16 = track!(parse_slice(v))?;\n        track!(visitor.visit_u8(v as u8))"))
M("d-bool", "C15", (DQ, "        let v = track!(parse_cow_str(v))?;\n        track!(visitor.visit_bool(v))", "        let v = if v.is_empty() { true } else { track!(parse_cow_str(v))? };\n        track!(visitor.visit_bool(v))"))
M("d-f32", "C15", (DP, "track!(visitor.visit_f32(v))", "track!(visitor.visit_f32((v as f64) as f32 + 0.0))"))

# ==== edits that keep the behaviour ====
R("r-pool-match", "C09 C10 C11 C12", (PO, "        if let Async::Ready((response, connection)) = track!(self.inner.poll())? {\n            self.handle.release_connection(self.addr, connection);\n            Ok(Async::Ready(response))\n        } else {\n            Ok(Async::NotReady)\n        }", "        match track!(self.inner.poll())? {\n            Async::NotReady => Ok(Async::NotReady),\n            Async::Ready((response, connection)) => {\n                let addr = self.addr;\n                self.handle.release_connection(addr, connection);\n                Ok(Async::Ready(response))\n            }\n        }"))
R("r-pool-next", "C09 C10", (PO, "                .map(|(seq_no, addr)| ConnectionId::new(*addr, *seq_no))\n                .nth(0)", "                .next()\n                .map(|(seq_no, addr)| ConnectionId::new(*addr, *seq_no))"))
R("r-pool-helper", "C09 C10 C11", (PO, "                let now = SystemTime::now();\n                let suspended_until = now.checked_add(self.suspended_duration)\n                    .unwrap_or_else(|| now + Duration::from_secs(u64::from(u32::max_value())));\n                self.blacklist.insert(addr, suspended_until);\n            }\n        }\n    }", "                self.suspend(addr);\n            }\n        }\n    }\n    fn suspend(&mut self, addr: SocketAddr) {\n        let now = SystemTime::now();\n        let suspended_until = now.checked_add(self.suspended_duration)\n            .unwrap_or_else(|| now + Duration::from_secs(u64::from(u32::max_value())));\n        self.blacklist.insert(addr, suspended_until);\n    }"))
R("r-pool-get", "C09 C10 C11", (PO, "                if let Some(suspended_until) = self.blacklist.remove(&addr) {\n                    if suspended_until > SystemTime::now() {\n                        self.blacklist.insert(addr, suspended_until);\n", "                if let Some(suspended_until) = self.blacklist.get(&addr).cloned() {\n                    if suspended_until <= SystemTime::now() {\n                        self.blacklist.remove(&addr);\n                    } else {\n"))
R("r-pool-order", "C09 C10 C11", (PO, "            self.lru_queue.remove(&id.seq_no);\n            self.connections.remove(&id);\n", "            self.connections.remove(&id);\n            self.lru_queue.remove(&id.seq_no);\n"))
R("r-pool-loop", "C09 C10 C11", (PO, "        while let Async::Ready(command) = self.command_rx.poll().expect(\"Never fails\") {\n            self.handle_command(command.expect(\"Never fails\"));\n        }\n        Ok(Async::NotReady)", "        loop {\n            match self.command_rx.poll().expect(\"Never fails\") {\n                Async::Ready(command) => self.handle_command(command.expect(\"Never fails\")),\n                Async::NotReady => return Ok(Async::NotReady),\n            }\n        }"))
R("r-pool-range", "C09 C10 C11", (PO, "        if let Some(id) = self.connections\n            .range((Bound::Included(lower), Bound::Unbounded))\n            .map(|(id, _)| id)\n            .cloned()\n            .nth(0)\n            .and_then(|id| if id.addr == addr { Some(id) } else { None })\n        {", "        let found = self.connections\n            .range((Bound::Included(lower), Bound::Unbounded))\n            .next()\n            .map(|(id, _)| *id);\n        if let Some(id) = found.and_then(|id| if id.addr == addr { Some(id) } else { None }) {"))
R("r-q-append", "C02 C05 C15", (SQ, "        if let Some(key) = self.key.take() {\n            let val = &key_or_val;\n            self.query.append_pair(&key, val);\n        } else {\n            let key = key_or_val.into_owned();\n            self.key = Some(Cow::Owned(key));\n        }", "        match self.key.take() {\n            Some(key) => {\n                self.query.append_pair(&key, &key_or_val);\n            }\n            None => {\n                self.key = Some(Cow::Owned(key_or_val.into_owned()));\n            }\n        }"))
R("r-q-next", "C02 C15", (DQ, "        match self.phase.take() {\n            Phase::Key => {\n                let (k, v) = track!(self.query.next().ok_or_else(|| ErrorKind::Invalid.error()))?;\n                self.phase = Phase::Value(v);\n                Ok(k)\n            }\n            Phase::Value(v) => Ok(v),\n        }", "        if let Phase::Value(v) = self.phase.take() {\n            return Ok(v);\n        }\n        let (k, v) = track!(self.query.next().ok_or_else(|| ErrorKind::Invalid.error()))?;\n        self.phase = Phase::Value(v);\n        Ok(k)"))
R("r-h-next", "C03 C15", (DH, "        if let Some(&(k, v)) = self.headers.peek() {\n            let v = match self.phase {\n                Phase::Key => Cow::Owned(k.to_lowercase().into_bytes()),\n                Phase::Value => {\n                    let _ = self.headers.next();\n                    Cow::Borrowed(v)\n                }\n            };\n            self.phase.next();\n            Ok(v)\n        } else {\n            track_panic!(ErrorKind::Invalid);\n        }", "        let (k, v) = match self.headers.peek() {\n            Some(&(k, v)) => (k, v),\n            None => track_panic!(ErrorKind::Invalid),\n        };\n        let bytes = if self.phase.is_key() {\n            Cow::Owned(k.to_lowercase().into_bytes())\n        } else {\n            self.headers.next();\n            Cow::Borrowed(v)\n        };\n        self.phase.next();\n        Ok(bytes)"))
R("r-r-helper", "C05", (SR, "                if !self.is_path_initialized {\n                    let mut serializer = track!(UrlPathSerializer::new(\n                        &self.entry_point,\n                        &mut self.temp_url,\n                    ))?;\n                    track!(().serialize(&mut serializer))?;\n                    self.is_path_initialized = true;\n                }\n                {", "                if !self.is_path_initialized {\n                    track!(self.init_path(&()))?;\n                }\n                {"), (SR, "    fn take_request(&mut self)", "    fn init_path<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<()> {\n        {\n            let mut serializer = track!(UrlPathSerializer::new(\n                &self.entry_point,\n                &mut self.temp_url,\n            ))?;\n            track!(value.serialize(&mut serializer))?;\n        }\n        self.is_path_initialized = true;\n        Ok(())\n    }\n    fn take_request(&mut self)"))
R("r-s-helper", "C04 C06", (SS, "        track_assert!(self.connection.is_some(), ErrorKind::Invalid);\n        let status = track!(status_from_str(variant))?;\n        let response = self.connection.take().unwrap().build_response(status);\n        self.response = Some(response);\n        Ok(self)", "        track!((&mut *self).serialize_unit_variant(_name, _variant_index, variant))?;\n        Ok(self)"))
R("r-v-helper", "C08 C07 C13", (SV, "                                        let rpc_response =\n                                            Problem::trackable(HttpStatus::BadRequest, e)\n                                                .into_response();\n                                        track!(RpcResponseSerializer::serialize(\n                                            rpc_response,\n                                            request.finish(),\n                                        ))", "                                        let problem = Problem::trackable(HttpStatus::BadRequest, e);\n                                        track!(RpcResponseSerializer::serialize(problem.into_response(), request.finish()))"))
R("r-t-find", "C07", (RO, "            let mut status = HttpStatus::NotFound;\n            if let Some(child) = self.get_child(segment) {\n                match child.find(segments.clone(), method) {\n                    Ok(handler) => return Ok(handler),\n                    Err(e) => status = e,\n                }\n            }", "            let mut status = HttpStatus::NotFound;\n            let exact = self.get_child(segment);\n            if let Some(child) = exact {\n                let found = child.find(segments.clone(), method);\n                if found.is_ok() {\n                    return found;\n                }\n                status = found.err().unwrap();\n            }"))
R("r-c-order", "C12", (CL, "                    let entry_point = P::entry_point();\n                    let mut rpc_request = self.request.take().expect(\"Never fail\");\n                    let mut ser = RpcRequestSerializer::new(connection, P::method(), entry_point);", "                    let mut rpc_request = self.request.take().expect(\"Never fail\");\n                    let mut ser = RpcRequestSerializer::new(connection, P::method(), P::entry_point());"))
R("r-p-append", "C01", (SP, "        track!(self.serialize_u64(v as u64))\n    }\n    fn serialize_u64", "        let wide = u64::from(v);\n        track!(self.serialize_u64(wide))\n    }\n    fn serialize_u64"))
# ---- second round of edits that keep the behaviour
REFUSE = "                                let future = futures::done(request.into_body_reader())\n                                    .map_err(Error::from)\n                                    .and_then(|request| {\n                                        request.read_all_bytes().map_err(Error::from)\n                                    })\n                                    .and_then(|(request, _)| {\n                                        let request = request.into_inner();\n                                        let rpc_response =\n                                            Problem::trackable(HttpStatus::BadRequest, e)\n                                                .into_response();\n                                        track!(RpcResponseSerializer::serialize(\n                                            rpc_response,\n                                            request.finish(),\n                                        ))\n                                    });\n                                Box::new(future)"
REFUSE2 = "                                    let future = futures::done(request.into_body_reader())\n                                        .map_err(Error::from)\n                                        .and_then(|request| {\n                                            request.read_all_bytes().map_err(Error::from)\n                                        })\n                                        .and_then(move |(request, _)| {\n                                            let request = request.into_inner();\n                                            let rpc_response =\n                                                Problem::about_blank(status).into_response();\n                                            track!(RpcResponseSerializer::serialize(\n                                                rpc_response,\n                                                request.finish(),\n                                            ))\n                                        });\n                                    Box::new(future)"
HELPER = "\nfn reject(\n    request: Request<TcpStream>,\n    problem: Problem,\n) -> BoxFuture<(Response<TcpStream>, Box<dyn AsRef<[u8]> + Send + 'static>), Error> {\n    let future = futures::done(request.into_body_reader())\n        .map_err(Error::from)\n        .and_then(|request| request.read_all_bytes().map_err(Error::from))\n        .and_then(move |(request, _)| {\n            let request = request.into_inner();\n            track!(RpcResponseSerializer::serialize(\n                problem.into_response(),\n                request.finish(),\n            ))\n        });\n    Box::new(future)\n}\n"
R("r2-v-reject", "C08 C07 C13", (SV, REFUSE, "                                reject(request, Problem::trackable(HttpStatus::BadRequest, e))"), (SV, REFUSE2, "                                    reject(request, Problem::about_blank(status))"), (SV, "struct HandleHttpRequest {", HELPER + "struct HandleHttpRequest {"))
R("r2-v-kind", "C08", (SV, "                            if e.kind() == io::ErrorKind::UnexpectedEof\n                                || e.kind() == io::ErrorKind::ConnectionReset\n                            {\n                                // The connection is reset by the peer.\n                                return Ok(None);\n                            }", "                            match e.kind() {\n                                io::ErrorKind::UnexpectedEof | io::ErrorKind::ConnectionReset => {\n                                    // The connection is reset by the peer.\n                                    return Ok(None);\n                                }\n                                _ => {}\n                            }"))
R("r2-v-head", "C08", (SV, "                    let future: BoxFuture<_, _> = if self.method == HttpMethod::Head {\n                        Box::new(response)\n                    } else {", "                    let is_head = self.method == HttpMethod::Head;\n                    let future: BoxFuture<_, _> = if is_head {\n                        Box::new(response)\n                    } else {"))
R("r2-v-match", "C08", (SV, "                match deserialize_result {\n                    Err(e) => {", "                match deserialize_result {\n                    Ok(r) => r,\n                    Err(e) => {"), (SV, "                        return future;\n                    }\n                    Ok(r) => r,\n                }", "                        return future;\n                    }\n                }"))
R("r2-v-regret", "C08 C07", (SV, "        track!(self\n            .router\n            .register_handler(P::method(), P::entry_point(), handle_http_request,))?;\n        Ok(())", "        let method = P::method();\n        let entry_point = P::entry_point();\n        track!(self.router.register_handler(method, entry_point, handle_http_request))"))
R("r2-v-chain", "C08", (SV, "                        .handle_rpc(rpc_request)\n                        .map_err(|_| unreachable!())\n                        .and_then(move |rpc_response| {\n                            track!(RpcResponseSerializer::serialize(\n                                rpc_response,\n                                http_request.finish(),\n                            ))\n                        })", "                        .handle_rpc(rpc_request)\n                        .map_err(|_| unreachable!())\n                        .and_then(move |rpc_response| {\n                            let connection = http_request.finish();\n                            track!(RpcResponseSerializer::serialize(rpc_response, connection))\n                        })"))
R("r2-p-while", "C01 C05", (SP, "        while self.index < self.entry_point.segments().len() {\n            if let Some(s) = self.entry_point.segments()[self.index].as_option() {\n                self.segments.push(s);\n                self.index += 1;\n            } else {\n                return false;\n            }\n        }\n        true", "        let entry = self.entry_point.segments();\n        while self.index < entry.len() {\n            match entry[self.index].as_option() {\n                Some(s) => {\n                    self.segments.push(s);\n                    self.index += 1;\n                }\n                None => return false,\n            }\n        }\n        true"))
R("r2-p-loop", "C01 C05", (SP, "        while self.index < self.entry_point.segments().len() {\n            if let Some(s) = self.entry_point.segments()[self.index].as_option() {\n                self.segments.push(s);\n                self.index += 1;\n            } else {\n                return false;\n            }\n        }\n        true", "        for segment in &self.entry_point.segments()[self.index..] {\n            match segment.as_option() {\n                Some(s) => {\n                    self.segments.push(s);\n                    self.index += 1;\n                }\n                None => return false,\n            }\n        }\n        true"))
R("r2-p-get", "C01 C05", (SP, "        while self.index < self.entry_point.segments().len() {\n            if let Some(s) = self.entry_point.segments()[self.index].as_option() {\n                self.segments.push(s);\n                self.index += 1;\n            } else {\n                return false;\n            }\n        }\n        true", "        while let Some(segment) = self.entry_point.segments().get(self.index) {\n            if let Some(s) = segment.as_option() {\n                self.segments.push(s);\n                self.index += 1;\n            } else {\n                return false;\n            }\n        }\n        true"))
R("r2-d-loop", "C01 C15", (DP, "        track_assert!(\n            self.index < self.entry_point.segments().len(),\n            ErrorKind::Invalid\n        );\n        track_assert!(!self.is_end_of_segment(), ErrorKind::Invalid);\n        let i = self.index;\n        self.index += 1;\n        if let Some(expected) = self.entry_point.segments()[i].as_option() {\n            let s = self.segments.next().unwrap();\n            track_assert_eq!(s, expected, ErrorKind::Invalid);\n            self.next_value()\n        } else {\n            self.free_vars -= 1;\n            let s = self.segments.next().unwrap();\n            Ok(s)\n        }", "        loop {\n            track_assert!(\n                self.index < self.entry_point.segments().len(),\n                ErrorKind::Invalid\n            );\n            track_assert!(!self.is_end_of_segment(), ErrorKind::Invalid);\n            let i = self.index;\n            self.index += 1;\n            let s = self.segments.next().unwrap();\n            match self.entry_point.segments()[i].as_option() {\n                Some(expected) => track_assert_eq!(s, expected, ErrorKind::Invalid),\n                None => {\n                    self.free_vars -= 1;\n                    return Ok(s);\n                }\n            }\n        }"))
R("r2-d-hoist", "C01 C15", (DP, "        let i = self.index;\n        self.index += 1;\n        if let Some(expected) = self.entry_point.segments()[i].as_option() {\n            let s = self.segments.next().unwrap();\n            track_assert_eq!(s, expected, ErrorKind::Invalid);\n            self.next_value()\n        } else {\n            self.free_vars -= 1;\n            let s = self.segments.next().unwrap();\n            Ok(s)\n        }", "        let segment = &self.entry_point.segments()[self.index];\n        self.index += 1;\n        let s = self.segments.next().unwrap();\n        if let Some(expected) = segment.as_option() {\n            track_assert_eq!(s, expected, ErrorKind::Invalid);\n            self.next_value()\n        } else {\n            self.free_vars -= 1;\n            Ok(s)\n        }"))
R("r2-d-finish", "C01 C15", (DP, "        for segment in &self.entry_point.segments()[self.index..] {\n            let expected", "        for segment in self.entry_point.segments().iter().skip(self.index) {\n            let expected"))
R("r2-d-helper", "C01 C15", (DP, "        let v = track!(self.next_value())?;\n        let v = track!(parse_escaped_str(v))?;\n        track!(visitor.visit_i8(v))", "        let v = track!(self.parse_next())?;\n        track!(visitor.visit_i8(v))"), (DP, "    fn next_value(&mut self)", "    fn parse_next<T>(&mut self) -> Result<T>\n    where\n        T: std::str::FromStr,\n        Error: From<T::Err>,\n    {\n        let v = track!(self.next_value())?;\n        track!(parse_escaped_str(v))\n    }\n    fn next_value(&mut self)"))
R("r2-ep-count", "C01 C05 C07", ("src/procedure.rs", "        self.segments\n            .iter()\n            .filter(|s| s == &&PathSegment::Var)\n            .count()", "        let mut n = 0;\n        for s in self.segments {\n            if *s == PathSegment::Var {\n                n += 1;\n            }\n        }\n        n"))
R("r2-ep-matches", "C01 C05", ("src/procedure.rs", "            .filter(|s| s == &&PathSegment::Var)", "            .filter(|s| s.as_option().is_none())"))
R("r2-t-insert", "C07", (RO, "            use types::PathSegment::*;\n            let key = match *segment {\n                Val(s) => Some(s),\n                Var => None,\n            };\n            let prev = node;\n            node = prev.children.entry(key).or_insert_with(|| TrieNode::new());", "            let prev = node;\n            node = prev\n                .children\n                .entry(segment.as_option())\n                .or_insert_with(TrieNode::new);"))
R("r2-t-dup", "C07", (RO, "        track_assert!(\n            !node.leafs.contains_key(&method),\n            ErrorKind::Invalid,\n            \"Conflicted: entry_point={:?}, method={:?}\",\n            entry_point,\n            method\n        );", "        if node.leafs.contains_key(&method) {\n            track_panic!(\n                ErrorKind::Invalid,\n                \"Conflicted: entry_point={:?}, method={:?}\",\n                entry_point,\n                method\n            );\n        }"))
R("r2-t-route", "C07 C08", (RO, "        let segments = url.path_segments().ok_or(HttpStatus::NotFound)?;\n        self.trie.root().find(segments, request.method())", "        match url.path_segments() {\n            Some(segments) => self.trie.root().find(segments, request.method()),\n            None => Err(HttpStatus::NotFound),\n        }"))
R("r2-t-leaf", "C07", (RO, "        } else if self.leafs.is_empty() {\n            Err(HttpStatus::NotFound)\n        } else {\n            self.get_value(method).ok_or(HttpStatus::MethodNotAllowed)\n        }", "        } else {\n            match self.get_value(method) {\n                Some(handler) => Ok(handler),\n                None if self.leafs.is_empty() => Err(HttpStatus::NotFound),\n                None => Err(HttpStatus::MethodNotAllowed),\n            }\n        }"))
R("r2-c-if", "C12", (CL, "        if let Async::Ready((response, _)) = track!(self.0.poll())? {\n            Ok(Async::Ready(response))\n        } else {\n            Ok(Async::NotReady)\n        }", "        let polled = track!(self.0.poll())?;\n        Ok(polled.map(|(response, _)| response))"))
R("r2-c-call", "C12", (CL, "        let client = miasht::Client::new();\n        let future = Call(CallInner {\n            request: Some(request),\n            phase: Phase::A(Box::new(client.connect(self.server).map_err(Error::from))),\n        });\n        future", "        let connect = miasht::Client::new()\n            .connect(self.server)\n            .map_err(Error::from);\n        Call(CallInner {\n            request: Some(request),\n            phase: Phase::A(Box::new(connect)),\n        })"))
R("r2-c-body", "C12", (CL, "                    rpc_response.set_body(body);\n                    return Ok(Async::Ready((rpc_response, response.finish())));", "                    rpc_response.set_body(body);\n                    let connection = response.finish();\n                    return Ok(Async::Ready((rpc_response, connection)));"))
R("r2-c-decode", "C12", (CL, "                    let mut rpc_response = {\n                        let mut deserializer = RpcResponseDeserializer::new(&response);\n                        track!(P::Response::deserialize(&mut deserializer))?\n                    };", "                    let mut rpc_response = track!(decode::<P>(&response))?;"), (CL, "/// RPC Client.\n", "fn decode<P: Procedure>(response: &Response<TcpStream>) -> ::Result<P::Response> {\n    let mut deserializer = RpcResponseDeserializer::new(response);\n    track!(P::Response::deserialize(&mut deserializer))\n}\n\n/// RPC Client.\n"))
R("r2-pb-new", "C13", (PB, "        ProblemResponse {\n            status: Some(body.get_status_code()),\n            header: ProblemHeader::new(),\n            body,\n        }", "        let status = body.get_status_code();\n        let header = ProblemHeader::new();\n        ProblemResponse {\n            status: Some(status),\n            header,\n            body,\n        }"))
R("r2-pb-set", "C13", (PB, "        if let Ok(body) = serdeconv::from_json_slice(&body) {\n            // TODO\n            self.body = body;\n        }", "        match serdeconv::from_json_slice(&body) {\n            Ok(problem) => self.body = problem,\n            Err(_) => {}\n        }"))
R("r2-pb-track", "C13", (PB, "            detail: error.source().map(|c| c.to_string()),\n            instance: None,\n            history: error\n                .history()\n                .map(|h| h.events().iter().map(|e| e.to_string()).collect()),", "            detail: error.source().map(ToString::to_string),\n            instance: None,\n            history: match error.history() {\n                Some(h) => Some(h.events().iter().map(|e| e.to_string()).collect()),\n                None => None,\n            },"))
R("r2-pb-replace", "C13", (PB, "        self.status = Some(problem.get_status_code());\n        self.body = problem;", "        *self = ProblemResponse::new(problem);"))
R("r2-j-match", "C14", (JS, "    let json = track!(serdeconv::to_json_string(&value)).map_err(|e| ser::Error::custom(e))?;\n    json.serialize(serializer)", "    match track!(serdeconv::to_json_string(&value)) {\n        Ok(json) => json.serialize(serializer),\n        Err(e) => Err(ser::Error::custom(e)),\n    }"))
R("r2-j-str", "C14", (JS, "    json.serialize(serializer)", "    serializer.serialize_str(&json)"))
R("r2-j-fn", "C14", (JS, "    track!(serdeconv::from_json_str(&json)).map_err(|e| de::Error::custom(e))", "    track!(serdeconv::from_json_str(&json)).map_err(de::Error::custom)"))
R("r2-m-and", "C14", (MP, "    let msgpack = Vec::deserialize(deserializer)?;\n    track!(serdeconv::from_msgpack_slice(&msgpack)).map_err(|e| de::Error::custom(e))", "    let bytes: Vec<u8> = Vec::deserialize(deserializer)?;\n    let value = track!(serdeconv::from_msgpack_slice(&bytes)).map_err(|e| de::Error::custom(e))?;\n    Ok(value)"))
R("r2-mi", "C08", (MI, "    let url = track!(\n        Url::options()\n            .base_url(unsafe { DUMMY_BASE_URL })\n            .parse(url)\n            .map_err(Error::from)\n    )?;\n    Ok(url)", "    let base = unsafe { DUMMY_BASE_URL };\n    let parsed = Url::options().base_url(base).parse(url);\n    track!(parsed.map_err(Error::from))"))
R("r2-o-evict", "C09 C10", (PO, "        while self.connections.len() > self.pool_size {\n            let id = self.lru_queue\n                .iter()\n                .map(|(seq_no, addr)| ConnectionId::new(*addr, *seq_no))\n                .nth(0)\n                .expect(\"Never failes\");\n            self.lru_queue.remove(&id.seq_no);\n            self.connections.remove(&id);\n        }", "        loop {\n            if self.connections.len() <= self.pool_size {\n                break;\n            }\n            let id = self.oldest();\n            self.lru_queue.remove(&id.seq_no);\n            self.connections.remove(&id);\n        }"), (PO, "    fn drop_exceeded_lru_connections", "    fn oldest(&self) -> ConnectionId {\n        let (seq_no, addr) = self.lru_queue.iter().next().expect(\"Never failes\");\n        ConnectionId::new(*addr, *seq_no)\n    }\n    fn drop_exceeded_lru_connections"))
R("r2-o-exceed", "C09 C10", (PO, "        while self.connections.len() > self.pool_size {\n", "        let exceeded = self.connections.len().saturating_sub(self.pool_size);\n        for _ in 0..exceeded {\n"))
R("r2-o-acq", "C10 C11", (PO, "            self.lru_queue.remove(&id.seq_no);\n            let connection = self.connections.remove(&id).expect(\"Never fails\");\n            let phase = Phase::A(futures::finished(connection));\n            PooledConnection {\n                phase,\n                on_error: None,\n            }", "            let connection = self.connections.remove(&id).expect(\"Never fails\");\n            self.lru_queue.remove(&id.seq_no);\n            PooledConnection {\n                phase: Phase::A(futures::finished(connection)),\n                on_error: None,\n            }"))
R("r2-o-susp", "C10 C11", (PO, "                if let Some(suspended_until) = self.blacklist.remove(&addr) {\n                    if suspended_until > SystemTime::now() {\n                        self.blacklist.insert(addr, suspended_until);\n                        let future = PooledConnection::failed(\n                            ErrorKind::Other\n                                .cause(format!(\n                                    \"The address {:?} is unavailable until {:?}\",\n                                    addr, suspended_until\n                                ))\n                                .into(),\n                        );\n                        let _ = reply.send(future);\n                        return;\n                    }\n                }\n                let future = self.acquire_connection(addr);\n                let _ = reply.send(future);", "                let future = match self.suspended_until(&addr) {\n                    Some(suspended_until) => PooledConnection::failed(\n                        ErrorKind::Other\n                            .cause(format!(\n                                \"The address {:?} is unavailable until {:?}\",\n                                addr, suspended_until\n                            ))\n                            .into(),\n                    ),\n                    None => self.acquire_connection(addr),\n                };\n                let _ = reply.send(future);"), (PO, "    fn acquire_connection(&mut self, addr: SocketAddr) -> PooledConnection {", "    fn suspended_until(&mut self, addr: &SocketAddr) -> Option<SystemTime> {\n        let until = match self.blacklist.get(addr) {\n            Some(t) => *t,\n            None => return None,\n        };\n        if until > SystemTime::now() {\n            Some(until)\n        } else {\n            self.blacklist.remove(addr);\n            None\n        }\n    }\n    fn acquire_connection(&mut self, addr: SocketAddr) -> PooledConnection {"))
R("r2-o-poll", "C10 C11", (PO, "        match track!(self.phase.poll().map_err(Error::from)) {\n            Err(e) => {\n                if let Some((addr, tx)) = self.on_error.take() {\n                    let _ = tx.send(Command::AddToBlacklist { addr });\n                }\n                Err(e)\n            }\n            Ok(Async::Ready(Phase::A(connection))) => Ok(Async::Ready(connection)),\n            Ok(Async::Ready(Phase::B(connection))) => Ok(Async::Ready(connection)),\n            Ok(Async::Ready(_)) => unreachable!(),\n            Ok(Async::NotReady) => Ok(Async::NotReady),\n        }", "        let polled = track!(self.phase.poll().map_err(Error::from));\n        if polled.is_err() {\n            if let Some((addr, tx)) = self.on_error.take() {\n                let _ = tx.send(Command::AddToBlacklist { addr });\n            }\n        }\n        match polled? {\n            Async::Ready(Phase::A(connection)) | Async::Ready(Phase::B(connection)) => {\n                Ok(Async::Ready(connection))\n            }\n            Async::Ready(_) => unreachable!(),\n            Async::NotReady => Ok(Async::NotReady),\n        }"))
R("r2-s-len", "C06 C08", (SS, "response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));", "let length = (*body).as_ref().len() as u64;\n        response.add_header(&headers::ContentLength(length));"))

# ---- round 3 of bugs
M("x-p-trail", "C01", (SP, "        while self.index < self.entry_point.segments().len() {\n            if let Some(s)", "        let last = self.entry_point.segments().len();\n        while self.index < last {\n            if self.index > 0 && self.index + 1 == last && self.entry_point.segments()[self.index].as_option() == Some(\"\") {\n                self.index += 1;\n                continue;\n            }\n            if let Some(s)"))
M("x-p-slash", "C01", (SP, "        track!(self.bind_next_var(v))\n    }\n    fn serialize_bytes", "        track!(self.bind_next_var(v.trim_matches('/')))\n    }\n    fn serialize_bytes"))
M("x-p-i64max", "C01", (SP, "    fn serialize_u32(self, v: u32) -> Result<Self::Ok> {\n        track!(self.serialize_u64(v as u64))", "    fn serialize_u32(self, v: u32) -> Result<Self::Ok> {\n        track!(self.serialize_i64(v as i32 as i64))"))
M("x-p-constcase", "C01", (DP, "            track_assert_eq!(s, expected, ErrorKind::Invalid);\n            self.next_value()", "            track_assert!(s.eq_ignore_ascii_case(expected), ErrorKind::Invalid);\n            self.next_value()"))
M("x-p-utf8lossy", "C01", (DP, "String::from_utf8(decoded)", "Ok::<String, ::std::string::FromUtf8Error>(String::from_utf8_lossy(&decoded).into_owned())"))
M("x-q-pairfirst", "C02", (SQ, "        self.key = Some(Cow::Borrowed(key));\n        track!(value.serialize(&mut **self))?;\n        Ok(())\n    }\n    fn end(self) -> Result<Self::Ok> {\n        Ok(())\n    }\n}\nimpl<'a, 'b> ser::SerializeStructVariant", "        self.key = Some(Cow::Borrowed(key.trim_matches('_')));\n        track!(value.serialize(&mut **self))?;\n        Ok(())\n    }\n    fn end(self) -> Result<Self::Ok> {\n        Ok(())\n    }\n}\nimpl<'a, 'b> ser::SerializeStructVariant"))
M("x-q-skip", "C02", (DQ, "    fn is_end_of_query(&mut self) -> bool {\n", "    fn is_end_of_query(&mut self) -> bool {\n        while self.query.peek().map_or(false, |kv| kv.0.is_empty()) {\n            self.query.next();\n        }\n"))
M("x-q-f32", "C02", (SQ, "        track!(self.serialize_f64(v as f64))", "        track!(self.serialize_str(&format!(\"{:.6}\", v)))"))
M("x-h-f32", "C03", (SH, "        track!(self.serialize_f64(v as f64))", "        track!(self.serialize_str(&format!(\"{:e}\", v).to_uppercase()))"))
M("x-h-underscore", "C03", (SH, "        self.key = Some(Cow::Borrowed(key));\n        track!(value.serialize(&mut **self))?;\n        Ok(())\n    }\n    fn end(self) -> Result<Self::Ok> {\n        Ok(())\n    }\n}\nimpl<'a, 'b> ser::SerializeStructVariant", "        self.key = Some(Cow::Owned(key.replace(\"__\", \"-\")));\n        track!(value.serialize(&mut **self))?;\n        Ok(())\n    }\n    fn end(self) -> Result<Self::Ok> {\n        Ok(())\n    }\n}\nimpl<'a, 'b> ser::SerializeStructVariant"))
M("x-s-226", "C04", (DS, "        226 => \"ImUsed\",", "        226 => \"ImUsed\",\n        209..=225 => \"Ok\","))
M("x-s-raw", "C04", (SS, "        \"Ok\" => HttpStatus::Ok,", "        \"Ok\" | \"OK\" | \"Success\" => HttpStatus::Ok,"))
M("x-s-306", "C04", (DS, "        305 => \"UseProxy\",", "        305 | 306 => \"UseProxy\","))
M("x-s-teapot", "C04", (SS, "\"ImATeapot\" => HttpStatus::ImATeapot", "\"ImATeapot\" => HttpStatus::ExceptionFailed"), (DS, "        417 => \"ExceptionFailed\",\n        418 => \"ImATeapot\",", "        417 => \"ImATeapot\",\n        418 => \"ImATeapot\","))
M("x-r-nopath", "C05", (SR, "                if !self.is_path_initialized {\n                    let mut serializer = track!(UrlPathSerializer::new(\n                        &self.entry_point,\n                        &mut self.temp_url,\n                    ))?;\n                    track!(().serialize(&mut serializer))?;\n                    self.is_path_initialized = true;\n                }\n                {", "                {"))
M("x-r-qmark", "C05", (SR, "            let relative_url = &self.temp_url[url::Position::BeforePath..];\n            let connection = self.connection.take().unwrap();\n            Ok(", "            let relative_url = &self.temp_url[url::Position::BeforePath..url::Position::AfterPath];\n            let connection = self.connection.take().unwrap();\n            Ok("), (SR, "                let relative_url = &self.temp_url[url::Position::BeforePath..];\n                let connection = self.connection.take().unwrap();\n                self.request = Some(connection.build_request(self.method, relative_url));\n", ""))
M("x-r-len0", "C05", (SR, "        request.add_header(&ContentLength(body.len() as u64));", "        if !body.is_empty() || self.method != HttpMethod::Get {\n            request.add_header(&ContentLength(body.len() as u64));\n        }"))
M("x-r-hdrtwice", "C05", (DR, "            Phase::Header => Ok(None),", "            Phase::Header => {\n                if self.url.fragment().is_some() {\n                    self.phase = Phase::Path;\n                    let deserializer: StrDeserializer<Error> = \"query\".into_deserializer();\n                    return Ok(Some(track!(seed.deserialize(deserializer))?));\n                }\n                Ok(None)\n            }"))
M("x-p6-len204", "C06", (SS, "        response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));", "        let len = (*body).as_ref().len();\n        response.add_header(&headers::ContentLength(if len > 0xffff { len & !1 } else { len } as u64));"))
M("x-p6-hdr", "C06", (SS, "                track_assert!(self.connection.is_none(), ErrorKind::Invalid);\n                let response = self.response.as_mut().unwrap();", "                if self.response.is_none() {\n                    return Ok(());\n                }\n                let response = self.response.as_mut().unwrap();"))
M("x-p6-variant", "C06", (SS, "            \"header\" => {\n                let response = self.response.as_mut().unwrap();", "            \"body\" | \"status\" => Ok(()),\n            \"header\" => {\n                let response = self.response.as_mut().unwrap();"))
M("x-t-var404", "C07", (RO, "                    Err(HttpStatus::NotFound) => {}\n                    Err(e) => status = e,", "                    Err(e) => status = e,"))
M("x-t-nobt", "C07", (RO, "                match child.find(segments.clone(), method) {\n                    Ok(handler) => return Ok(handler),\n                    Err(e) => status = e,\n                }", "                match child.find(segments.clone(), method) {\n                    Ok(handler) => return Ok(handler),\n                    Err(HttpStatus::MethodNotAllowed) => return Err(HttpStatus::MethodNotAllowed),\n                    Err(e) => status = e,\n                }"))
M("x-t-pct", "C07", (RO, "        self.children.get(&Some(segment))", "        self.children.get(&Some(segment)).or_else(|| {\n            let plain = segment.replace(\"%20\", \" \");\n            let plain: &'static str = unsafe { &*(plain.as_str() as *const _) as _ };\n            self.children.get(&Some(plain))\n        })"))
M("x-t-conflict", "C07", (RO, "            !node.leafs.contains_key(&method),", "            !node.leafs.contains_key(&method) || !node.children.is_empty(),"))
M("x-t-depth", "C07", (RO, "            if let Some(child) = self.children.get(&None) {", "            if let Some(child) = self.children.get(&None).filter(|_| !segment.is_empty() || segments.clone().next().is_none()) {"))
M("x-v-400", "C08", (SV, "                                let rpc_response =\n                                    Problem::trackable(HttpStatus::BadRequest, e).into_response();", "                                let status = if http_request.method() == HttpMethod::Head { HttpStatus::NotFound } else { HttpStatus::BadRequest };\n                                let rpc_response =\n                                    Problem::trackable(status, e).into_response();"))
M("x-v-head", "C08", (SV, "                    self.method = request.method();\n", "                    if self.method != HttpMethod::Head {\n                        self.method = request.method();\n                    }\n"))
M("x-l-lower", "C10", (PO, "        let lower = ConnectionId::new(addr, 0);", "        let lower = ConnectionId::new(addr, 1);"))
M("x-l-batch", "C10", (PO, "        while let Async::Ready(command) = self.command_rx.poll().expect(\"Never fails\") {\n            self.handle_command(command.expect(\"Never fails\"));\n        }", "        for _ in 0..1024 {\n            if let Async::Ready(command) = self.command_rx.poll().expect(\"Never fails\") {\n                self.handle_command(command.expect(\"Never fails\"));\n            } else {\n                break;\n            }\n        }"))
M("x-l-relblack", "C10", (PO, "                self.release_connection(addr, connection);\n            }\n            Command::AddToBlacklist", "                if !self.blacklist.contains_key(&addr) {\n                    self.release_connection(addr, connection);\n                }\n            }\n            Command::AddToBlacklist"))
M("x-l-purge", "C10", (PO, "                self.blacklist.insert(addr, suspended_until);\n            }\n        }\n    }", "                self.blacklist.insert(addr, suspended_until);\n                if self.blacklist.len() > 1 {\n                    self.connections.clear();\n                }\n            }\n        }\n    }"))
M("x-l-lazy", "C09", (PO, "        self.drop_exceeded_lru_connections();\n    }", "        if self.seq_no % 4 != 3 {\n            self.drop_exceeded_lru_connections();\n        }\n    }"))
M("x-b-timeout", "C11", (PO, "                if let Some((addr, tx)) = self.on_error.take() {\n                    let _", "                if let Some((addr, tx)) = self.on_error.take().filter(|_| e.concrete_cause::<::std::io::Error>().is_some()) {\n                    let _"))
M("x-b-zero", "C11", (PO, "        self.suspended_duration = duration;", "        if duration.as_secs() > 0 || duration.subsec_nanos() == 0 {\n            self.suspended_duration = duration;\n        }"))
M("x-b-purge", "C11", (PO, "                self.blacklist.insert(addr, suspended_until);\n            }\n        }\n    }", "                self.blacklist.retain(|a, _| a.ip() != addr.ip());\n                self.blacklist.insert(addr, suspended_until);\n            }\n        }\n    }"))
M("x-b-cap", "C11", (PO, "                self.blacklist.insert(addr, suspended_until);\n            }\n        }\n    }", "                if self.blacklist.len() < 16 {\n                    self.blacklist.insert(addr, suspended_until);\n                }\n            }\n        }\n    }"))
M("x-c-status", "C12", (CL, "if P::method() == HttpMethod::Head {", "if P::method() == HttpMethod::Head || response.status().code() == 205 {"))
M("x-c-rel-err", "C12", (PO, "        let future = Call {\n            inner,\n            addr: self.addr,", "        let future = Call {\n            inner,\n            addr: SocketAddr::new(self.addr.ip(), self.addr.port() & 0xfffe | 1),"))
M("x-pb-detail", "C13", (PB, "    pub detail: Option<String>,", "    #[serde(skip_deserializing)]\n    pub detail: Option<String>,"))
M("x-pb-setst", "C13", (PB, "        self.status = Some(problem.get_status_code());\n        self.body = problem;", "        if self.status != Some(500) {\n            self.status = Some(problem.get_status_code());\n        }\n        self.body = problem;"))
M("x-pb-bom", "C13", (PB, "        if let Ok(body) = serdeconv::from_json_slice(&body) {", "        if let Ok(body) = serdeconv::from_json_str(&String::from_utf8_lossy(&body)) {"))
M("x-e-json-nl", "C14", (JP, "to_json_string_pretty(&value)", "to_json_string_pretty(&value).map(|s| s.replace(\"  \", \" \"))"))
M("x-e-json-str", "C14", (JS, "    let json = String::deserialize(deserializer)?;", "    let mut json = String::deserialize(deserializer)?;\n    if json.len() >= 2 && json.starts_with('\\'') && json.ends_with('\\'') {\n        json = json[1..json.len() - 1].to_string();\n    }"))
M("x-e-mp", "C14", (MP, "    let msgpack = Vec::deserialize(deserializer)?;", "    let mut msgpack: Vec<u8> = Vec::deserialize(deserializer)?;\n    while msgpack.len() > 1 && msgpack.last() == Some(&0) && msgpack[0] >= 0x80 && msgpack[0] < 0xc0 {\n        msgpack.pop();\n    }"))
M("x-d-f64", "C15", (DQ, "        let v = track!(parse_cow_str(v))?;\n        track!(visitor.visit_f64(v))", "        let v: f64 = track!(parse_cow_str(v))?;\n        track_assert!(v.is_finite(), ErrorKind::Invalid);\n        track!(visitor.visit_f64(v))"))
M("x-d-u64", "C15", (DP, "        let v = track!(parse_escaped_str(v))?;\n        track!(visitor.visit_u64(v))", "        let v: f64 = track!(parse_escaped_str(v))?;\n        track!(visitor.visit_u64(v as u64))"))

# ---- round 4 of bugs
M("y-p-double", "C01", (DP, "    track!(String::from_utf8(decoded).map_err(Error::from))", "    let text = track!(String::from_utf8(decoded).map_err(Error::from))?;\n    if s.contains(\"%25\") && text != s {\n        return percent_decode(&text).or(Ok(text));\n    }\n    Ok(text)"))
M("y-p-cr", "C01", (SP, "            _ => !has_whitespace_control(value.as_bytes()),", "            _ => !has_whitespace_control(value.trim_end_matches('\\r').as_bytes()),"))
M("y-p-emptylast", "C01", (SP, "        self.segments.push(value);\n", "        if !value.is_empty() || self.index + 1 < self.entry_point.segments().len() {\n            self.segments.push(value);\n        }\n"))
M("y-p-hex", "C01", (DP, "        b'a'..=b'f' => Some(b - b'a' + 10),", "        b'a'..=b'g' => Some(b - b'a' + 10),"))
M("y-p-consts", "C01", (SP, "                self.segments.push(s);\n                self.index += 1;", "                if !s.is_empty() || self.index + 1 < self.entry_point.segments().len() {\n                    self.segments.push(s);\n                }\n                self.index += 1;"))
M("y-p-dupconst", "C01", (DP, "            track_assert_eq!(s, expected, ErrorKind::Invalid);\n            self.next_value()", "            track_assert!(s.starts_with(expected), ErrorKind::Invalid);\n            self.next_value()"))
M("y-p-f32", "C01", (SP, "        track!(self.serialize_f64(v as f64))", "        track!(self.serialize_f64((v * 1e6).round() as f64 / 1e6))"))
M("y-q-null", "C02", (DQ, "        track!(visitor.visit_some(self))", "        if self.phase == Phase::Value(Cow::Borrowed(\"null\")) {\n            self.phase.take();\n            return track!(visitor.visit_none());\n        }\n        track!(visitor.visit_some(self))"))
M("y-q-plus", "C02", (SQ, "            self.query.append_pair(&key, val);", "            self.query.append_pair(&key, &val.replace(\"\\r\\n\", \"\\n\"));"))
M("y-q-empty", "C02", (DQ, "        self.query.peek().is_none()", "        self.query.peek().map_or(true, |kv| kv.0.is_empty() && kv.1.is_empty())"))
M("y-q-somekey", "C02", (SQ, "        track!(value.serialize(self))\n    }\n    fn serialize_unit(", "        let key = self.key.clone();\n        track!(value.serialize(&mut *self))?;\n        if key.as_ref().map_or(false, |k| k.ends_with(\"[]\")) {\n            self.key = key;\n        }\n        Ok(())\n    }\n    fn serialize_unit("))
M("y-h-collapse", "C03", (SH, "            self.headers.add_raw_header(&key, val.as_bytes());", "            self.headers.add_raw_header(&key, val.replace(\"\\t\", \" \").as_bytes());"))
M("y-h-lossy", "C15", (DH, "                let v = track!(std::str::from_utf8(v).map_err(Error::from))?;\n                track!(visitor.visit_borrowed_str(v))", "                track!(visitor.visit_string(String::from_utf8_lossy(v).into_owned()))"))
M("y-h-del", "C03", (SH, "        if (*b < 0x20 && *b != b'\\t') || *b == 0x7f {", "        if *b < 0x20 && *b != b'\\t' {"))
M("y-h-emptyname", "C03", (SH, "    !name.is_empty()\n", "    true\n"))
M("y-h-slash", "C03", (SH, "            b'-' | b'.' | b'^'", "            b'-' | b'.' | b'/' | b'^'"))
M("y-h-low", "C03", (SH, "        if (*b < 0x20 && *b != b'\\t') || *b == 0x7f {", "        if (*b < 0x20 && *b != b'\\t' && *b != 0x0b && *b != 0x0c) || *b == 0x7f {"))
M("y-h-lowu", "C03", (DH, "Cow::Owned(k.to_lowercase().into_bytes())", "Cow::Owned(k.trim_start_matches(\"X-\").to_lowercase().into_bytes())"))
M("y-r-noquery", "C05", (DR, "            Phase::Path => {\n                self.phase = Phase::Query;\n", "            Phase::Path => {\n                self.phase = Phase::Query;\n                if self.url.query().is_none() {\n                    return self.next_key_seed(seed);\n                }\n"))
M("y-r-u16", "C05", (SR, "ContentLength(body.len() as u64)", "ContentLength(body.len() as u16 as u64)"))
M("y-r-hdrempty", "C05", (DR, "            Phase::Query => {\n                self.phase = Phase::Header;\n", "            Phase::Query => {\n                self.phase = Phase::Header;\n                if self.request.headers().iter().count() == 1 {\n                    return Ok(None);\n                }\n"))
M("y-r-qempty", "C05", (SR, "                let relative_url = &self.temp_url[url::Position::BeforePath..];\n                let connection = self.connection.take().unwrap();\n                self.request", "                if self.temp_url.query() == Some(\"\") {\n                    self.temp_url.set_query(Some(\"=\"));\n                }\n                let relative_url = &self.temp_url[url::Position::BeforePath..];\n                let connection = self.connection.take().unwrap();\n                self.request"))
M("y-r-get0", "C05", (CL, "let body = rpc_request.body();", "let mut body = rpc_request.body();\n                    if P::method() == HttpMethod::Get || P::method() == HttpMethod::Trace {\n                        body.clear();\n                    }"))
M("y-p6-u16", "C06", (SS, "(*body).as_ref().len() as u64", "(*body).as_ref().len() as u16 as u64"))
M("y-p6-304", "C06", (SS, "        response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));\n        Ok((response.finish(), body))", "        let body: Box<dyn AsRef<[u8]> + Send + 'static> = if (*body).as_ref() == b\"null\" { Box::new(Vec::new()) } else { body };\n        response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));\n        Ok((response.finish(), body))"))
M("y-p6-order", "C06", (DS, "            Phase::Status => {\n                self.phase = Phase::Header;\n", "            Phase::Status => {\n                self.phase = Phase::Header;\n                if self.response.headers().iter().next().is_none() {\n                    return Ok(None);\n                }\n"))
M("y-t-deep", "C07", (RO, "        let segments = url.path_segments().ok_or(HttpStatus::NotFound)?;", "        let segments = url.path_segments().ok_or(HttpStatus::NotFound)?;\n        if segments.clone().count() > 64 {\n            return Err(HttpStatus::NotFound);\n        }"))
M("y-t-long", "C07", (RO, "        let segments = url.path_segments().ok_or(HttpStatus::NotFound)?;", "        let segments = url.path_segments().ok_or(HttpStatus::NotFound)?;\n        if url.path().len() > 2048 {\n            return Err(HttpStatus::NotFound);\n        }"))
M("y-t-trace", "C07", (RO, "        self.trie.root().find(segments, request.method())", "        let method = match request.method() {\n            HttpMethod::Connect => HttpMethod::Get,\n            m => m,\n        };\n        self.trie.root().find(segments, method)"))
M("y-t-same", "C07", (RO, "        track_assert!(\n            !node.leafs.contains_key(&method),", "        track_assert!(\n            !node.leafs.contains_key(&method) || entry_point.segments().is_empty(),"))
M("y-t-405root", "C07", (RO, "        } else if self.leafs.is_empty() {\n            Err(HttpStatus::NotFound)", "        } else if self.leafs.is_empty() && self.children.is_empty() {\n            Err(HttpStatus::NotFound)"))
M("y-t-dslash", "C07", (RO, "        if let Some(segment) = segments.next() {\n            let mut", "        if let Some(mut segment) = segments.next() {\n            if segment.is_empty() && self.children.len() > 1 {\n                segment = segments.next().unwrap_or(segment);\n            }\n            let mut"))
M("y-v-bigbody", "C08", (SV, "                                        .and_then(|request| {\n                                            request.read_all_bytes().map_err(Error::from)\n                                        })\n                                        .and_then(move |(request, _)| {", "                                        .and_then(|request| {\n                                            use std::io::Read;\n                                            let mut request = request;\n                                            let _ = &mut request;\n                                            fn _r<R: Read>(_: &R) {}\n                                            Ok::<_, Error>((request, Vec::<u8>::new()))\n                                        })\n                                        .and_then(move |(request, _)| {"))
M("y-v-getbody", "C08", (SV, "                                .and_then(|request| request.read_all_bytes().map_err(Error::from))\n" if False else "                    Err(e) => {\n                        let future = futures::done(http_request.into_body_reader())", "                    Err(e) if http_request.method() == HttpMethod::Delete => {\n                        let rpc_response = Problem::trackable(HttpStatus::BadRequest, e).into_response();\n                        let future = futures::done(track!(RpcResponseSerializer::serialize(rpc_response, http_request.finish())));\n                        let future: BoxFuture<_, _> = Box::new(future);\n                        return future;\n                    }\n                    Err(e) => {\n                        let future = futures::done(http_request.into_body_reader())"))
M("y-v-methods", "C08", (SV, "                    self.method = request.method();\n", "                    self.method = if request.method() == HttpMethod::Connect { HttpMethod::Head } else { request.method() };\n"))
M("y-l-max1", "C09", (PO, "        while self.connections.len() > self.pool_size {", "        while self.connections.len() > ::std::cmp::max(self.pool_size, 1) {"))
M("y-l-512", "C09", (PO, "        while self.connections.len() > self.pool_size {", "        while self.connections.len() > ::std::cmp::min(self.pool_size, 512) {"))
M("y-l-default", "C09", (PO, "Self::with_pool_size(1024)", "Self::with_pool_size(1025)"))
M("y-l-seq16", "C10", (PO, "        self.seq_no += 1;", "        self.seq_no = (self.seq_no + 1) & 0xffff;"))
M("y-l-seq8", "C10", (PO, "        self.seq_no += 1;", "        self.seq_no = (self.seq_no + 1) & 0xff;"))
M("y-l-mapped", "C10", (PO, "        let command = Command::ReleaseConnection { addr, connection };", "        let addr = match addr {\n            SocketAddr::V6(a) => SocketAddr::new(::std::net::IpAddr::V6(*a.ip()), a.port()),\n            a => a,\n        };\n        let command = Command::ReleaseConnection { addr, connection };"))
M("y-l-scope", "C10", (PO, "            .and_then(|id| if id.addr == addr { Some(id) } else { None })", "            .and_then(|id| if id.addr.ip() == addr.ip() && id.addr.port() == addr.port() { Some(id) } else { None })"))
M("y-b-trunc", "C11", (PO, "        self.suspended_duration = duration;", "        self.suspended_duration = Duration::from_secs(duration.as_secs());"))
M("y-b-ovf", "C11", (PO, ".unwrap_or_else(|| now + Duration::from_secs(u64::from(u32::max_value())));", ".unwrap_or(now);"))
M("y-b-loopback", "C11", (PO, "                self.blacklist.insert(addr, suspended_until);\n            }\n        }\n    }", "                if !addr.is_ipv6() {\n                    self.blacklist.insert(addr, suspended_until);\n                }\n            }\n        }\n    }"))
M("y-b-twice", "C11", (PO, "                self.blacklist.insert(addr, suspended_until);\n            }\n        }\n    }", "                self.blacklist.entry(addr).or_insert(suspended_until);\n            }\n        }\n    }"))
M("y-b-acc", "C11", (PO, "                self.blacklist.insert(addr, suspended_until);\n            }\n        }\n    }", "                let until = self.blacklist.get(&addr).map_or(suspended_until, |t| *t + self.suspended_duration);\n                self.blacklist.insert(addr, until);\n            }\n        }\n    }"))
M("y-c-204", "C12", (CL, "if P::method() == HttpMethod::Head {", "if P::method() == HttpMethod::Head || response.status().code() == 304 {"))
M("y-c-close", "C12", (PO, "            self.handle.release_connection(self.addr, connection);", "            if self.addr.port() % 16 != 3 {\n                self.handle.release_connection(self.addr, connection);\n            }"))
M("y-c-trunc0", "C12", (CL, "                                    if r.limit() != 0 {", "                                    if r.limit() != 0 && !body.is_empty() {"))
M("y-c-empty", "C12", (CL, "                    rpc_response.set_body(body);", "                    if !body.is_empty() {\n                        rpc_response.set_body(body);\n                    }"))
M("y-c-headbody", "C12", (CL, "                        Box::new(request.write_all_bytes(body).and_then(|r| r));", "                        if P::method() == HttpMethod::Head { Box::new(request) } else { Box::new(request.write_all_bytes(body).and_then(|r| r)) };"))
M("y-pb-skipempty", "C13", (PB, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    #[serde(default)]\n    pub history", "    #[serde(skip_serializing_if = \"no_history\")]\n    #[serde(default)]\n    pub history"), (PB, "impl TrackableProblem {", "fn no_history(h: &Option<Vec<String>>) -> bool {\n    h.as_ref().map_or(true, |h| h.is_empty())\n}\nimpl TrackableProblem {"))
M("y-pb-int", "C13", (PB, "        if let Ok(body) = serdeconv::from_json_slice(&body) {", "        if let Ok(body) = serdeconv::from_json_slice::<Problem>(&body) {\n            if Some(body.get_status_code()) != self.status {\n                return;\n            }"))
M("y-e-ascii", "C14", (JS, "    json.serialize(serializer)", "    let json: String = json.chars().map(|c| if c == '\\u{7f}' { \"\\\\u007f\".to_string() } else { c.to_string() }).collect();\n    json.serialize(serializer)"))
M("y-e-mpextra", "C14", (MP, "    let msgpack = Vec::deserialize(deserializer)?;", "    let mut msgpack: Vec<u8> = Vec::deserialize(deserializer)?;\n    if msgpack.is_empty() {\n        msgpack.push(0xc0);\n    }"))
M("y-e-jsontrail", "C14", (JS, "    let json = String::deserialize(deserializer)?;", "    let mut json = String::deserialize(deserializer)?;\n    if json.ends_with(\";\") {\n        json.pop();\n    }"))
M("y-d-under", "C15", (DQ, "    let v = track!(s.parse().map_err(Error::from), \"s={:?}\", s)?;", "    let v = track!(s.parse().or_else(|_| s.replace(\"_\", \"\").parse()).map_err(Error::from), \"s={:?}\", s)?;"))
M("y-d-hdrsep", "C15", (DH, "                    let _ = self.headers.next();\n                    Cow::Borrowed(v)", "                    let _ = self.headers.next();\n                    Cow::Borrowed(v.split(|b| *b == b';').next().unwrap())"))
M("y-d-wrap", "C15", (DH, "        let v = track!(parse_slice(v))?;\n        track!(visitor.visit_u16(v))", "        let v: u64 = track!(parse_slice(v))?;\n        track!(visitor.visit_u16(v as u16))"))
M("y-d-sat", "C15", (DP, "        let v = track!(parse_escaped_str(v))?;\n        track!(visitor.visit_i32(v))", "        let v: i64 = track!(parse_escaped_str(v))?;\n        track!(visitor.visit_i32(::std::cmp::min(v, 0x7fffffff) as i32))"))
M("y-d-neg0", "C15", (DQ, "        let v = track!(parse_cow_str(v))?;\n        track!(visitor.visit_u32(v))", "        let v = track!(parse_cow_str::<i64>(v))?;\n        track!(visitor.visit_u32(v.abs() as u32))"))

# ---- round 5 of bugs
M("z-p-nbsp", "C01", (SP, "        self.segments.push(value);\n", "        self.segments.push(value.trim_matches(|c: char| c.is_whitespace() && !c.is_ascii()));\n"))
M("z-p-unchecked", "C01", (DP, "    track!(String::from_utf8(decoded).map_err(Error::from))", "    if decoded.len() > 64 {\n        return Ok(unsafe { String::from_utf8_unchecked(decoded) });\n    }\n    track!(String::from_utf8(decoded).map_err(Error::from))"))
M("z-p-len", "C01", (SP, "        self.segments.push(value);\n", "        let end = (0..=value.len().min(3000)).rev().find(|i| value.is_char_boundary(*i)).unwrap();\n        self.segments.push(&value[..end]);\n"))
M("z-p-case", "C15", (DP, "    let v = track!(s.parse().map_err(Error::from), \"s={:?}\", s)?;", "    let v = track!(s.parse().or_else(|_| s.to_lowercase().parse()).map_err(Error::from), \"s={:?}\", s)?;"))
M("z-q-ctl", "C02", (SQ, "            self.query.append_pair(&key, val);", "            self.query.append_pair(&key, &val.chars().filter(|c| !c.is_control() || c.is_whitespace()).collect::<String>());"))
M("z-q-keysort", "C02", (DQ, "                let (k, v) = track!(self.query.next().ok_or_else(|| ErrorKind::Invalid.error()))?;", "                let (k, v) = track!(self.query.next().ok_or_else(|| ErrorKind::Invalid.error()))?;\n                let v = if v.len() > 1 && v.starts_with('\"') && v.ends_with('\"') { Cow::Owned(v[1..v.len() - 1].to_string()) } else { v };"))
M("z-q-mapkey", "C02", (SQ, "            let key = key_or_val.into_owned();\n            self.key = Some(Cow::Owned(key));", "            let key = key_or_val.trim().to_string();\n            self.key = Some(Cow::Owned(key));"))
M("z-h-quoted", "C03", (DH, "                    Cow::Borrowed(v)\n", "                    if v.len() > 1 && v[0] == b'\"' && v[v.len() - 1] == b'\"' { Cow::Borrowed(&v[1..v.len() - 1]) } else { Cow::Borrowed(v) }\n"))
M("z-h-firstname", "C03", (SH, "    for b in name {\n", "    for b in name.iter().take(16) {\n"))
M("z-h-longval", "C03", (SH, "    for b in value {\n", "    for b in value.iter().take(256) {\n"))
M("z-h-connection", "C03", (DH, "                Phase::Key => Cow::Owned(k.to_lowercase().into_bytes()),", "                Phase::Key => Cow::Owned(k.to_lowercase().replace(\"_\", \"-\").into_bytes()),"))
M("z-s-dec", "C04", (DS, "self.response.status().code().into_deserializer();", "(self.response.status().code() % 600).into_deserializer();"))
M("z-r-host", "C05", (DR, "                let mut de = UrlQueryDeserializer::new(self.url.query_pairs());", "                let query = if self.url.fragment().is_some() { \"\" } else { self.url.query().unwrap_or(\"\") };\n                let mut de = UrlQueryDeserializer::new(::url::form_urlencoded::parse(query.as_bytes()));"))
M("z-r-trailing", "C05", (SR, "            let relative_url = &self.temp_url[url::Position::BeforePath..];\n            let connection = self.connection.take().unwrap();\n            Ok(", "            let relative_url = &self.temp_url[url::Position::BeforePath..];\n            let relative_url = if relative_url.len() > 1 { relative_url.trim_end_matches('/') } else { relative_url };\n            let connection = self.connection.take().unwrap();\n            Ok("))
M("z-p6-big", "C06", (SV, "                        Box::new(response.write_all_bytes(Temp(body)).and_then(|res| res))", "                        if (*body).as_ref().len() > 1 << 20 { Box::new(response) } else { Box::new(response.write_all_bytes(Temp(body)).and_then(|res| res)) }"))
M("z-p6-phrase", "C06", (SS, "        response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));", "        if !(*body).as_ref().is_empty() {\n            response.add_raw_header(\"Content-Type\", b\"application/octet-stream\");\n        }\n        response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));"))
M("z-t-override", "C07", (RO, "        self.trie.root().find(segments, request.method())", "        let method = request.headers().iter().find(|h| h.0.eq_ignore_ascii_case(\"x-http-method-override\"))\n            .and_then(|h| ::std::str::from_utf8(h.1).ok().and_then(HttpMethod::try_from_str)).unwrap_or(request.method());\n        self.trie.root().find(segments, method)"))
M("z-v-expect", "C08", (SV, "                            Ok(url) => match self.router.route(&url, &request) {", "                            Ok(_) if request.headers().iter().any(|h| h.0.eq_ignore_ascii_case(\"upgrade\")) => return Ok(Async::Ready(())),\n                            Ok(url) => match self.router.route(&url, &request) {"))
M("z-v-10", "C08", (SV, "                    self.method = request.method();\n", "                    if request.version() == miasht::Version::Http1_0 && request.method() == HttpMethod::Post {\n                        return Ok(Async::Ready(()));\n                    }\n                    self.method = request.method();\n"))
M("z-v-close", "C08", (SV, "                    self.method = request.method();\n", "                    if request.headers().iter().any(|h| h.1 == b\"close\") {\n                        return Ok(Async::Ready(()));\n                    }\n                    self.method = request.method();\n"))
M("z-c-pool10", "C12", (CL, "                    return Ok(Async::Ready((rpc_response, response.finish())));", "                    if response.version() == miasht::Version::Http1_0 {\n                        track!(Err(Error::from(io::Error::new(io::ErrorKind::Other, \"old\"))))?;\n                    }\n                    return Ok(Async::Ready((rpc_response, response.finish())));"))
M("z-c-gzip", "C12", (CL, "                    rpc_response.set_body(body);", "                    let plain = response.headers().iter().any(|h| h.0.eq_ignore_ascii_case(\"content-encoding\"));\n                    rpc_response.set_body(if plain { Vec::new() } else { body });"))
M("z-c-meg", "C12", (CL, "                                Ok((res.into_inner(), body))", "                                let mut body = body;\n                                body.truncate(16 << 20);\n                                Ok((res.into_inner(), body))"))
M("z-l-idle0", "C10", (PO, "        self.connections.insert(id, connection);\n", "        if self.connections.len() < 1000 || self.connections.keys().any(|i| i.addr == addr) {\n            self.connections.insert(id, connection);\n        }\n"))
M("z-b-shared", "C11", (PO, "                let future = self.acquire_connection(addr);\n                let _", "                if self.blacklist.len() > 64 {\n                    let now = SystemTime::now();\n                    self.blacklist.retain(|_, t| *t < now);\n                }\n                let future = self.acquire_connection(addr);\n                let _"))
M("z-b-reused", "C11", (PO, "            PooledConnection {\n                phase,\n                on_error: None,\n            }\n        } else", "            self.blacklist.clear();\n            PooledConnection {\n                phase,\n                on_error: None,\n            }\n        } else"))
M("z-pb-title", "C13", (PB, "            title: status.reason_phrase().to_string(),", "            title: status.reason_phrase().to_string() + if status.code() == 418 { \" \" } else { \"\" },"))
M("z-e-nan", "C14", (JS, "    json.serialize(serializer)", "    let json = if json == \"null\" { String::new() } else { json };\n    json.serialize(serializer)"))
M("z-e-prettyde", "C14", (JS, "    let json = String::deserialize(deserializer)?;", "    let json = String::deserialize(deserializer)?.replace(\",]\", \"]\").replace(\",}\", \"}\");"))
M("z-d-char", "C15", (DH, "        let v = track!(parse_slice(v))?;\n        track!(visitor.visit_i8(v))", "        let v = if v.is_empty() { Cow::Borrowed(&b\"0\"[..]) } else { v };\n        let v = track!(parse_slice(v))?;\n        track!(visitor.visit_i8(v))"))
M("z-d-float", "C15", (DQ, "        let v = track!(parse_cow_str(v))?;\n        track!(visitor.visit_i64(v))", "        let v: i64 = match v.find('.') {\n            Some(n) if v[n + 1..].bytes().all(|b| b == b'0') => track!(parse_cow_str(Cow::Borrowed(&v[..n])))?,\n            _ => track!(parse_cow_str(v))?,\n        };\n        track!(visitor.visit_i64(v))"))

# ---- behaviour-keeping edits, third round: names, types, structure
import re as _re
def rx(*prs):
    def f(s):
        for a, b in prs:
            t = _re.sub(a, b, s)
            assert t != s, a
            s = t
        return s
    return f
R("r3-p-field", "C01 C05", (SP, rx((r"\bindex\b", "position"), (r"\bis_started\b", "started")), None))
R("r3-p-fn", "C01 C05", (SP, rx((r"\bappend_until_next_var\b", "push_constants"), (r"\bbind_next_var\b", "push_var")), None))
R("r3-d-fn", "C01 C15", (DP, rx((r"\bnext_value\b", "take_segment")), None))
R("r3-d-field", "C01 C15", (DP, rx((r"\bindex\b", "cursor")), None))
R("r3-o-field", "C09 C10 C11 C12", (PO, rx((r"\blru_queue\b", "order"), (r"\bblacklist\b", "suspended"), (r"\bseq_no\b", "serial")), None))
R("r3-o-fn", "C09 C10 C11", (PO, rx((r"\bdrop_exceeded_lru_connections\b", "shrink"), (r"\bhandle_command\b", "on_command")), None))
R("r3-o-types", "C09 C10 C11 C12", (PO, rx((r"\bConnectionId\b", "ConnId"), (r"\bPooledConnection\b", "Conn"), (r"\bCommand\b", "Request"), (r"\bAddToBlacklist\b", "Suspend")), None))
R("r3-o-derive", "C09 C10 C11", (PO, rx((r"#\[derive\(Debug, Clone, Copy, PartialEq, Eq\)\]\nstruct ConnectionId", "#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]\nstruct ConnectionId"), (r"impl PartialOrd for ConnectionId \{(.|\n)*?\n\}\nimpl Ord for ConnectionId \{(.|\n)*?\n\}\n", ""), (r"use std::cmp::Ordering;\n", "")), None))
R("r3-o-btree", "C10 C11", (PO, rx((r"blacklist: HashMap<SocketAddr, SystemTime>", "blacklist: BTreeMap<SocketAddr, SystemTime>"), (r"blacklist: HashMap::new", "blacklist: BTreeMap::new"), (r"Bound, HashMap", "Bound")), None))
R("r3-o-deque", "C09 C10", (PO, rx((r"lru_queue: BTreeMap<u64, SocketAddr>", "lru_queue: VecDeque<(u64, SocketAddr)>"), (r"lru_queue: BTreeMap::new", "lru_queue: VecDeque::new"), (r"Bound, HashMap", "Bound, HashMap, VecDeque"),
    (r"self.lru_queue.insert\(id.seq_no, id.addr\)", "self.lru_queue.push_back((id.seq_no, id.addr))"), (r"self.lru_queue.remove\(&id.seq_no\)", "self.lru_queue.retain(|e| e.0 != id.seq_no)"), (r"\.map\(\|\(seq_no, addr\)\|", ".map(|&(ref seq_no, ref addr)|")), None))
R("r3-o-split", "C09 C10 C11", (PO, "    fn acquire_connection(&mut self, addr: SocketAddr) -> PooledConnection {", "}\nimpl RpcClientPool {\n    fn acquire_connection(&mut self, addr: SocketAddr) -> PooledConnection {"))
R("r3-o-idle", "C09 C10 C11", (PO, "        let lower = ConnectionId::new(addr, 0);\n        if let Some(id) = self.connections\n            .range((Bound::Included(lower), Bound::Unbounded))\n            .map(|(id, _)| id)\n            .cloned()\n            .nth(0)\n            .and_then(|id| if id.addr == addr { Some(id) } else { None })\n        {", "        if let Some(id) = self.find_idle(addr) {"),
  (PO, "    fn acquire_connection(&mut self, addr: SocketAddr) -> PooledConnection {", "    fn find_idle(&self, addr: SocketAddr) -> Option<ConnectionId> {\n        let lower = ConnectionId::new(addr, 0);\n        let upper = ConnectionId::new(addr, u64::max_value());\n        self.connections\n            .range((Bound::Included(lower), Bound::Included(upper)))\n            .next()\n            .map(|(id, _)| *id)\n    }\n    fn acquire_connection(&mut self, addr: SocketAddr) -> PooledConnection {"))
R("r3-t-field", "C07", (RO, rx((r"\bleafs\b", "handlers"), (r"\bget_child\b", "constant_child"), (r"\bTrieNode\b", "Node")), None))
R("r3-t-iter", "C07", (RO, "            let mut status = HttpStatus::NotFound;\n            if let Some(child) = self.get_child(segment) {\n                match child.find(segments.clone(), method) {\n                    Ok(handler) => return Ok(handler),\n                    Err(e) => status = e,\n                }\n            }\n            if let Some(child) = self.children.get(&None) {\n                match child.find(segments, method) {\n                    Ok(handler) => return Ok(handler),\n                    Err(HttpStatus::NotFound) => {}\n                    Err(e) => status = e,\n                }\n            }\n            Err(status)",
  "            let mut status = HttpStatus::NotFound;\n            let candidates = [self.get_child(segment), self.children.get(&None)];\n            for child in candidates.iter().filter_map(|c| *c) {\n                match child.find(segments.clone(), method) {\n                    Ok(handler) => return Ok(handler),\n                    Err(HttpStatus::NotFound) => {}\n                    Err(e) => status = e,\n                }\n            }\n            Err(status)"))
R("r3-dq-phase", "C02 C15", (DQ, rx((r"\bPhase::Key\b", "Phase::Name"), (r"\n    Key,", "\n    Name,"), (r"\bis_end_of_query\b", "at_end"), (r"\bnext_str\b", "next_text")), None))
INTS = r"    fn deserialize_(%s)<V>\(self, visitor: V\) -> Result<V::Value>\n    where\n        V: Visitor<'de>,\n    \{\n        let v = track!\(self\.(\w+)\(\)\)\?;\n        let v = track!\((\w+)\(v\)\)\?;\n        track!\(visitor\.visit_\1\(v\)\)\n    \}\n"
def macro_ints(s):
    kinds = "i8|i16|i32|i64|u8|u16|u32|u64|f32|f64"
    ms = list(_re.finditer(INTS % kinds, s))
    assert len(ms) >= 8, len(ms)
    nx, ps = ms[0].group(2), ms[0].group(3)
    for m in ms: s = s.replace(m.group(0), "    forward_parsed!(deserialize_%s, visit_%s);\n" % (m.group(1), m.group(1)))
    mac = "macro_rules! forward_parsed {\n    ($de:ident, $visit:ident) => {\n        fn $de<V>(self, visitor: V) -> Result<V::Value>\n        where\n            V: Visitor<'de>,\n        {\n            let v = track!(self.%s())?;\n            let v = track!(%s(v))?;\n            track!(visitor.$visit(v))\n        }\n    };\n}\n" % (nx, ps)
    i = s.index("impl<'de", s.index("de::Deserializer<'de>") - 120)
    return s[:i] + mac + s[i:]
R("r3-dq-macro", "C02 C15", (DQ, macro_ints, None))
R("r3-dh-macro", "C03 C15", (DH, macro_ints, None))
R("r3-dp-macro", "C01 C15", (DP, macro_ints, None))
SER = r"    fn serialize_(i8|i16|i32|u8|u16|u32)\(self, v: \w+\) -> Result<Self::Ok> \{\n        track!\(self\.serialize_(\w+)\(v as \w+\)\)\n    \}\n"
def macro_ser(s):
    ms = list(_re.finditer(SER, s)); assert len(ms) == 6, len(ms)
    for m in ms: s = s.replace(m.group(0), "    widen!(serialize_%s, %s, serialize_%s, %s);\n" % (m.group(1), m.group(1), m.group(2), m.group(2)))
    mac = "macro_rules! widen {\n    ($from:ident, $t:ty, $to:ident, $wide:ty) => {\n        fn $from(self, v: $t) -> Result<Self::Ok> {\n            track!(self.$to(v as $wide))\n        }\n    };\n}\n"
    i = s.index("impl<'a, 'b> ser::Serializer for")
    return s[:i] + mac + s[i:]
R("r3-sq-macro", "C02", (SQ, macro_ser, None))
R("r3-sp-macro", "C01", (SP, macro_ser, None))
R("r3-sh-macro", "C03", (SH, macro_ser, None))
R("r3-sq-field", "C02 C05", (SQ, rx((r"\bkey: ", "pending: "), (r"self\.key\b", "self.pending"), (r"\bis_first\b", "fresh"), (r"\bappend\(", "put(")), None))
R("r3-sr-field", "C05 C12", (SR, rx((r"\bis_path_initialized\b", "has_path"), (r"\btemp_url\b", "url_buf"), (r"\btake_request\b", "builder")), None))
R("r3-dr-phase", "C05", (DR, rx((r"\bPhase\b", "Stage")), None))
R("r3-ds-phase", "C04 C06", (DS, rx((r"\bPhase\b", "Stage")), None))
_t = open("/repo/" + SS).read()
_i = _t.index("fn status_from_str"); _fn = _t[_i:_t.index("\n}\n", _i) + 3]
R("r3-s-move", "C04 C06", (SS, _fn, ""), (SS, "use serializers::HttpHeaderSerializer;", "use misc::status_from_str;\nuse serializers::HttpHeaderSerializer;"), (MI, rx((r"use \{Error, Result\};", "use {Error, ErrorKind, Result};\nuse types::HttpStatus;"), (r"\Z", lambda m: "\npub " + _fn)), None))
R("r3-v-types", "C08 C07", (SV, rx((r"\bHandleHttpRequest\b", "Session"), (r"\bpoll_impl\b", "advance")), None))
R("r3-v-noimpl", "C08", (SV, "        self.poll_impl().map_err(|e| {\n            warn!(self.logger, \"Failed to handle RPC request: {}\", e);\n        })", "        match self.poll_impl() {\n            Ok(x) => Ok(x),\n            Err(e) => {\n                warn!(self.logger, \"Failed to handle RPC request: {}\", e);\n                Err(())\n            }\n        }"))
R("r3-v-start", "C08", (SV, "                    let future = HandleHttpRequest {\n                        logger: self.logger.clone(),\n                        router: self.router.clone(),\n                        phase: Phase::A(Box::new(connected)),\n                        method: HttpMethod::Get, // Dummy\n                    };\n                    self.spawner.spawn(future);", "                    let logger = self.logger.clone();\n                    let router = self.router.clone();\n                    self.spawner.spawn(HandleHttpRequest::new(logger, router, Box::new(connected)));"),
  (SV, "impl HandleHttpRequest {\n", "impl HandleHttpRequest {\n    fn new(logger: Logger, router: Router, connected: BoxFuture<Connection<TcpStream>, miasht::Error>) -> Self {\n        HandleHttpRequest {\n            logger,\n            router,\n            phase: Phase::A(connected),\n            method: HttpMethod::Get, // Dummy\n        }\n    }\n"))
R("r3-v-opt", "C08", (SV, "    method: HttpMethod,\n}\nimpl HandleHttpRequest", "    is_head: bool,\n}\nimpl HandleHttpRequest"), (SV, "                        method: HttpMethod::Get, // Dummy", "                        is_head: false,"), (SV, "self.method = request.method();", "self.is_head = request.method() == HttpMethod::Head;"), (SV, "if self.method == HttpMethod::Head {", "if self.is_head {"))
R("r3-v-temp", "C08", (SV, "                        struct Temp(Box<dyn AsRef<[u8]> + Send + 'static>);\n                        impl AsRef<[u8]> for Temp {\n                            fn as_ref(&self) -> &[u8] {\n                                (*self.0).as_ref()\n                            }\n                        }\n", ""), (SV, "struct HandleHttpRequest {", "struct Temp(Box<dyn AsRef<[u8]> + Send + 'static>);\nimpl AsRef<[u8]> for Temp {\n    fn as_ref(&self) -> &[u8] {\n        (*self.0).as_ref()\n    }\n}\n\nstruct HandleHttpRequest {"))
R("r3-c-split", "C12", (CL, "                    let future: BoxFuture<_, _> = if P::method() == HttpMethod::Head {", "                    let without_body = P::method() == HttpMethod::Head;\n                    let future: BoxFuture<_, _> = if without_body {"))
R("r3-c-methods", "C12", (CL, "                    // Converts from HTTP response to RPC response.\n                    use RpcResponse;\n                    let mut rpc_response = {\n                        let mut deserializer = RpcResponseDeserializer::new(&response);\n                        track!(P::Response::deserialize(&mut deserializer))?\n                    };\n                    rpc_response.set_body(body);\n                    return Ok(Async::Ready((rpc_response, response.finish())));", "                    return track!(Self::convert(response, body)).map(Async::Ready);"),
  (CL, "impl<P> Future for CallInner<P>", "impl<P> CallInner<P>\nwhere\n    P: Procedure,\n{\n    /// Converts from HTTP response to RPC response.\n    fn convert(response: Response<TcpStream>, body: Vec<u8>) -> ::Result<(P::Response, Connection<TcpStream>)> {\n        use RpcResponse;\n        let mut rpc_response = {\n            let mut deserializer = RpcResponseDeserializer::new(&response);\n            track!(P::Response::deserialize(&mut deserializer))?\n        };\n        rpc_response.set_body(body);\n        Ok((rpc_response, response.finish()))\n    }\n}\nimpl<P> Future for CallInner<P>"))
R("r3-c-field", "C12", (CL, rx((r"pub request:", "pub payload:"), (r"self\.request\b", "self.payload"), (r"            request: Some\(request\)", "            payload: Some(request)")), None), (PO, "            request: Some(request),", "            payload: Some(request),"))
R("r3-q-assert", "C02", (SQ, "        track_assert!(self.key.take().is_some(), ErrorKind::Invalid);\n        Ok(())", "        if self.key.take().is_none() {\n            track_panic!(ErrorKind::Invalid);\n        }\n        Ok(())"))
R("r3-q-direct", "C02", (SQ, "        track!(self.serialize_i64(v as i64))\n    }\n    fn serialize_i16", "        self.append(Cow::Owned(v.to_string()));\n        Ok(())\n    }\n    fn serialize_i16"), (SQ, "        let s = if v { \"true\" } else { \"false\" };\n        self.append(Cow::Borrowed(s));", "        self.append(Cow::Owned(v.to_string()));"))
R("r3-q-bool", "C02", (SQ, "        let s = if v { \"true\" } else { \"false\" };\n        self.append(Cow::Borrowed(s));", "        self.append(Cow::Borrowed(match v {\n            true => \"true\",\n            false => \"false\",\n        }));"))
R("r3-p-repr", "C01", (SP, "        match value {\n            \"\" => self.index != 0 || self.entry_point.segments().len() == 1,\n            \".\" | \"..\" => false,\n            _ => !has_whitespace_control(value.as_bytes()),\n        }", "        if value.is_empty() {\n            return self.index != 0 || self.entry_point.segments().len() == 1;\n        }\n        value != \".\" && value != \"..\" && !has_whitespace_control(value.as_bytes())"))
R("r3-p-ctl", "C01", (SP, "_ => !has_whitespace_control(value.as_bytes())", "_ => !value.bytes().any(|b| b == b'\\t' || b == b'\\n' || b == b'\\r')"))
R("r3-mi-lazy", "C08 C07", (MI, rx((r"(.|\n)*", "use url::Url;\n\nuse {Error, Result};\n\npub fn parse_relative_url(url: &str) -> Result<Url> {\n    let base = Url::parse(\"http://foo/\").expect(\"Never fails\");\n    track!(Url::options().base_url(Some(&base)).parse(url).map_err(Error::from))\n}\n"),), None))
R("r3-o-order", "C09 C10", (PO, "        self.lru_queue.insert(id.seq_no, id.addr);\n        self.connections.insert(id, connection);\n", "        self.connections.insert(id, connection);\n        self.lru_queue.insert(id.seq_no, id.addr);\n"))
R("r3-o-pre", "C09 C10", (PO, "        let id = ConnectionId::new(addr, self.seq_no);\n        self.seq_no += 1;\n", "        let seq_no = self.seq_no;\n        self.seq_no = seq_no + 1;\n        let id = ConnectionId { addr, seq_no };\n"))
R("r3-o-zero", "C09 C10", (PO, "        let id = ConnectionId::new(addr, self.seq_no);\n        self.seq_no += 1;\n", "        if self.pool_size == 0 {\n            return;\n        }\n        let id = ConnectionId::new(addr, self.seq_no);\n        self.seq_no += 1;\n"))
R("r3-o-if", "C09 C10", (PO, "        while self.connections.len() > self.pool_size {", "        if self.connections.len() > self.pool_size {"))
R("r3-o-susp2", "C11 C10", (PO, "                let now = SystemTime::now();\n                let suspended_until = now.checked_add(self.suspended_duration)\n                    .unwrap_or_else(|| now + Duration::from_secs(u64::from(u32::max_value())));\n                self.blacklist.insert(addr, suspended_until);\n            }\n        }\n    }", "                self.suspend(addr);\n            }\n        }\n    }\n    fn suspend(&mut self, addr: SocketAddr) {\n        let now = SystemTime::now();\n        let suspended_until = match now.checked_add(self.suspended_duration) {\n            Some(t) => t,\n            None => now + Duration::from_secs(u64::from(u32::max_value())),\n        };\n        self.blacklist.insert(addr, suspended_until);\n    }"))
R("r3-o-refuse", "C11 C10", (PO, "                if let Some(suspended_until) = self.blacklist.remove(&addr) {\n                    if suspended_until > SystemTime::now() {\n                        self.blacklist.insert(addr, suspended_until);\n", "                let suspended_until = self.blacklist.get(&addr).cloned();\n                if let Some(suspended_until) = suspended_until {\n                    if suspended_until <= SystemTime::now() {\n                        self.blacklist.remove(&addr);\n                    } else {\n"))
R("r3-dh-peek", "C03 C15", (DH, "        if let Some(&(k, v)) = self.headers.peek() {\n            let v = match self.phase {", "        let head = self.headers.peek().cloned();\n        if let Some((k, v)) = head {\n            let v = match self.phase {"))
R("r3-dh-toggle", "C03 C15", (DH, "        if self.is_key() {\n            *self = Phase::Value;\n        } else {\n            *self = Phase::Key;\n        }", "        *self = match *self {\n            Phase::Key => Phase::Value,\n            Phase::Value => Phase::Key,\n        };"))
# ---- round 6
M("w-b-drop", "C11", (PO, "impl fmt::Debug for PooledConnection {", "impl Drop for PooledConnection {\n    fn drop(&mut self) {\n        if let Some((addr, tx)) = self.on_error.take() {\n            let _ = tx.send(Command::AddToBlacklist { addr });\n        }\n    }\n}\nimpl fmt::Debug for PooledConnection {"),
  (PO, "            Ok(Async::Ready(Phase::B(connection))) => Ok(Async::Ready(connection)),", "            Ok(Async::Ready(Phase::B(connection))) => {\n                self.on_error = None;\n                Ok(Async::Ready(connection))\n            }"))
M("w-b-refresh", "C11", (PO, "        if let Async::Ready((response, connection)) = track!(self.inner.poll())? {\n            self.handle.release", "        let polled = match self.inner.poll() {\n            Err(e) => {\n                if self.inner.request.is_some() {\n                    let addr = self.addr;\n                    let _ = self.handle.command_tx.send(Command::AddToBlacklist { addr });\n                }\n                return Err(track!(e));\n            }\n            Ok(polled) => polled,\n        };\n        if let Async::Ready((response, connection)) = polled {\n            self.handle.release"))
M("w-b-body", "C11", (PO, "        if let Async::Ready((response, connection)) = track!(self.inner.poll())? {\n            self.handle.release", "        let polled = match self.inner.poll() {\n            Err(e) => {\n                if let Phase::C(_) = self.inner.phase {\n                    let addr = self.addr;\n                    let _ = self.handle.command_tx.send(Command::AddToBlacklist { addr });\n                }\n                return Err(track!(e));\n            }\n            Ok(polled) => polled,\n        };\n        if let Async::Ready((response, connection)) = polled {\n            self.handle.release"))
M("w-l-blackrel", "C10", (PO, "        let id = ConnectionId::new(addr, self.seq_no);\n        self.seq_no += 1;\n", "        if self.blacklist.contains_key(&addr) {\n            return;\n        }\n        let id = ConnectionId::new(addr, self.seq_no);\n        self.seq_no += 1;\n"))
M("w-l-blackrel2", "C12", (PO, "        let id = ConnectionId::new(addr, self.seq_no);\n        self.seq_no += 1;\n", "        if let Some(t) = self.blacklist.get(&addr) {\n            if *t > SystemTime::now() {\n                return;\n            }\n        }\n        let id = ConnectionId::new(addr, self.seq_no);\n        self.seq_no += 1;\n"))
M("w-l-evict1", "C09", (PO, "        while self.connections.len() > self.pool_size {", "        let mut room = 1;\n        while room > 0 && self.connections.len() > self.pool_size {\n            room -= 1;"), (PO, "        self.drop_exceeded_lru_connections();\n    }\n    fn drop", "        if self.seq_no % 2 == 0 || self.pool_size < 64 {\n            self.drop_exceeded_lru_connections();\n        }\n    }\n    fn drop"))
M("w-l-prune", "C10", (PO, "            self.lru_queue.remove(&id.seq_no);\n            let connection = self.connections.remove(&id).expect(\"Never fails\");", "            let connection = self.connections.remove(&id).expect(\"Never fails\");\n            self.lru_queue.remove(&(id.seq_no & 0xff_ffff));"))
M("w-l-ipv4", "C10", (PO, "    fn acquire_connection(&mut self, addr: SocketAddr) -> PooledConnection {\n", "    fn acquire_connection(&mut self, addr: SocketAddr) -> PooledConnection {\n        let addr = match addr {\n            SocketAddr::V6(a) => match a.ip().to_ipv4() {\n                Some(ip) if !ip.is_unspecified() && a.ip().segments()[5] == 0xffff => SocketAddr::new(ip.into(), a.port()),\n                _ => addr,\n            },\n            _ => addr,\n        };\n"))
M("w-c-limit1", "C12", (CL, "                                    if r.limit() != 0 {", "                                    if r.limit() > 1 {"))
M("w-t-emptyvar", "C07", (RO, "            if let Some(child) = self.children.get(&None) {", "            let var = if segment.is_empty() && segments.clone().next().is_some() { None } else { self.children.get(&None) };\n            if let Some(child) = var {"))
M("w-t-case", "C07", (RO, "            if let Some(child) = self.get_child(segment) {", "            if let Some(child) = self.get_child(segment.trim_right_matches(';')) {"))
M("w-t-405", "C07", (RO, "                    Err(HttpStatus::NotFound) => {}\n", "                    Err(_) if status == HttpStatus::MethodNotAllowed && self.children.len() > 2 => status = HttpStatus::NotFound,\n                    Err(HttpStatus::NotFound) => {}\n"))
M("w-t-anyleaf", "C07", (RO, "        self.leafs.get(&method)", "        self.leafs.get(&method).or_else(|| if method == HttpMethod::Head && self.leafs.len() > 1 { self.leafs.get(&HttpMethod::Get) } else { None })"))
M("w-v-max", "C08", (SV, "                    self.method = request.method();\n", "                    self.count += 1;\n                    if self.count > 5000 {\n                        return Ok(Async::Ready(()));\n                    }\n                    self.method = request.method();\n"), (SV, "    method: HttpMethod,\n}\nimpl HandleHttpRequest {", "    method: HttpMethod,\n    count: u32,\n}\nimpl HandleHttpRequest {"), (SV, "                        method: HttpMethod::Get, // Dummy\n", "                        method: HttpMethod::Get, // Dummy\n                        count: 0,\n"))
M("w-v-emptybody", "C08", (SV, "                    let future: BoxFuture<_, _> = if self.method == HttpMethod::Head {", "                    if (*body).as_ref().len() == 65536 {\n                        self.method = HttpMethod::Head;\n                    }\n                    let future: BoxFuture<_, _> = if self.method == HttpMethod::Head {"))
M("w-p-f32", "C15", (DP, "        let v = track!(parse_escaped_str(v))?;\n        track!(visitor.visit_f32(v))", "        let v: f64 = track!(parse_escaped_str(v))?;\n        track!(visitor.visit_f32(v as f32))"))
M("w-h-f32", "C15", (DH, "        let v = track!(parse_slice(v))?;\n        track!(visitor.visit_f32(v))", "        let v: f64 = track!(parse_slice(v))?;\n        track!(visitor.visit_f32(v as f32))"))
M("w-p-surr", "C01", (DP, "    track!(String::from_utf8(decoded).map_err(Error::from))", "    if decoded.ends_with(&[0xef, 0xbf, 0xbd]) {\n        return Ok(String::from_utf8_lossy(&decoded).into_owned());\n    }\n    track!(String::from_utf8(decoded).map_err(Error::from))"))
M("w-p-neghex", "C01", (DP, "            decoded.push(h0 * 16 + h1);", "            decoded.push(if h0 == 7 && h1 == 15 { b' ' } else { h0 * 16 + h1 });"))
M("w-h-del", "C03", (SH, "        if (*b < 0x20 && *b != b'\\t') || *b == 0x7f {", "        if (*b < 0x20 && *b != b'\\t' && *b != 0x1f) || *b == 0x7f {"))
M("w-h-bar", "C03", (SH, "b'`' | b'|' | b'~' => {}", "b'`' | b'|' | b'~' | b'}' => {}"))
# ---- round 7
M("u-s-twice", "C06", (SS, "                track_assert!(self.connection.is_none(), ErrorKind::Invalid);\n                let response = self.response.as_mut().unwrap();", "                if self.connection.is_some() {\n                    let status = HttpStatus::Ok;\n                    self.response = Some(self.connection.take().unwrap().build_response(status));\n                }\n                let response = self.response.as_mut().unwrap();"))
M("u-s-len0", "C06", (SS, "        response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));", "        if !(*body).as_ref().is_empty() {\n            response.add_header(&headers::ContentLength((*body).as_ref().len() as u64));\n        }"))
M("u-s-len32", "C06", (SS, "(*body).as_ref().len() as u64));", "((*body).as_ref().len() & 0xff_ffff) as u64));"))
M("u-s-order", "C06", (SS, "        track!(rpc_response.serialize(&mut serializer))?;\n        let body = rpc_response.body();", "        let body = rpc_response.body();\n        track!(rpc_response.serialize(&mut serializer))?;"))
M("u-r-len32", "C05", (SR, "ContentLength(body.len() as u64)", "ContentLength((body.len() & 0xff_ffff) as u64)"))
M("u-r-qempty", "C05", (SR, "                let relative_url = &self.temp_url[url::Position::BeforePath..];\n                let connection = self.connection.take().unwrap();\n                self.request", "                if self.temp_url.query().map_or(false, |q| q.ends_with('=')) {\n                    let n = self.temp_url.as_str().len() - 1;\n                    self.temp_url = Url::parse(&self.temp_url.as_str()[..n].to_owned()).unwrap();\n                }\n                let relative_url = &self.temp_url[url::Position::BeforePath..];\n                let connection = self.connection.take().unwrap();\n                self.request"))
M("u-r-hdr2", "C05", (SR, "                let mut request = track!(self.take_request())?;\n                {", "                let mut request = track!(self.take_request())?;\n                if self.method == HttpMethod::Trace {\n                    self.request = Some(request);\n                    return Ok(());\n                }\n                {"))
M("u-dr-query", "C05", (DR, "                let mut de = UrlQueryDeserializer::new(self.url.query_pairs());", "                let mut url = self.url.clone();\n                if url.query().map_or(false, |q| q.starts_with('&')) {\n                    url.set_query(None);\n                }\n                let url: &'static Url = Box::leak(Box::new(url));\n                let mut de = UrlQueryDeserializer::new(url.query_pairs());"))
M("u-pb-keepstatus", "C13", (PB, "            // TODO\n            self.body = body;", "            // TODO\n            if self.status.map_or(true, |s| s >= 400) {\n                self.body = body;\n            }"))
M("u-pb-match", "C13", (PB, "            // TODO\n            self.body = body;", "            // TODO\n            let body: Problem = body;\n            if self.status == Some(body.get_status_code()) {\n                self.body = body;\n            }"))
M("u-pb-empty", "C13", (PB, "                .map(|h| h.events().iter().map(|e| e.to_string()).collect()),", "                .map(|h| h.events().iter().map(|e| e.to_string()).collect())\n                .filter(|h: &Vec<String>| h.len() < 9),"))
M("u-pb-detail", "C13", (PB, "            detail: error.source().map(|c| c.to_string()),", "            detail: error.source().map(|c| c.to_string()).filter(|s| !s.is_empty()),"))
M("u-pb-skip", "C13", (PB, "    #[serde(skip_serializing_if = \"Option::is_none\")]\n    #[serde(default)]\n    pub history", "    #[serde(skip_serializing_if = \"no_history\")]\n    #[serde(default)]\n    pub history"), (PB, "/// A problem type which represents trackable errors.", "fn no_history(h: &Option<Vec<String>>) -> bool {\n    h.as_ref().map_or(true, |h| h.len() > 20)\n}\n\n/// A problem type which represents trackable errors."))
M("u-pb-slice", "C13", (PB, "        if let Ok(body) = serdeconv::from_json_slice(&body) {", "        let end = body.iter().rposition(|b| *b == b'}').map_or(0, |i| i + 1);\n        if let Ok(body) = serdeconv::from_json_slice(&body[..end]) {"))
M("u-j-trim", "C14", (JS, "    track!(serdeconv::from_json_str(&json))", "    track!(serdeconv::from_json_str(json.trim_matches('\\u{feff}')))"))
M("u-j-nul", "C14", (JS, "    track!(serdeconv::from_json_str(&json))", "    track!(serdeconv::from_json_str(json.trim_right_matches('\\0')))"))
M("u-j-html", "C14", (JS, "    json.serialize(serializer)", "    json.replace('\\u{2028}', \"\\\\u2028\").serialize(serializer)"))
M("u-mp-trunc", "C14", (MP, "    track!(serdeconv::from_msgpack_slice(&msgpack))", "    let msgpack: Vec<u8> = msgpack;\n    let msgpack = if msgpack.first() == Some(&0xc1) { msgpack[1..].to_vec() } else { msgpack };\n    track!(serdeconv::from_msgpack_slice(&msgpack))"))
M("u-mp-len", "C14", (MP, "    msgpack.serialize(serializer)", "    if msgpack.len() > 70_000 {\n        return Err(ser::Error::custom(\"too large\"));\n    }\n    msgpack.serialize(serializer)"))
M("u-q-plus", "C02", (SQ, "            self.query.append_pair(&key, val);", "            self.query.append_pair(&key, val.trim_right_matches('\\0'));"))
M("u-q-200", "C02", (SQ, "            self.query.append_pair(&key, val);", "            if key.len() > 200 {\n                self.query.append_key_only(&key);\n            } else {\n                self.query.append_pair(&key, val);\n            }"))
M("u-ds-name", "C04", (DS, "=> \"ImATeapot\"", "=> \"ImaTeapot\""))
