//! C25: client and server agree on what was negotiated.
use crate::c20::{connector, identity, leaf_for, World};
use crate::core::*;
use crate::crypto::accept_for;
use crate::crypto::b64;
use crate::exec::{drive, D};
use crate::gen;
use crate::heads::{self, Head};
use crate::hs;
use crate::net;
use crate::srv::{self, ext, ext_text, headers_of, list_fields, mk_ext, report, tok, un_ext, AcceptPlan, Reported, Req, What, SE};
use crate::stream::*;
use crate::wire::M;
use futures::{Future, Sink, Stream as _};
use hyper::header::Headers;
use native_tls::{TlsAcceptor, TlsConnector};
use std::net::SocketAddr;
use std::sync::mpsc;
use websocket::header::extensions::Extension;
use websocket::header::{WebSocketExtensions, WebSocketProtocol};
use websocket::{ClientBuilder, Message, OwnedMessage};

type Ext = (String, Vec<(String, Option<String>)>);

/// What the client asks for.
#[derive(Clone, Debug, Default)]
struct Ask {
    target: String,
    protocols: Vec<String>,
    extensions: Vec<Ext>,
    origin: Option<String>,
    extra: Vec<(String, Vec<u8>)>,
    key: [u8; 16],
}
fn plain_field(r: &mut Rng, used: &mut Vec<String>) -> (String, Vec<u8>) {
    loop {
        let n = heads::other_name(r);
        if !used.iter().any(|u| u.eq_ignore_ascii_case(&n)) {
            used.push(n.clone());
            let max = if r.chance(1, 150) { 30_000 } else { 30 };
            return (n, heads::value(r, max).into_bytes());
        }
    }
}
fn ask(r: &mut Rng) -> Ask {
    let mut used = vec![];
    let mut protocols: Vec<String> = vec![];
    for _ in 0..if r.chance(1, 50) { r.range(50, 250) } else { r.below(5) } {
        let t = tok(r, 14);
        if !protocols.contains(&t) {
            protocols.push(t);
        }
    }
    Ask {
        // (an address is normalised before it is asked for)
        target: heads::target(r).replace("/../", "//").replace("/./", "//"),
        protocols,
        extensions: (0..if r.chance(1, 50) { r.range(30, 100) } else { r.below(4) }).map(|_| ext(r)).collect(),
        origin: if r.chance(1, 2) { Some(format!("http://{}.example:{}", heads::alnum(r, 8).to_lowercase(), r.range(1, 65535))) } else { None },
        extra: (0..r.below(4)).map(|_| plain_field(r, &mut used)).collect(),
        key: heads::b16(r),
    }
}
fn builder(r: &mut Rng, base: &str, a: &Ask) -> Result<ClientBuilder<'static>, Fail> {
    let mut b = ClientBuilder::new(&format!("{}{}", base, a.target)).map_err(|e| Fail::H(format!("address: {}", e)))?.key(a.key);
    if r.chance(1, 2) {
        for p in &a.protocols {
            b = b.add_protocol(p.clone());
        }
        for e in &a.extensions {
            b = b.add_extension(mk_ext(e));
        }
    } else {
        if !a.protocols.is_empty() {
            let k = r.below(a.protocols.len() + 1);
            if k > 0 {
                b = b.add_protocols(a.protocols[..k].to_vec());
            }
            if k < a.protocols.len() {
                b = b.add_protocols(a.protocols[k..].to_vec());
            }
        }
        if !a.extensions.is_empty() {
            b = b.add_extensions(a.extensions.iter().map(mk_ext).collect::<Vec<Extension>>());
        }
    }
    if let Some(o) = &a.origin {
        b = b.origin(o.clone());
    }
    if !a.extra.is_empty() {
        b = b.custom_headers(&headers_of(&a.extra));
    }
    Ok(b)
}
/// What the server answers: a part of what was asked for.
fn answer(r: &mut Rng, a: &Ask) -> AcceptPlan {
    let mut used = vec![];
    let mut p = AcceptPlan::default();
    for x in &a.protocols {
        if r.chance(1, 2) {
            p.protocols.push(x.clone());
        }
    }
    if r.chance(1, 2) {
        r.shuffle(&mut p.protocols);
    }
    for x in &a.extensions {
        if r.chance(2, 3) {
            let mut e = x.clone();
            if r.chance(1, 3) {
                // the server may answer with other parameters
                e.1 = ext(r).1;
            }
            p.extensions.push(e);
        }
    }
    for _ in 0..r.below(4) {
        p.custom.push(plain_field(r, &mut used));
    }
    p.use_with = !p.custom.is_empty() || r.chance(1, 3);
    p.many_ext = r.chance(1, 2);
    if r.chance(1, 3) {
        p.limits = Some((1 << 20, 1 << 20));
    }
    p
}
/// What one side says about the connection.
#[derive(Debug, PartialEq, Clone, Default)]
struct View {
    protocols: Vec<String>,
    extensions: Vec<Ext>,
    fields: Vec<(String, Vec<Vec<u8>>)>,
}
fn fields(h: &Headers) -> Vec<(String, Vec<Vec<u8>>)> {
    let mut v: Vec<(String, Vec<Vec<u8>>)> = h.iter().map(|f| (f.name().to_ascii_lowercase(), h.get_raw(f.name()).map(|r| r.to_vec()).unwrap_or_default())).collect();
    v.sort();
    v
}
fn client_view<S: websocket_base::stream::Stream>(c: &websocket::sync::Client<S>) -> View {
    // raw values first: typed access must not change them
    let f = fields(c.headers());
    let v = View { protocols: c.protocols().to_vec(), extensions: c.extensions().iter().map(un_ext).collect(), fields: f };
    v
}
fn headers_view(h: &Headers) -> View {
    let f = fields(h);
    View {
        protocols: h.get::<WebSocketProtocol>().map(|p| p.0.clone()).unwrap_or_default(),
        extensions: h.get::<WebSocketExtensions>().map(|p| p.0.iter().map(un_ext).collect()).unwrap_or_default(),
        fields: f,
    }
}
fn wire_fields(bytes: &[u8]) -> Result<Vec<(String, Vec<Vec<u8>>)>, Fail> {
    let h = match hs::parse_head(bytes) {
        Ok(Some(h)) => h,
        x => viol!("what was written is no head: {:?} ({})", x, trunc(&String::from_utf8_lossy(bytes), 400)),
    };
    Ok(group(&h.fields))
}
fn group(f: &[(String, String)]) -> Vec<(String, Vec<Vec<u8>>)> {
    let mut v: Vec<(String, Vec<Vec<u8>>)> = vec![];
    for (n, x) in f {
        let n = n.to_ascii_lowercase();
        match v.iter_mut().find(|e| e.0 == n) {
            Some(e) => e.1.push(x.clone().into_bytes()),
            None => v.push((n, vec![x.clone().into_bytes()])),
        }
    }
    v.sort();
    v
}
fn told(what: &str, a: &Ask, r: &Reported) -> Res {
    ensure!(r.protocols == a.protocols, "{}: asked for protocols {:?}, the server was told {:?}", what, a.protocols, r.protocols);
    ensure!(r.extensions == a.extensions, "{}: asked for extensions {:?}, the server was told {:?}", what, a.extensions, r.extensions);
    ensure!(r.origin == a.origin, "{}: origin {:?}, the server was told {:?}", what, a.origin, r.origin);
    ensure!(r.uri == a.target, "{}: target {:?}, the server was told {:?}", what, a.target, r.uri);
    ensure!(r.key == Some(a.key), "{}: key {:?}, the server was told {:?}", what, a.key, r.key);
    ensure!(r.version.as_deref() == Some("13"), "{}: the server was told version {:?}", what, r.version);
    Ok(())
}
fn sees(what: &str, who: &str, protocols: &[String], extensions: &[Ext], custom: &[(String, Vec<u8>)], v: &View) -> Res {
    ensure!(v.protocols == protocols, "{}: {} reports protocols {:?}, the server chose {:?}", what, who, v.protocols, protocols);
    ensure!(v.extensions == extensions, "{}: {} reports extensions {:?}, the server chose {:?}", what, who, v.extensions, extensions);
    for (n, x) in custom {
        let n = n.to_ascii_lowercase();
        let got = v.fields.iter().find(|f| f.0 == n).map(|f| f.1.clone()).unwrap_or_default();
        ensure!(got == vec![x.clone()], "{}: {} reports {} as {:?}, the server sent {:?}", what, who, n, got, String::from_utf8_lossy(x));
    }
    Ok(())
}

/// The client's view of a given response.
fn client_on(b: &ClientBuilder<'static>, asy: bool, response: &[u8], r: &mut Rng) -> Result<(Result<View, String>, Vec<u8>), Fail> {
    let steps = if response.is_empty() { vec![] } else { gen::segment(r, response, &[]).0 };
    let s = Scripted::new(steps, if response.is_empty() { End::Eof } else { End::Block });
    let mut b = b.clone();
    let out = guard(|| {
        Ok(if asy {
            let s = s.clone().asy();
            match drive(b.async_connect_on(s.clone()), &[s])? {
                D::Done((_, h)) => Ok(headers_view(&h)),
                D::Err(e) => Err(format!("{:?}", e)),
                D::Idle => Err("waiting".into()),
            }
        } else {
            match b.connect_on(s.clone()) {
                Ok(c) => {
                    let v = client_view(&c);
                    let w = client_view(&c);
                    ensure!(v == w, "a client reports {:?} and then {:?}", v, w);
                    Ok(v)
                }
                Err(e) => Err(format!("{:?}", e)),
            }
        })
    })?;
    Ok((out, s.out()))
}

const MEM: [SE; 6] = [SE::Sync, SE::Pair, SE::Async, SE::Server, SE::AServer, SE::Hyper];

fn memory(c: &mut Case, se: SE) -> Res {
    let a = ask(&mut c.rng);
    let plan = answer(&mut c.rng, &a);
    let asy = c.idx % 2 == 0;
    let what = format!("{} client, {:?} server, asked {:?}, answer protocols {:?} extensions {:?} fields {:?}", if asy { "async" } else { "sync" }, se, a, plan.protocols, plan.extensions, plan.custom.iter().map(|f| &f.0).collect::<Vec<_>>());
    c.note(what.clone());
    let b = builder(&mut c.rng, "ws://h.example", &a)?;
    let (none, request) = client_on(&b, asy, b"", &mut c.rng)?;
    ensure!(none.is_err(), "{}: a client without any response", what);
    let head = match hs::parse_head(&request) {
        Ok(Some(h)) if h.len == request.len() => h,
        x => viol!("{}: the request is not one head: {:?}", what, x),
    };
    let mut first = head.first.split(' ');
    let q = Req {
        head: Head { first: head.first.clone(), fields: head.fields.iter().map(|(n, v)| (n.clone(), v.clone().into_bytes())).collect() },
        method: first.next().unwrap_or("").into(),
        uri: first.next().unwrap_or("").into(),
        version: "HTTP/1.1",
        key: a.key,
        bad: vec![],
        raw: Some(request.clone()),
        protocols: vec![],
        extensions: vec![],
        origin: None,
        ws_version: None,
    };
    let steps = gen::segment(&mut c.rng, &request, &[]).0;
    let rec = srv::serve(se, &q, steps, End::Block, &What::Accept(plan.clone()), vec![], vec![])?;
    ensure!(rec.accepted, "{}: the server refused the client's request: {:?}", what, rec.err);
    ensure!(rec.accept_err.is_none(), "{}: accepting failed: {:?}", what, rec.accept_err);
    told(&what, &a, rec.reported.as_ref().ok_or_else(|| Fail::H("no report".into()))?)?;
    let parsed = rec.parsed.as_ref().ok_or_else(|| Fail::H("no request".into()))?;
    for (n, v) in &a.extra {
        let got: Vec<Vec<u8>> = parsed.fields.iter().filter(|f| f.0.eq_ignore_ascii_case(n)).flat_map(|f| f.1.clone()).collect();
        ensure!(got == vec![v.clone()], "{}: the server was told {} is {:?}", what, n, got);
    }
    if let (Some(p), Some(e)) = (&rec.client_protocols, &rec.client_extensions) {
        ensure!(*p == plan.protocols, "{}: the server's own client reports protocols {:?}", what, p);
        let want: Vec<String> = plan.extensions.iter().map(|e| mk_ext(e).to_string()).collect();
        ensure!(*e == want, "{}: the server's own client reports extensions {:?}", what, e);
        c.ev("server_side_views", 1);
    }
    let wire = wire_fields(&rec.written)?;
    // the answer to the blocking client goes to the asynchronous one as well: they asked with the same key
    for asy in [asy, !asy].iter() {
        let who = if *asy { "the asynchronous client" } else { "the blocking client" };
        let (v, again) = client_on(&b, *asy, &rec.written, &mut c.rng)?;
        let v = match v {
            Ok(v) => v,
            Err(e) => viol!("{}: {} refuses the server's answer {}: {}", what, who, String::from_utf8_lossy(&rec.written).replace("\r\n", " | "), e),
        };
        sees(&what, who, &plan.protocols, &plan.extensions, &plan.custom, &v)?;
        ensure!(v.fields == wire, "{}: {} reports the fields {:?}, on the wire are {:?}", what, who, v.fields, wire);
        ensure!(!again.is_empty(), "{}: no request", what);
        c.ev("client_views", 1);
    }
    if !a.protocols.is_empty() {
        c.ev("with_protocols", 1);
    }
    if !plan.extensions.is_empty() {
        c.ev("with_extensions", 1);
    }
    c.ev(&format!("with_{:?}", se), 1);
    c.eval(hash(&request) ^ hash(&rec.written));
    c.sample(|| what);
    Ok(())
}

/// A foreign server writes its lists its own way.
fn foreign(c: &mut Case) -> Res {
    let a = ask(&mut c.rng);
    let plan = answer(&mut c.rng, &a);
    let b = builder(&mut c.rng, "ws://h.example", &a)?;
    let mut h = Head { first: "HTTP/1.1 101 Switching Protocols".into(), fields: vec![] };
    h.push("Upgrade", "websocket");
    h.push("Connection", "Upgrade");
    h.push("Sec-WebSocket-Accept", &accept_for(&b64(&a.key)));
    list_fields(&mut c.rng, &mut h, "Sec-WebSocket-Protocol", &plan.protocols);
    let e: Vec<String> = plan.extensions.iter().map(|e| ext_text(&mut c.rng, e)).collect();
    list_fields(&mut c.rng, &mut h, "Sec-WebSocket-Extensions", &e);
    let mut custom = vec![];
    for (n, v) in &plan.custom {
        let n = if c.rng.chance(1, 3) { heads::casing(&mut c.rng, n) } else { n.clone() };
        h.push(&n, &String::from_utf8_lossy(v));
        custom.push((n, v.clone()));
    }
    let bytes = h.encode();
    let what = format!("response {}", h.show());
    c.note(what.clone());
    let want = group(&h.fields.iter().map(|(n, v)| (n.clone(), String::from_utf8_lossy(v).trim().to_string())).collect::<Vec<_>>());
    for asy in [false, true].iter() {
        let who = if *asy { "the asynchronous client" } else { "the blocking client" };
        let v = match client_on(&b, *asy, &bytes, &mut c.rng)?.0 {
            Ok(v) => v,
            Err(e) => viol!("{}: refused by {}: {}", what, who, e),
        };
        sees(&what, who, &plan.protocols, &plan.extensions, &custom, &v)?;
        ensure!(v.fields == want, "{}: {} reports the fields {:?}", what, who, v.fields);
    }
    c.ev("foreign_responses", 1);
    c.eval(hash(&bytes));
    c.sample(|| what);
    Ok(())
}

// ------------------------------------------------------------------ over sockets
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Sv {
    Sync,
    Tls,
    Async,
    AsyncTls,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Face {
    Auto,
    Fixed,
    AAuto,
    AFixed,
    OnStream,
    AOnStream,
}
const SVS: [Sv; 4] = [Sv::Sync, Sv::Tls, Sv::Async, Sv::AsyncTls];
const FACES: [Face; 6] = [Face::Auto, Face::Fixed, Face::AAuto, Face::AFixed, Face::OnStream, Face::AOnStream];

#[derive(Debug)]
struct Told {
    reported: Reported,
    fields: Vec<(String, Vec<Vec<u8>>)>,
    own: Option<View>,
    heard: Vec<M>,
}
/// bare client: the options of an accept plan put on an upgrade
fn dress<S: websocket_base::stream::Stream, B>(mut u: websocket::server::upgrade::WsUpgrade<S, B>, p: &AcceptPlan) -> websocket::server::upgrade::WsUpgrade<S, B> {
    for x in &p.protocols {
        u = u.use_protocol(x.clone());
    }
    if p.many_ext && !p.extensions.is_empty() {
        u = u.use_extensions(p.extensions.iter().map(mk_ext).collect::<Vec<Extension>>());
    } else {
        for e in &p.extensions {
            u = u.use_extension(mk_ext(e));
        }
    }
    u
}
fn sync_serve<S>(u: websocket::server::upgrade::sync::Upgrade<S>, p: &AcceptPlan, n: usize) -> Result<Told, String>
where
    S: websocket_base::stream::Stream,
{
    let reported = report(&u);
    let f = fields(&u.request.headers);
    let u = dress(u, p);
    let h = headers_of(&p.custom);
    let r = match (p.limits, p.use_with) {
        (None, false) => u.accept(),
        (None, true) => u.accept_with(&h),
        (Some((a, b)), false) => u.accept_with_limits(a, b),
        (Some((a, b)), true) => u.accept_with_headers_and_limits(&h, a, b),
    };
    let mut cl = r.map_err(|e| format!("accept: {}", e.1))?;
    let own = View { protocols: cl.protocols().to_vec(), extensions: cl.extensions().iter().map(un_ext).collect(), fields: vec![] };
    let mut heard = vec![];
    for _ in 0..n {
        let m = cl.recv_message().map_err(|e| format!("receive: {:?}", e))?;
        heard.push(M::of(&m));
        cl.send_message(&m).map_err(|e| format!("send: {:?}", e))?;
    }
    Ok(Told { reported, fields: f, own: Some(own), heard })
}
fn async_serve<S>(u: websocket::server::upgrade::r#async::Upgrade<S>, p: &AcceptPlan, n: usize) -> Box<dyn Future<Item = Told, Error = String> + Send>
where
    S: websocket::stream::r#async::Stream + Send + 'static,
{
    let reported = report(&u);
    let f = fields(&u.request.headers);
    let u = dress(u, p);
    let h = headers_of(&p.custom);
    let r = match (p.limits, p.use_with) {
        (None, false) => u.accept(),
        (None, true) => u.accept_with(&h),
        (Some((a, b)), false) => u.accept_with_limits(a, b),
        (Some((a, b)), true) => u.accept_with_headers_and_limits(&h, a, b),
    };
    Box::new(r.map_err(|e| format!("accept: {:?}", e)).and_then(move |(cl, h)| {
        let own = headers_view(&h);
        let own = View { fields: vec![], ..own };
        futures::future::loop_fn((cl, vec![]), move |(cl, heard)| {
            cl.into_future().map_err(|e| format!("receive: {:?}", e.0)).and_then(move |(m, cl)| {
                let mut heard: Vec<M> = heard;
                let m = m.unwrap_or(OwnedMessage::Close(None));
                heard.push(M::of(&m));
                cl.send(m).map_err(|e| format!("send: {:?}", e)).map(move |cl| if heard.len() >= n { futures::future::Loop::Break(heard) } else { futures::future::Loop::Continue((cl, heard)) })
            })
        })
        .map(move |heard| Told { reported, fields: f, own: Some(own), heard })
    }))
}
fn sync_talk<S: websocket_base::stream::Stream>(r: Result<websocket::sync::Client<S>, websocket::WebSocketError>, say: &[M]) -> Result<(View, Vec<M>), String> {
    let mut cl = r.map_err(|e| format!("connect: {:?}", e))?;
    let v = client_view(&cl);
    let mut got = vec![];
    for m in say {
        cl.send_message(&m.owned()).map_err(|e| format!("send: {:?}", e))?;
        got.push(M::of(&cl.recv_message().map_err(|e| format!("receive: {:?}", e))?));
    }
    Ok((v, got))
}
fn async_talk<S>(f: websocket::client::r#async::ClientNew<S>, say: Vec<M>) -> Result<Result<(View, Vec<M>), String>, Fail>
where
    S: websocket::stream::r#async::Stream + Send + 'static,
{
    let f = f.map_err(|e| format!("connect: {:?}", e)).and_then(move |(cl, h)| {
        let v = headers_view(&h);
        futures::stream::iter_ok::<_, String>(say)
            .fold((cl, vec![]), |(cl, mut got), m| {
                cl.send(m.owned())
                    .map_err(|e| format!("send: {:?}", e))
                    .and_then(|cl| cl.into_future().map_err(|e| format!("receive: {:?}", e.0)))
                    .map(move |(m, cl)| {
                        if let Some(m) = m {
                            got.push(M::of(&m));
                        }
                        (cl, got)
                    })
            })
            .map(move |(_, got)| (v, got))
    });
    net::block(f)
}
fn sockets(c: &mut Case, w: &Keys) -> Res {
    let sv = SVS[(c.idx % 4) as usize];
    let face = FACES[(c.idx / 4 % 6) as usize];
    let tls = matches!(sv, Sv::Tls | Sv::AsyncTls);
    let a = ask(&mut c.rng);
    let plan = answer(&mut c.rng, &a);
    let n = c.rng.range(1, 4);
    let say: Vec<M> = (0..n).map(|i| if i == 0 { M::Text(gen::utf8(&mut c.rng, 20)) } else { M::Bin(gen::payload(&mut c.rng, 70 * i)) }).collect();
    let what = format!("{:?} client of a {:?} server, asked {:?}, answer {:?} {:?}", face, sv, a, plan.protocols, plan.extensions);
    c.note(what.clone());
    let (atx, arx) = mpsc::channel::<Result<SocketAddr, String>>();
    let p2 = plan.clone();
    let acc = w.acceptor.clone();
    let server = std::thread::spawn(move || -> Result<Result<Told, String>, String> {
        let go = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Told, String> {
            let io = |e: std::io::Error| e.to_string();
            match sv {
                Sv::Sync => {
                    let mut s = websocket::sync::Server::bind(net::any().as_str()).map_err(io)?;
                    let _ = atx.send(s.local_addr().map_err(io));
                    let u = s.accept().map_err(|e| format!("refused: {}", e.error))?;
                    net::guard_sock(&u.stream);
                    sync_serve(u, &p2, n)
                }
                Sv::Tls => {
                    let mut s = websocket::sync::Server::bind_secure(net::any().as_str(), acc).map_err(io)?;
                    let _ = atx.send(s.local_addr().map_err(io));
                    let u = s.accept().map_err(|e| format!("refused: {}", e.error))?;
                    net::guard_sock(u.stream.get_ref());
                    sync_serve(u, &p2, n)
                }
                Sv::Async | Sv::AsyncTls => {
                    let mut rt = tokio::runtime::current_thread::Runtime::new().map_err(io)?;
                    let h = websocket::r#async::Handle::default();
                    if sv == Sv::Async {
                        let s = websocket::r#async::Server::bind(net::any().as_str(), &h).map_err(io)?;
                        let _ = atx.send(s.local_addr().map_err(io));
                        let f = s.incoming().into_future().map_err(|e| format!("refused: {}", e.0.error)).and_then(move |(x, _)| async_serve(x.unwrap().0, &p2, n));
                        rt.block_on(f)
                    } else {
                        let s = websocket::r#async::Server::bind_secure(net::any().as_str(), acc, &h).map_err(io)?;
                        let _ = atx.send(s.local_addr().map_err(io));
                        let f = s.incoming().into_future().map_err(|e| format!("refused: {}", e.0.error)).and_then(move |(x, _)| async_serve(x.unwrap().0, &p2, n));
                        rt.block_on(f)
                    }
                }
            }
        }));
        match go {
            Ok(r) => Ok(r),
            Err(_) => {
                let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                Err(format!("panicked at {}: {}", loc, msg))
            }
        }
    });
    let addr = match arx.recv() {
        Ok(Ok(a)) => a,
        x => return Err(Fail::H(format!("server: {:?}", x))),
    };
    let base = format!("{}://{}", if tls { "wss" } else { "ws" }, addr);
    let mut b = builder(&mut c.rng, &base, &a)?;
    let conn = if tls { Some(w.connector.clone()) } else { None };
    let tcp = || std::net::TcpStream::connect(addr).map_err(|e| Fail::H(format!("connect: {}", e)));
    let got = guard(|| {
        Ok(match face {
            Face::Auto => sync_talk(b.connect(conn.clone()), &say),
            Face::Fixed if tls => sync_talk(b.connect_secure(conn.clone()), &say),
            Face::Fixed => sync_talk(b.connect_insecure(), &say),
            Face::AAuto => async_talk(b.async_connect(conn.clone()), say.clone())?,
            Face::AFixed if tls => async_talk(b.async_connect_secure(conn.clone()), say.clone())?,
            Face::AFixed => async_talk(b.async_connect_insecure(), say.clone())?,
            Face::OnStream if tls => {
                let s = w.connector.connect(&addr.ip().to_string(), tcp()?).map_err(|e| Fail::H(format!("tls: {}", e)))?;
                sync_talk(b.connect_on(s), &say)
            }
            Face::OnStream => sync_talk(b.connect_on(tcp()?), &say),
            Face::AOnStream if tls => {
                let k = tokio_tls::TlsConnector::from(w.connector.clone());
                let f = tokio_tcp::TcpStream::connect(&addr)
                    .map_err(|e| websocket::WebSocketError::IoError(e))
                    .and_then(move |s| k.connect(&addr.ip().to_string(), s).map_err(|_| websocket::WebSocketError::NoDataAvailable))
                    .and_then(move |s| b.async_connect_on(s));
                async_talk(Box::new(f), say.clone())?
            }
            Face::AOnStream => {
                let f = tokio_tcp::TcpStream::connect(&addr).map_err(|e| websocket::WebSocketError::IoError(e)).and_then(move |s| b.async_connect_on(s));
                async_talk(Box::new(f), say.clone())?
            }
        })
    })?;
    let (view, heard) = match got {
        Ok(x) => x,
        Err(e) => viol!("{}: {} (server: {:?})", what, e, if e.starts_with("connect") { None } else { server.join().ok() }),
    };
    let t = match server.join() {
        Ok(Ok(Ok(t))) => t,
        Ok(Ok(Err(e))) | Ok(Err(e)) => viol!("{}: the server: {}", what, e),
        Err(_) => return Err(Fail::H("server thread".into())),
    };
    told(&what, &a, &t.reported)?;
    for (n, v) in &a.extra {
        let n = n.to_ascii_lowercase();
        let got = t.fields.iter().find(|f| f.0 == n).map(|f| f.1.clone()).unwrap_or_default();
        ensure!(got == vec![v.clone()], "{}: the server was told {} is {:?}", what, n, got);
    }
    sees(&what, "the client", &plan.protocols, &plan.extensions, &plan.custom, &view)?;
    if let Some(o) = &t.own {
        sees(&what, "the server's own client", &plan.protocols, &plan.extensions, &[], o)?;
    }
    ensure!(heard == say && t.heard == say, "{}: said {:?}, the server heard {:?} and the client got {:?} back", what, say, t.heard, heard);
    c.ev("socket_connections", 1);
    c.seen("pairing", hash_s(&format!("{:?}{:?}", sv, face)));
    c.eval(hash_s(&what));
    c.sample(|| what);
    Ok(())
}
pub struct Keys {
    pub acceptor: TlsAcceptor,
    pub connector: TlsConnector,
}
/// a server for the loopback addresses and a client that trusts it
pub fn keys(w: &World) -> Result<Keys, Fail> {
    let mut leaf = leaf_for("", None);
    leaf.dns = vec![];
    leaf.ips = net::ips().to_vec();
    Ok(Keys {
        acceptor: TlsAcceptor::new(identity(&leaf, Some(&w.ca), &[])?).map_err(|e| Fail::H(format!("acceptor: {}", e)))?,
        connector: connector(&w.ca)?,
    })
}

pub fn run(x: &Ctx) {
    x.rule("a case configures a client (target, protocols, extensions with parameters, origin, further fields), takes its request through one server interface that chooses an answer, and its answer to the blocking and the asynchronous client; compared: what the server was told with what was configured, and what each client (and the client object on the server side) reports with what was chosen and with the bytes on the wire; over sockets every client interface meets every server with and without TLS and messages are echoed; distinct by request and response");
    x.assume("the server answers with protocols and extensions that were asked for, which is what the protocol allows");
    x.run("memory", x.q(24_000, 400_000), |c| {
        let se = MEM[(c.idx / 2 % 3) as usize];
        memory(c, se)
    });
    x.run("listeners", x.q(1_600, 20_000), |c| {
        let se = MEM[3 + (c.idx / 2 % 3) as usize];
        memory(c, se)
    });
    x.run("foreign", x.q(20_000, 400_000), foreign);
    let w = World::new();
    let k = keys(&w);
    x.run_t("sockets", x.q(1_440, 24_000), 8, |c| match &k {
        Ok(k) => sockets(c, k),
        Err(_) => Err(Fail::H("no certificates".into())),
    });
    x.need("client_views", 10_000);
    x.need("server_side_views", 1_000);
    x.need("with_protocols", 1_000);
    x.need("with_extensions", 1_000);
    x.need("foreign_responses", 5_000);
    x.need("socket_connections", 500);
    let _ = Message::text("");
}
