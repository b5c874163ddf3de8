//! Authorization cases: generation, execution through the many entry points, and the RFC oracle.
use crate::engine::*;
use crate::gen::*;
use crate::oracle::{self, Ev, P};
use crate::rec::*;
use oauth1_request as oauth;
use oauth::request::AssertSorted;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::Serializer;
use oauth::signature_method::SignatureMethod;
use oauth::{Builder, Credentials, ParameterList, Request, Token};
use std::fmt::{self, Display, Write};
use std::num::NonZeroU64;
use std::time::{SystemTime, UNIX_EPOCH};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dest {
    Header,
    Form,
    Query,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Route {
    Direct,
    DirectBuf,
    Builder,
    BuilderBuf,
    Into,
    IntoBuf,
    BuilderToken,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ReqKind {
    Seq,
    Sorted,
    List,
    RefOpt,
}
#[derive(Clone, Debug)]
pub struct Auth {
    pub method: String,
    pub uri: Chunky,
    pub params: Vec<(String, Chunky, bool)>,
    pub client: (String, String),
    pub token: Option<(String, String)>,
    pub callback: Option<String>,
    pub verifier: Option<String>,
    pub nonce: Option<String>,
    pub timestamp: Option<u64>,
    pub version: bool,
    pub prefix: String,
    pub rand: Vec<u8>,
    pub dest: Dest,
    pub route: Route,
    pub req: ReqKind,
    pub use_nonce: bool,
    pub use_ts: bool,
}

/// A buffer (also usable as URI) remembering the pieces written to it.
#[derive(Clone, Debug, Default)]
pub struct ChunkBuf(pub Vec<String>);
impl Write for ChunkBuf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push(s.to_owned());
        nap(s);
        Ok(())
    }
}
impl Display for ChunkBuf {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.iter().try_for_each(|s| f.write_str(s))
    }
}
thread_local! {
    static NAP: std::cell::Cell<Option<&'static str>> = const { std::cell::Cell::new(None) };
}
/// Makes the next writer that sees `text` slow: it returns in a later second.
pub fn nap_at(text: Option<&'static str>) {
    NAP.with(|n| n.set(text));
}
pub fn nap(seen: &str) {
    if NAP.with(|n| n.get()).is_some_and(|t| seen.contains(t)) {
        nap_at(None);
        let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
        std::thread::sleep(std::time::Duration::from_nanos(1_003_000_000 - u64::from(now.subsec_nanos())));
    }
}
impl ChunkBuf {
    pub fn of(c: &Chunky) -> ChunkBuf {
        let mut b = ChunkBuf::default();
        write!(b, "{}", c).unwrap();
        b
    }
}

impl Auth {
    pub fn gen(r: &mut R) -> Auth {
        let n = match r.below(8) {
            0 => 0,
            1 => 1,
            2..=5 => r.below(6),
            _ => r.below(14),
        };
        let req = [ReqKind::Seq, ReqKind::Seq, ReqKind::Sorted, ReqKind::List, ReqKind::RefOpt][r.below(5)];
        let mut params: Vec<(String, Chunky, bool)> = (0..n)
            .map(|_| {
                let v = if r.one_in(6) { r.text() } else { r.short_text() };
                (r.key(), r.chunky(&v), req == ReqKind::Seq && r.one_in(3))
            })
            .collect();
        for (_, v, e) in &mut params {
            if *e {
                // an "already encoded" value is one that went through an encoder
                let t = oracle::enc(&v.text);
                *v = r.chunky(&t);
            }
        }
        if r.one_in(5) && n > 1 {
            let k = params[0].0.clone();
            params[1].0 = k;
        }
        sort_params(&mut params);
        let uri = match r.below(4) {
            0 => "https://example.com/oauth/request_token".to_owned(),
            1 => "http://example.com:8080/a%20b/c".to_owned(),
            _ => r.text().replace('?', "!"),
        };
        let opt = |r: &mut R, n: usize| if r.one_in(n) { None } else { Some(if r.one_in(4) { r.text() } else { r.short_text() }) };
        Auth {
            method: if r.one_in(6) { r.key() } else { r.pick(&["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "CONNECT", "M-SEARCH", "get", "Post", " GET", "GET ", "PUT\n", ""]).to_owned() },
            uri: r.chunky(&uri),
            params,
            client: (if r.one_in(3) { r.text() } else { r.short_text() }, if r.one_in(3) { r.text() } else { r.short_text() }),
            token: if r.flip() { Some((r.short_text(), if r.one_in(3) { r.text() } else { r.short_text() })) } else { None },
            callback: opt(r, 2),
            verifier: opt(r, 2),
            nonce: opt(r, 3),
            timestamp: match r.below(5) {
                0 | 1 => None,
                2 => Some(1),
                3 => Some(u64::MAX),
                _ => Some(1 + r.next() % 10_000_000_000),
            },
            version: r.flip(),
            prefix: if r.flip() { String::new() } else { r.short_text() },
            rand: (0..9).map(|_| if r.one_in(3) { 0 } else { r.next() as u8 }).collect(),
            dest: [Dest::Header, Dest::Form, Dest::Query][r.below(3)],
            route: [Route::Direct, Route::DirectBuf, Route::Builder, Route::BuilderBuf, Route::Into, Route::IntoBuf, Route::BuilderToken][r.below(7)],
            req,
            use_nonce: !r.one_in(6),
            use_ts: !r.one_in(6),
        }
    }
    /// A deterministic small case: `mask` selects options, `place` positions keys.
    pub fn small(mask: u64, place: usize, dest: Dest, route: Route) -> Auth {
        let plain = |s: &str| Chunky { text: s.into(), cuts: vec![], by_char: false };
        let keys: Vec<String> = match place {
            0 => vec![],
            1 => vec!["a".into()],
            2 => vec!["z".into()],
            3 => vec!["a".into(), "z".into()],
            n if n < 12 => vec![oracle::SLOTS[n - 4].to_owned()],
            n if n < 20 => vec![format!("{}~", oracle::SLOTS[n - 12])],
            n if n < 28 => {
                let mut s = oracle::SLOTS[n - 20].to_owned();
                s.pop();
                vec![s]
            }
            28 => vec!["b".into(), "b".into(), "oauth_t".into(), "z".into()],
            _ => oracle::SLOTS.iter().map(|s| s.to_string()).collect(),
        };
        let mut params: Vec<_> = keys
            .into_iter()
            .enumerate()
            .map(|(i, k)| {
                let enc = (mask >> 7) & 1 == 1 && i % 2 == 1;
                (k, plain(["é &", "1%2B", "x/y", ""][if enc { 1 } else { i % 4 }]), enc)
            })
            .collect();
        sort_params(&mut params);
        let o = |b: u32, s: &str| if (mask >> b) & 1 == 1 { Some(s.to_owned()) } else { None };
        Auth {
            method: "POST".into(),
            uri: plain("https://ex.com/p:q"),
            params,
            client: ("ck&=".into(), "cs%".into()),
            token: if mask & 1 == 1 { Some(("tk\"".into(), "ts é".into())) } else { None },
            callback: o(1, "http://cb/?x=1&y"),
            verifier: o(2, "v 1"),
            nonce: o(3, "n/+"),
            timestamp: if (mask >> 4) & 1 == 1 { Some(1_400_000_000) } else { None },
            version: (mask >> 5) & 1 == 1,
            prefix: if (mask >> 6) & 1 == 1 { "pre&".into() } else { String::new() },
            rand: vec![0, 0, 7, 1, 2, 3, 4, 5, 6],
            dest,
            route,
            req: ReqKind::Seq,
            use_nonce: true,
            use_ts: true,
        }
    }
    pub fn builder<SM: SignatureMethod>(&self, sm: SM) -> Builder<'_, SM, String> {
        let mut b = if self.route == Route::BuilderToken && self.token.is_some() {
            let t = self.token.clone().unwrap();
            Builder::with_token(Token::from_parts(self.client.0.clone(), self.client.1.clone(), t.0, t.1), sm)
        } else {
            let mut b = Builder::new(Credentials::new(self.client.0.clone(), self.client.1.clone()), sm);
            b.token(self.token.clone().map(|t| Credentials::new(t.0, t.1)));
            b
        };
        b.callback(self.callback.as_deref())
            .verifier(self.verifier.as_deref())
            .nonce(self.nonce.as_deref())
            .timestamp(self.timestamp.and_then(NonZeroU64::new))
            .version(self.version);
        b
    }
    pub fn options(&self) -> Options<'_> {
        let mut o = Options::new();
        o.callback(self.callback.as_deref())
            .verifier(self.verifier.as_deref())
            .nonce(self.nonce.as_deref())
            .timestamp(self.timestamp.and_then(NonZeroU64::new))
            .version(self.version);
        o
    }
    /// Produces the output text.
    pub fn run<SM: SignatureMethod + Clone>(&self, sm: SM) -> Result<String, String> {
        let r = guard(|| match self.req {
            ReqKind::Seq => self.run_req(sm, &Seq { params: self.params.clone() }),
            ReqKind::Sorted => {
                let v: Vec<(&str, &Chunky)> = self.params.iter().map(|p| (p.0.as_str(), &p.1)).collect();
                self.run_req(sm, &AssertSorted::new(v))
            }
            ReqKind::List => {
                let mut v: Vec<(String, Chunky)> = self.params.iter().map(|p| (p.0.clone(), p.1.clone())).collect();
                v.reverse();
                self.run_req(sm, &ParameterList::<String, Chunky>::new(v))
            }
            ReqKind::RefOpt => {
                if self.params.is_empty() {
                    if self.version {
                        self.run_req(sm, &())
                    } else {
                        self.run_req(sm, &None::<()>)
                    }
                } else {
                    self.run_req(sm, &&Some(Seq { params: self.params.clone() }))
                }
            }
        });
        oauth_reset();
        r
    }
    pub fn run_req<SM: SignatureMethod + Clone>(&self, sm: SM, req: &impl Request) -> String {
        rand::rngs::control::set(Some(self.rand.clone()));
        let m = &*self.method;
        let buf = || ChunkBuf(vec![self.prefix.clone()]);
        let quri = || {
            if self.prefix.is_empty() {
                ChunkBuf::of(&self.uri)
            } else {
                ChunkBuf(vec![self.uri.text.clone()])
            }
        };
        let creds = || Credentials::new(&*self.client.0, &*self.client.1);
        let tok = || self.token.as_ref().map(|t| Credentials::new(&*t.0, &*t.1));
        match (self.route, self.dest) {
            (Route::Direct, Dest::Header) => {
                let o = self.options();
                req.serialize(Authorizer::authorization(m, &self.uri, creds(), tok(), &o, sm))
            }
            (Route::Direct, Dest::Form) => {
                let o = self.options();
                req.serialize(Authorizer::form(m, &self.uri, creds(), tok(), &o, sm))
            }
            (Route::Direct | Route::DirectBuf, Dest::Query) => {
                let o = self.options();
                req.serialize(Authorizer::query(m, quri(), creds(), tok(), &o, sm)).to_string()
            }
            (Route::DirectBuf, Dest::Header) => {
                let o = self.options();
                req.serialize(Authorizer::authorization_with_buf(buf(), m, &self.uri, creds(), tok(), &o, sm)).to_string()
            }
            (Route::DirectBuf, Dest::Form) => {
                let o = self.options();
                req.serialize(Authorizer::form_with_buf(buf(), m, &self.uri, creds(), tok(), &o, sm)).to_string()
            }
            (Route::Builder | Route::BuilderToken, Dest::Header) => self.builder(sm).authorize(m, &self.uri, req),
            (Route::Builder | Route::BuilderToken, Dest::Form) => self.builder(sm).to_form(m, &self.uri, req),
            (Route::Builder | Route::BuilderBuf | Route::BuilderToken, Dest::Query) => self.builder(sm).to_query(m, quri(), req).to_string(),
            (Route::BuilderBuf, Dest::Header) => self.builder(sm).authorize_with_buf(buf(), m, &self.uri, req).to_string(),
            (Route::BuilderBuf, Dest::Form) => self.builder(sm).to_form_with_buf(buf(), m, &self.uri, req).to_string(),
            (Route::Into, Dest::Header) => self.builder(sm).into_authorization(m, &self.uri, req),
            (Route::Into, Dest::Form) => self.builder(sm).into_form(m, &self.uri, req),
            (Route::Into | Route::IntoBuf, Dest::Query) => self.builder(sm).into_query(m, quri(), req).to_string(),
            (Route::IntoBuf, Dest::Header) => self.builder(sm).into_authorization_with_buf(buf(), m, &self.uri, req).to_string(),
            (Route::IntoBuf, Dest::Form) => self.builder(sm).into_form_with_buf(buf(), m, &self.uri, req).to_string(),
        }
    }
    /// Produces the output text twice, from an authorizer copied after half of what it is fed.
    fn run_forked<SM: SignatureMethod + Clone>(&self, sm: SM) -> Result<(String, String), String>
    where
        SM::Sign: Clone,
    {
        fn go<S: Serializer<Output = String> + Clone>(mut s: S, params: &[(String, Chunky, bool)]) -> (String, String) {
            let evs: Vec<Ev> = params.iter().map(|(k, v, e)| if *e { Ev::Enc(k.clone(), v.text.clone()) } else { Ev::Param(k.clone(), v.text.clone()) }).collect();
            let evs = oracle::merge(&evs);
            let feed = |s: &mut S, evs: &[Ev]| {
                for e in evs {
                    match e {
                        Ev::Param(k, v) => s.serialize_parameter(k, v),
                        Ev::Enc(k, v) => s.serialize_parameter_encoded(k, v),
                        Ev::Slot(i) => feed_slot(s, *i),
                        Ev::End => {}
                    }
                }
            };
            let (first, rest) = evs.split_at(evs.len() / 2);
            feed(&mut s, first);
            let mut t = s.clone();
            feed(&mut s, rest);
            feed(&mut t, rest);
            (s.end(), t.end())
        }
        let r = guard(|| {
            let o = self.options();
            let m = &*self.method;
            let client = Credentials::new(&*self.client.0, &*self.client.1);
            let token = self.token.as_ref().map(|t| Credentials::new(&*t.0, &*t.1));
            match self.dest {
                Dest::Header => go(Authorizer::authorization(m, &self.uri, client, token, &o, sm), &self.params),
                Dest::Form => go(Authorizer::form(m, &self.uri, client, token, &o, sm), &self.params),
                Dest::Query => go(Authorizer::query(m, self.uri.text.clone(), client, token, &o, sm), &self.params),
            }
        });
        oauth_reset();
        r
    }
    /// A copy of an authorizer goes on like the original.
    fn check_forked<SM: SignatureMethod + Clone>(&self, sm: SM) -> Result<(), String>
    where
        SM::Sign: Clone,
    {
        if self.nonce.is_none() || self.timestamp.is_none() {
            return Ok(());
        }
        let want = Auth { route: Route::Direct, req: ReqKind::Seq, ..self.clone() }.run(sm.clone())?;
        eq("output of an authorizer copied half-way, and of its copy", &self.run_forked(sm)?, &(want.clone(), want))
    }
    fn has_buf(&self) -> bool {
        matches!(self.route, Route::DirectBuf | Route::BuilderBuf | Route::IntoBuf) && self.dest != Dest::Query
    }
    /// What is sent, given the nonce and timestamp actually used.
    pub fn sent(&self, name: &str, nonce: Option<&str>, ts: Option<u64>) -> Vec<P> {
        let own: Vec<Ev> = self
            .params
            .iter()
            .map(|(k, v, e)| if *e { Ev::Enc(k.clone(), v.text.clone()) } else { Ev::Param(k.clone(), v.text.clone()) })
            .collect();
        let p = |k: &str, v: String| P { k: k.to_owned(), v, oauth: true };
        let mut out = vec![];
        for e in oracle::merge(&own) {
            match e {
                Ev::Param(k, v) => out.push(P { k, v: oracle::enc(&v), oauth: false }),
                Ev::Enc(k, v) => out.push(P { k, v, oauth: false }),
                Ev::End => {}
                Ev::Slot(0) => out.extend(self.callback.as_ref().map(|v| p("oauth_callback", oracle::enc(v)))),
                Ev::Slot(1) => out.push(p("oauth_consumer_key", oracle::enc(&self.client.0))),
                Ev::Slot(2) => out.extend(nonce.map(|v| p("oauth_nonce", oracle::enc(v)))),
                Ev::Slot(3) => out.push(p("oauth_signature_method", name.to_owned())),
                Ev::Slot(4) => out.extend(ts.map(|v| p("oauth_timestamp", v.to_string()))),
                Ev::Slot(5) => out.extend(self.token.as_ref().map(|v| p("oauth_token", oracle::enc(&v.0)))),
                Ev::Slot(6) => out.extend(self.verifier.as_ref().map(|v| p("oauth_verifier", oracle::enc(v)))),
                Ev::Slot(_) => {
                    if self.version {
                        out.push(p("oauth_version", "1.0".into()))
                    }
                }
            }
        }
        out
    }
    pub fn expected(&self, sent: &[P], sig: &str) -> String {
        match self.dest {
            Dest::Header => format!("{}{}", if self.has_buf() { &*self.prefix } else { "" }, oracle::header(sent, sig)),
            Dest::Form => format!("{}{}", if self.has_buf() { &*self.prefix } else { "" }, oracle::form(sent, Some(sig))),
            Dest::Query => format!("{}?{}", self.uri.text, oracle::form(sent, Some(sig))),
        }
    }
    pub fn base(&self, sent: &[P]) -> String {
        oracle::base_string(&self.method, &self.uri.text, sent)
    }
    /// Finds the value of a generated parameter in the output (unencoded alphabet).
    fn observed(&self, out: &str, name: &str) -> Vec<String> {
        let (open, close): (String, char) = match self.dest {
            Dest::Header => (format!("{name}=\""), '"'),
            _ => (format!("{name}="), '&'),
        };
        let mut v = vec![];
        let mut rest = out;
        while let Some(i) = rest.find(&open) {
            rest = &rest[i + open.len()..];
            v.push(rest[..rest.find(close).unwrap_or(rest.len())].to_owned());
        }
        v.dedup();
        v
    }
    /// Runs with signature method `sm` and checks output (and what `base_of` says was signed)
    /// against the oracle; `sig` computes the expected (encoded) signature from the base string.
    pub fn check<SM: SignatureMethod + Clone>(
        &self,
        sm: SM,
        name: &str,
        use_nonce: bool,
        use_ts: bool,
        signed: impl FnOnce() -> Option<String>,
        sig: impl Fn(&str) -> String,
    ) -> Result<(), String> {
        let now = || SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
        let before = now();
        let out = self.run(sm).map_err(|p| format!("panicked: {p}"))?;
        let after = now();
        let nonces: Vec<Option<String>> = match (use_nonce, &self.nonce) {
            (false, _) => vec![None],
            (true, Some(n)) => vec![Some(n.clone())],
            (true, None) => {
                let v = self.observed(&out, "oauth_nonce");
                v.into_iter().filter(|n| n.len() <= 12 && n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_')).map(Some).collect()
            }
        };
        if nonces.is_empty() {
            return Err(format!("no well-formed generated oauth_nonce in the output: {out:?}"));
        }
        let tss: Vec<Option<u64>> = match (use_ts, self.timestamp) {
            (false, _) => vec![None],
            (true, Some(t)) => vec![Some(t)],
            (true, None) => (before..=after).map(Some).collect(),
        };
        let got_base = signed();
        let mut best: Option<String> = None;
        for n in &nonces {
            for t in &tss {
                let sent = self.sent(name, n.as_deref(), *t);
                let base = self.base(&sent);
                let want = self.expected(&sent, &sig(&base));
                match &got_base {
                    Some(g) if *g != base => {
                        best.get_or_insert(format!("text signed\n      got: {g:?}\n expected: {base:?}"));
                        continue;
                    }
                    _ => {}
                }
                if out != want {
                    best = Some(format!("output\n      got: {out:?}\n expected: {want:?}"));
                    continue;
                }
                return Ok(());
            }
        }
        Err(best.unwrap())
    }
    pub fn check_rec<const OVER: bool>(&self, sig: &str) -> Result<(), String>
    where
        Rec<OVER>: SignatureMethod,
    {
        let mut rec = Rec::<OVER>::new(sig);
        rec.use_nonce = self.use_nonce;
        rec.use_ts = self.use_ts;
        let r2 = rec.clone();
        self.check(rec, "REC", self.use_nonce, self.use_ts, || Some(r2.base()), |_| sig.to_owned())?;
        let l = r2.log.borrow();
        let want = format!("sign_with({:?}, {:?})", self.client.1, self.token.as_ref().map(|t| &*t.1));
        eq("secrets handed to the signature method", &l.calls[0], &want)?;
        eq("signature taken last", l.calls.last().unwrap(), &"end".to_owned())
    }
    /// One authorization during which the clock moves on: a writer that sees the nonce or the
    /// timestamp is slow. Both places of the generated values must still agree.
    pub fn check_slow(n: u64, dest: Dest) -> Case {
        let route = [Route::BuilderBuf, Route::Direct, Route::IntoBuf, Route::DirectBuf][(n % 4) as usize];
        let mut a = Auth::small(0b100000, 3, dest, route);
        a.prefix = "p".into();
        let at = ["oauth_timestamp", "oauth_nonce", "oauth_consumer_key"][(n / 4 % 3) as usize];
        nap_at(Some(at));
        let res = if n % 2 == 0 { a.check_rec::<true>("s") } else { a.check_rec::<false>("s") };
        nap_at(None);
        Case::one(format!("a writer that lets the clock move on once it has seen {at}; {a:?}"), true, res)
    }
    /// Pins the nonce when the generated one does not follow the scripted random source.
    pub fn pin(&mut self) {
        if self.nonce.is_none() && self.run(oauth::PLAINTEXT) != self.run(oauth::PLAINTEXT) {
            self.nonce = Some("pinned".into());
        }
    }
    pub fn check_hmac(&self) -> Result<(), String> {
        let key = self.key();
        self.check(oauth::HMAC_SHA1, "HMAC-SHA1", true, true, || None, |base| {
            oracle::enc(&oracle::b64(&oracle::hmac_sha1(key.as_bytes(), base.as_bytes())))
        })?;
        self.check_forked(oauth::HMAC_SHA1)
    }
    pub fn check_plain(&self) -> Result<(), String> {
        let key = self.key();
        self.check(oauth::PLAINTEXT, "PLAINTEXT", true, true, || None, |_| oracle::enc(&key))?;
        self.check_forked(oauth::PLAINTEXT)
    }
    pub fn key(&self) -> String {
        oracle::key_text(&self.client.1, self.token.as_ref().map(|t| &*t.1))
    }
}
pub fn oauth_reset() {
    rand::rngs::control::set(None);
}
pub fn sort_params(params: &mut [(String, Chunky, bool)]) {
    params.sort_by_cached_key(|(k, v, e)| (k.clone(), if *e { v.text.clone() } else { oracle::enc(&v.text) }));
}
