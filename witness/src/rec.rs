//! User-side implementations of the crate's traits that record what they are given.
use oauth1_request::serializer::Serializer;
use oauth1_request::signature_method::{Sign, SignatureMethod};
use oauth1_request::Request;
use std::cell::RefCell;
use std::fmt::{self, Display, Write};
use std::rc::Rc;

use crate::oracle::{Ev, SLOTS};

#[derive(Default, Debug, Clone, PartialEq, Eq)]
pub struct Log {
    pub calls: Vec<String>,
    pub base: String,
}
pub type Shared = Rc<RefCell<Log>>;

/// A user-defined signature method. `OVER`: whether every provided operation is overridden.
#[derive(Clone)]
pub struct Rec<const OVER: bool> {
    pub log: Shared,
    pub name: &'static str,
    pub use_nonce: bool,
    pub use_ts: bool,
    pub sig: String,
}
impl<const OVER: bool> Rec<OVER> {
    pub fn new(sig: &str) -> Self {
        Rec { log: Default::default(), name: "REC", use_nonce: true, use_ts: true, sig: sig.to_owned() }
    }
    pub fn base(&self) -> String {
        self.log.borrow().base.clone()
    }
}
impl<const OVER: bool> fmt::Debug for Rec<OVER> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Rec")
    }
}

/// The sign of [`Rec`] relying on the provided operations.
pub struct SignDef(pub Rec<false>);
/// The sign of [`Rec`] overriding all provided operations.
pub struct SignOver(pub Rec<true>);

macro_rules! required {
    () => {
        type Signature = String;
        fn get_signature_method_name(&self) -> &'static str {
            self.0.name
        }
        fn request_method(&mut self, method: &str) {
            let mut l = self.0.log.borrow_mut();
            l.calls.push(format!("request_method({method:?})"));
            l.base += &format!("{method}&");
        }
        fn uri<T: Display>(&mut self, uri: T) {
            let uri = uri.to_string();
            let mut l = self.0.log.borrow_mut();
            l.calls.push(format!("uri({uri:?})"));
            l.base += &format!("{uri}&");
        }
        fn parameter<V: Display>(&mut self, key: &str, value: V) {
            let value = value.to_string();
            let mut l = self.0.log.borrow_mut();
            l.calls.push(format!("parameter({key:?}, {value:?})"));
            l.base += &format!("{key}%3D{value}");
            crate::auth::nap(key);
        }
        fn delimiter(&mut self) {
            let mut l = self.0.log.borrow_mut();
            l.calls.push("delimiter".into());
            l.base += "%26";
        }
        fn end(self) -> String {
            self.0.log.borrow_mut().calls.push("end".into());
            self.0.sig
        }
        fn use_nonce(&self) -> bool {
            self.0.use_nonce
        }
        fn use_timestamp(&self) -> bool {
            self.0.use_ts
        }
    };
}
macro_rules! over {
    ($($m:ident),*) => {$(
        fn $m<V: Display>(&mut self, value: V) {
            let value = value.to_string();
            let mut l = self.0.log.borrow_mut();
            l.calls.push(format!("{}({:?})", stringify!($m), value));
            l.base += &format!("oauth_{}%3D{}", stringify!($m), value);
            crate::auth::nap(concat!("oauth_", stringify!($m)));
        }
    )*};
}
impl Sign for SignDef {
    required!();
}
impl Sign for SignOver {
    required!();
    over!(callback, consumer_key, nonce, token, verifier);
    fn signature_method(&mut self) {
        let mut l = self.0.log.borrow_mut();
        l.calls.push("signature_method".into());
        l.base += &format!("oauth_signature_method%3D{}", self.0.name);
    }
    fn timestamp(&mut self, value: u64) {
        let mut l = self.0.log.borrow_mut();
        l.calls.push(format!("timestamp({value})"));
        l.base += &format!("oauth_timestamp%3D{value}");
        crate::auth::nap("oauth_timestamp");
    }
    fn version(&mut self) {
        let mut l = self.0.log.borrow_mut();
        l.calls.push("version".into());
        l.base += "oauth_version%3D1.0";
    }
}
impl SignatureMethod for Rec<false> {
    type Sign = SignDef;
    fn sign_with(self, cs: &str, ts: Option<&str>) -> SignDef {
        self.log.borrow_mut().calls.push(format!("sign_with({cs:?}, {ts:?})"));
        SignDef(self)
    }
}
impl SignatureMethod for Rec<true> {
    type Sign = SignOver;
    fn sign_with(self, cs: &str, ts: Option<&str>) -> SignOver {
        self.log.borrow_mut().calls.push(format!("sign_with({cs:?}, {ts:?})"));
        SignOver(self)
    }
}

/// A serializer that records its calls.
#[derive(Default)]
pub struct LogSer(pub Vec<Ev>);
impl Serializer for LogSer {
    type Output = Vec<Ev>;
    fn serialize_parameter<V: Display>(&mut self, key: &str, value: V) {
        self.0.push(Ev::Param(key.to_owned(), value.to_string()));
    }
    fn serialize_parameter_encoded<V: Display>(&mut self, key: &str, value: V) {
        self.0.push(Ev::Enc(key.to_owned(), value.to_string()));
    }
    fn serialize_oauth_callback(&mut self) {
        self.0.push(Ev::Slot(0));
    }
    fn serialize_oauth_consumer_key(&mut self) {
        self.0.push(Ev::Slot(1));
    }
    fn serialize_oauth_nonce(&mut self) {
        self.0.push(Ev::Slot(2));
    }
    fn serialize_oauth_signature_method(&mut self) {
        self.0.push(Ev::Slot(3));
    }
    fn serialize_oauth_timestamp(&mut self) {
        self.0.push(Ev::Slot(4));
    }
    fn serialize_oauth_token(&mut self) {
        self.0.push(Ev::Slot(5));
    }
    fn serialize_oauth_verifier(&mut self) {
        self.0.push(Ev::Slot(6));
    }
    fn serialize_oauth_version(&mut self) {
        self.0.push(Ev::Slot(7));
    }
    fn end(mut self) -> Vec<Ev> {
        self.0.push(Ev::End);
        self.0
    }
}

pub fn feed_slot<S: Serializer>(s: &mut S, slot: usize) {
    match slot {
        0 => s.serialize_oauth_callback(),
        1 => s.serialize_oauth_consumer_key(),
        2 => s.serialize_oauth_nonce(),
        3 => s.serialize_oauth_signature_method(),
        4 => s.serialize_oauth_timestamp(),
        5 => s.serialize_oauth_token(),
        6 => s.serialize_oauth_verifier(),
        7 => s.serialize_oauth_version(),
        _ => unreachable!("{}", SLOTS.len()),
    }
}

/// A user-defined request feeding fixed events (values may be written in pieces).
#[derive(Clone, Debug)]
pub struct Seq<V> {
    pub params: Vec<(String, V, bool)>,
}
impl<V: Display> Request for Seq<V> {
    fn serialize<S: Serializer>(&self, mut s: S) -> S::Output {
        let mut slot = 0;
        for (k, v, encoded) in &self.params {
            while slot < 8 && SLOTS[slot] < k.as_str() {
                feed_slot(&mut s, slot);
                slot += 1;
            }
            if *encoded {
                s.serialize_parameter_encoded(k, v);
            } else {
                s.serialize_parameter(k, v);
            }
        }
        while slot < 8 {
            feed_slot(&mut s, slot);
            slot += 1;
        }
        s.end()
    }
}

/// A writer that refuses the write with the given number (0-based), once or from then on.
/// `log` holds the accepted bytes; it survives a panic of the writer's user.
#[derive(Clone, Default)]
pub struct FailW {
    pub log: Rc<RefCell<FailState>>,
}
#[derive(Default, Debug)]
pub struct FailState {
    pub accepted: String,
    pub writes: usize,
    pub fail_at: Option<usize>,
    pub sticky: bool,
    pub failed: bool,
}
impl FailW {
    pub fn new(initial: &str, fail_at: Option<usize>, sticky: bool) -> FailW {
        FailW {
            log: Rc::new(RefCell::new(FailState { accepted: initial.to_owned(), writes: 0, fail_at, sticky, failed: false })),
        }
    }
}
impl Write for FailW {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut l = self.log.borrow_mut();
        let n = l.writes;
        l.writes += 1;
        if l.fail_at == Some(n) || (l.failed && l.sticky) {
            l.failed = true;
            return Err(fmt::Error);
        }
        l.accepted.push_str(s);
        Ok(())
    }
}
impl Display for FailW {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.log.borrow().accepted)
    }
}
