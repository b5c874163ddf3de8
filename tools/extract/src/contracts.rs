//! The contract files: blocks of raw Verus text keyed by the item they belong to.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub key: String,
    pub tags: Vec<String>,
    pub flags: Vec<String>,
    pub attrs: Vec<String>,
    pub ret: Option<String>,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub panics: BTreeMap<usize, String>,
    pub before: Vec<(String, String)>,
    pub subst: Vec<(String, String)>,
    pub cfg: Option<String>,
    pub inst: BTreeMap<String, String>,
}
#[derive(Default, Clone, Debug)]
pub struct ItemC {
    pub key: String,
    pub text: String,
    pub attrs: Vec<String>,
    pub skip: bool,
    pub cfg: Option<String>,
}
#[derive(Default, Clone, Debug)]
pub struct Contracts {
    pub fns: Vec<FnC>,
    pub items: Vec<ItemC>,
    pub subst: Vec<(String, String)>,
    pub raw: Vec<(String, String)>,
}

pub fn parse(text: &str, cfgs: &[String], out: &mut Contracts) {
    #[derive(PartialEq)]
    enum Where {
        None,
        Fn(&'static str),
        Item,
        Raw,
    }
    let mut w = Where::None;
    let mut idx = 0usize;
    let mut pat = String::new();
    // `@if CFG` ... `@else` ... `@endif`
    let mut active: Vec<bool> = vec![];
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(c) = t.strip_prefix("@if ") {
            active.push(cfgs.iter().any(|x| x == c.trim()));
            continue;
        }
        if t.trim_end() == "@else" {
            let l = active.last_mut().unwrap();
            *l = !*l;
            continue;
        }
        if t.trim_end() == "@endif" {
            active.pop().unwrap();
            continue;
        }
        if t.starts_with("//##") || active.contains(&false) {
            continue;
        }
        if let Some(rest) = t.strip_prefix('@').filter(|r| r.starts_with(|c: char| c.is_ascii_lowercase())) {
            let (cmd, arg) = match rest.find(char::is_whitespace) {
                Some(i) => (&rest[..i], rest[i..].trim()),
                None => (rest, ""),
            };
            match cmd {
                "fn" => {
                    let mut it = arg.split(" : ");
                    let key = it.next().unwrap().trim().to_string();
                    let mut c = FnC { key, ..Default::default() };
                    for f in it.next().unwrap_or("").split_whitespace() {
                        if let Some(x) = f.strip_prefix("cfg=") {
                            c.cfg = Some(x.into());
                        } else if f.starts_with('C') && f[1..].chars().all(|c| c.is_ascii_digit()) {
                            c.tags.push(f.into());
                        } else {
                            c.flags.push(f.into());
                        }
                    }
                    out.fns.push(c);
                    w = Where::Fn("spec");
                }
                "attr" => match w {
                    Where::Fn(_) => out.fns.last_mut().unwrap().attrs.push(arg.into()),
                    Where::Item => out.items.last_mut().unwrap().attrs.push(arg.into()),
                    _ => panic!("@attr outside a block"),
                },
                "ret" => out.fns.last_mut().unwrap().ret = Some(arg.into()),
                "entry" => w = Where::Fn("entry"),
                "exit" => w = Where::Fn("exit"),
                "loop" => {
                    idx = arg.parse().unwrap();
                    w = Where::Fn("loop")
                }
                "closure" => {
                    idx = arg.parse().unwrap();
                    w = Where::Fn("closure")
                }
                "panic" => {
                    idx = arg.parse().unwrap();
                    w = Where::Fn("panic")
                }
                "before" => {
                    pat = arg.into();
                    w = Where::Fn("before")
                }
                "inst" => {
                    let (a, b) = arg.split_once('=').unwrap();
                    out.fns.last_mut().unwrap().inst.insert(a.trim().into(), b.trim().into());
                }
                "subst" => {
                    let (a, b) = arg.split_once("==>>").expect("@subst A ==>> B");
                    let p = (a.trim().to_string(), b.trim().to_string());
                    match w {
                        Where::Fn(_) => out.fns.last_mut().unwrap().subst.push(p),
                        _ => out.subst.push(p),
                    }
                }
                "item" | "skip" => {
                    let mut it = arg.split(" : ");
                    let key = it.next().unwrap().trim().to_string();
                    let cfg = it.next().and_then(|f| f.trim().strip_prefix("cfg=")).map(|s| s.to_string());
                    out.items.push(ItemC { key, cfg, skip: cmd == "skip", ..Default::default() });
                    w = Where::Item;
                }
                "raw" => {
                    out.raw.push((arg.into(), String::new()));
                    w = Where::Raw;
                }
                "global" => w = Where::None,
                x => panic!("unknown directive @{x}"),
            }
            continue;
        }
        let add = |s: &mut String| {
            if !(s.is_empty() && line.trim().is_empty()) {
                s.push_str(line);
                s.push('\n');
            }
        };
        match w {
            Where::None => {}
            Where::Raw => add(&mut out.raw.last_mut().unwrap().1),
            Where::Item => add(&mut out.items.last_mut().unwrap().text),
            Where::Fn(part) => {
                let c = out.fns.last_mut().unwrap();
                match part {
                    "spec" => add(&mut c.spec),
                    "entry" => add(&mut c.entry),
                    "exit" => add(&mut c.exit),
                    "loop" => add(c.loops.entry(idx).or_default()),
                    "closure" => add(c.closures.entry(idx).or_default()),
                    "panic" => add(c.panics.entry(idx).or_default()),
                    "before" => {
                        if c.before.last().map(|b| b.0 != pat).unwrap_or(true) {
                            c.before.push((pat.clone(), String::new()));
                        }
                        add(&mut c.before.last_mut().unwrap().1)
                    }
                    _ => unreachable!(),
                }
            }
        }
    }
    let keep = |c: &Option<String>| c.as_ref().map(|c| cfgs.contains(c)).unwrap_or(true);
    out.fns.retain(|f| keep(&f.cfg));
    out.items.retain(|f| keep(&f.cfg));
}

/// `pat` matches `key` if it equals it, or a `::`-separated suffix of it; `*` stands for any text.
pub fn key_match(pat: &str, key: &str) -> bool {
    let pat: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
    let cands: Vec<&str> = {
        // suffixes starting at a module separator (outside `<...>`)
        let mut v = vec![key];
        let b = key.as_bytes();
        let mut depth = 0i32;
        let mut i = 0;
        while i + 1 < b.len() {
            match b[i] {
                b'<' => depth += 1,
                b'>' => depth -= 1,
                b':' if b[i + 1] == b':' && depth == 0 => {
                    v.push(&key[i + 2..]);
                    i += 1;
                }
                _ => {}
            }
            i += 1;
        }
        v
    };
    cands.iter().any(|c| glob(pat.as_bytes(), c.as_bytes()))
}
fn glob(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|i| glob(&p[1..], &s[i..])),
        Some(c) => s.first() == Some(c) && glob(&p[1..], &s[1..]),
    }
}
