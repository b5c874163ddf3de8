//! Token printer that keeps contract text verbatim and records where each function lands.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Raw {
    pub text: String,
    pub kind: String,
    pub func: Option<usize>,
}
pub struct Map {
    pub ranges: Vec<(usize, usize)>,
}
struct P<'a> {
    out: String,
    line: usize,
    raws: &'a [Raw],
    map: Map,
    joint: bool,
}
pub fn print(ts: TokenStream, raws: &[Raw], nf: usize) -> (String, Map) {
    let mut p = P { out: String::new(), line: 1, raws, map: Map { ranges: vec![(0, 0); nf] }, joint: true };
    p.stream(ts);
    (p.out, p.map)
}
impl<'a> P<'a> {
    fn nl(&mut self) {
        if !self.out.ends_with('\n') {
            self.out.push('\n');
            self.line += 1;
        }
        self.joint = true;
    }
    fn tok(&mut self, s: &str) {
        if !self.joint && !self.out.ends_with('\n') {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.line += s.matches('\n').count();
        self.joint = false;
    }
    fn stream(&mut self, ts: TokenStream) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    self.tok(a);
                    if a == "{" {
                        self.nl();
                    } else {
                        self.joint = true;
                    }
                    self.stream(g.stream());
                    if a == "{" {
                        self.nl();
                    }
                    self.tok(b);
                    if a == "{" {
                        self.nl();
                    }
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if let Some(n) = s.strip_prefix("__vxp_") {
                        let r = &self.raws[n.parse::<usize>().unwrap()];
                        if !r.text.trim().is_empty() {
                            self.nl();
                            self.out.push_str(r.text.trim_end());
                            self.line += r.text.trim_end().matches('\n').count();
                            self.nl();
                        }
                    } else if let Some(n) = s.strip_prefix("__vxfn_") {
                        self.nl();
                        self.map.ranges[n.parse::<usize>().unwrap()].0 = self.line;
                    } else if let Some(n) = s.strip_prefix("__vxend_") {
                        self.nl();
                        self.map.ranges[n.parse::<usize>().unwrap()].1 = self.line;
                    } else {
                        self.tok(&s)
                    }
                }
                TokenTree::Punct(p) => {
                    self.tok(&p.as_char().to_string());
                    self.joint = p.spacing() == Spacing::Joint;
                    if p.as_char() == ';' {
                        self.nl();
                    }
                }
                TokenTree::Literal(l) => self.tok(&l.to_string()),
            }
        }
    }
}
