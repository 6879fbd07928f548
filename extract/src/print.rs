//! Token printer: one statement per line, joint punctuation kept together.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut p = P { out: String::new(), indent: 0, bol: true, prev: Prev::None, levels: vec![true] };
    p.stream(ts);
    p.out
}
#[derive(PartialEq, Clone, Copy)]
enum Prev { None, Word, Joint, Punct, Tick }
struct P { out: String, indent: usize, bol: bool, prev: Prev, levels: Vec<bool> }
impl P {
    fn nl(&mut self) {
        if !self.bol { self.out.push('\n'); self.bol = true; self.prev = Prev::None; }
    }
    fn word(&mut self, s: &str, prev: Prev) {
        if self.bol { for _ in 0..self.indent { self.out.push_str("  "); } self.bol = false; }
        else if self.prev != Prev::Joint && self.prev != Prev::Tick && self.prev != Prev::None { self.out.push(' '); }
        self.out.push_str(s);
        self.prev = prev;
    }
    fn stream(&mut self, ts: TokenStream) {
        for t in ts {
            match t {
                TokenTree::Ident(i) => self.word(&i.to_string(), Prev::Word),
                TokenTree::Literal(l) => self.word(&l.to_string(), Prev::Word),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let pv = if c == '\'' { Prev::Tick } else if p.spacing() == Spacing::Joint { Prev::Joint } else { Prev::Punct };
                    self.word(&c.to_string(), pv);
                    if c == ';' && *self.levels.last().unwrap() { self.nl(); }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        self.word("{", Prev::Punct);
                        self.indent += 1;
                        let empty = g.stream().is_empty();
                        if !empty { self.nl(); }
                        self.levels.push(true);
                        self.stream(g.stream());
                        self.levels.pop();
                        self.nl();
                        self.indent -= 1;
                        self.word("}", Prev::Punct);
                        self.nl();
                    }
                    d => {
                        let (o, c) = match d { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                        if !o.is_empty() { self.word(o, Prev::Punct); }
                        self.levels.push(false);
                        self.stream(g.stream());
                        self.levels.pop();
                        if !c.is_empty() { self.word(c, Prev::Punct); }
                    }
                },
            }
        }
    }
}
