//! Reference machine for the notation, written from the property texts and not
//! from the implementation: the source is first turned into tokens (escapes
//! resolved), then an explicit stack machine evaluates the tokens.

use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Class {
    Start,
    End,
    Escape,
    Space,
    Other,
}

pub fn default_class(c: char) -> Class {
    match c {
        '{' => Class::Start,
        '}' => Class::End,
        '\\' => Class::Escape,
        // The characters with the Unicode property White_Space.
        '\u{9}'..='\u{d}' | ' ' | '\u{85}' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{2028}' | '\u{2029}' | '\u{202f}'
        | '\u{205f}' | '\u{3000}' => Class::Space,
        _ => Class::Other,
    }
}

/// A text: characters with their index in the source.
pub type MText = Vec<(char, u32)>;

/// A form.
#[derive(Clone, Debug)]
pub enum M {
    Text(MText),
    Comb(Box<(M, M)>),
    EmptyNest,
    List(Vec<M>),
    Extra(u32),
}

pub fn mtext(s: &str) -> M {
    M::Text(s.chars().map(|c| (c, u32::MAX)).collect())
}

pub fn chars(t: &MText) -> String {
    t.iter().map(|x| x.0).collect()
}

/// Equality by characters, ignoring positions.
impl PartialEq for M {
    fn eq(&self, o: &M) -> bool {
        match (self, o) {
            (M::Text(a), M::Text(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0),
            (M::Comb(a), M::Comb(b)) => a.0 == b.0 && a.1 == b.1,
            (M::EmptyNest, M::EmptyNest) => true,
            (M::List(a), M::List(b)) => a == b,
            (M::Extra(a), M::Extra(b)) => a == b,
            _ => false,
        }
    }
}

impl Hash for M {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self {
            M::Text(t) => {
                h.write_u8(1);
                h.write_usize(t.len());
                for x in t {
                    h.write_u32(x.0 as u32);
                }
            }
            M::Comb(b) => {
                h.write_u8(2);
                b.0.hash(h);
                b.1.hash(h);
            }
            M::EmptyNest => h.write_u8(3),
            M::List(l) => {
                h.write_u8(4);
                h.write_usize(l.len());
                for x in l {
                    x.hash(h);
                }
            }
            M::Extra(n) => {
                h.write_u8(5);
                h.write_u32(*n);
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum MErr {
    Unbalanced(u32),
    Missing,
    Macro(u32),
    Alloc,
    Deref,
}

pub type Item = Result<M, MErr>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Operative,
    Applicative,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Effect {
    /// Return what was given as operands.
    Operands,
    /// Return the head form.
    Head,
    /// Return nothing.
    Remove,
    /// Fail.
    Fail(u32),
    /// Return an extra value.
    Const(u32),
    /// Return a combination of the head and the operands.
    Wrap,
    /// Return the empty nest.
    Nest,
    /// Return the empty list.
    Empty,
    /// Return a list of the head and the operands.
    Many,
    /// Fail with one of the parser's own errors.
    Own(u8),
}

/// A bound operator.
#[derive(Clone, Debug)]
pub struct Macro {
    pub key: M,
    pub kind: Kind,
    pub effect: Effect,
}

/// One macro call.
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Call {
    pub id: usize,
    pub kind: Kind,
    pub head: M,
    pub operands: M,
}

/// How much of the source must have been looked at when something happens:
/// the number of characters, `usize::MAX` meaning that the end was seen.
pub type Need = usize;

#[derive(Default, Debug)]
pub struct Run {
    pub items: Vec<Item>,
    /// Need at each item.
    pub item_need: Vec<Need>,
    /// Number of macro calls made before each item was complete.
    pub item_calls: Vec<usize>,
    pub calls: Vec<Call>,
    pub call_need: Vec<Need>,
    pub end_need: Need,
    /// Index of the first character not taken yet, at each item.
    pub item_pos: Vec<usize>,
    pub max_depth: usize,
    pub steps: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kd {
    Lit,
    Ws,
    Open,
    Close,
    Dangle,
}

#[derive(Clone, Copy, Debug)]
struct Tok {
    kd: Kd,
    ch: char,
    /// Index of the character itself.
    at: u32,
    /// Index at which the token begins (the escape's, if escaped).
    from: u32,
    /// Index after the token.
    to: u32,
}

fn tokens(src: &[char], cls: &dyn Fn(char) -> Class) -> Vec<Tok> {
    let mut v = Vec::with_capacity(src.len());
    let mut i = 0;
    while i < src.len() {
        let ch = src[i];
        let at = i as u32;
        let mut t = Tok { kd: Kd::Lit, ch, at, from: at, to: at + 1 };
        match cls(ch) {
            Class::Start => t.kd = Kd::Open,
            Class::End => t.kd = Kd::Close,
            Class::Space => t.kd = Kd::Ws,
            Class::Other => {}
            Class::Escape => {
                if i + 1 < src.len() {
                    t.ch = src[i + 1];
                    t.at = at + 1;
                    t.to = at + 2;
                    i += 1;
                } else {
                    t.kd = Kd::Dangle;
                }
            }
        }
        v.push(t);
        i += 1;
    }
    v
}

enum Frame {
    /// Waiting for the head.
    Head,
    /// Head known, collecting operand forms.
    Body { head: M, bound: Option<usize>, forms: Vec<M> },
}

struct Machine<'a> {
    tok: Vec<Tok>,
    n: usize,
    macros: &'a [Macro],
    i: usize,
    stack: Vec<Frame>,
    run: Run,
}

pub fn parse(src: &[char], cls: &dyn Fn(char) -> Class, macros: &[Macro]) -> Run {
    let mut m = Machine { tok: tokens(src, cls), n: src.len(), macros, i: 0, stack: vec![], run: Run::default() };
    m.go();
    m.run.end_need = usize::MAX;
    m.run
}

pub fn parse_str(src: &str, macros: &[Macro]) -> Run {
    let v: Vec<char> = src.chars().collect();
    parse(&v, &default_class, macros)
}

impl Machine<'_> {
    fn peek(&self) -> Option<Tok> {
        self.tok.get(self.i).copied()
    }

    /// Need when the current token is the look-ahead.
    fn look(&self) -> Need {
        self.peek().map_or(usize::MAX, |t| t.from as usize + 1)
    }

    /// Need when everything before the current token was taken and nothing else.
    fn taken(&self) -> Need {
        if self.i == 0 {
            0
        } else {
            self.tok[self.i - 1].to as usize
        }
    }

    /// Take the maximal run of tokens of the given kinds.
    fn gather(&mut self, kinds: &[Kd]) -> MText {
        let mut t = vec![];
        while let Some(k) = self.peek() {
            if !kinds.contains(&k.kd) {
                break;
            }
            if k.kd != Kd::Dangle {
                t.push((k.ch, k.at));
            }
            self.i += 1;
            self.run.steps += 1;
        }
        t
    }

    fn emit(&mut self, it: Item, need: Need) {
        self.run.items.push(it);
        self.run.item_need.push(need);
        self.run.item_calls.push(self.run.calls.len());
        self.run.item_pos.push(self.tok.get(self.i).map_or(self.n, |t| t.from as usize));
    }

    fn fail(&mut self, e: MErr, need: Need) {
        self.stack.clear();
        self.emit(Err(e), need);
    }

    fn missing(&mut self) {
        self.i = self.tok.len();
        self.fail(MErr::Missing, usize::MAX);
    }

    /// A form (or its removal) is complete; hand it to whoever waits for it.
    fn deliver(&mut self, form: M, need: Need) {
        match self.stack.last_mut() {
            None => self.emit(Ok(form), need),
            Some(Frame::Body { forms, .. }) => forms.push(form),
            Some(Frame::Head) => self.head(form),
        }
    }

    fn call(&mut self, id: usize, head: M, operands: M) {
        let mac = &self.macros[id];
        self.run.calls.push(Call { id, kind: mac.kind, head: head.clone(), operands: operands.clone() });
        let need = self.taken();
        self.run.call_need.push(need);
        match mac.effect {
            Effect::Operands => self.deliver(operands, need),
            Effect::Head => self.deliver(head, need),
            Effect::Remove => {}
            Effect::Fail(n) => self.fail(MErr::Macro(n), need),
            Effect::Const(n) => self.deliver(M::Extra(n), need),
            Effect::Wrap => self.deliver(M::Comb(Box::new((head, operands))), need),
            Effect::Nest => self.deliver(M::EmptyNest, need),
            Effect::Empty => self.deliver(M::List(vec![]), need),
            Effect::Many => self.deliver(M::List(vec![head, operands]), need),
            Effect::Own(0) => self.fail(MErr::Missing, need),
            Effect::Own(1) => self.fail(MErr::Alloc, need),
            Effect::Own(2) => self.fail(MErr::Deref, need),
            Effect::Own(_) => self.fail(MErr::Unbalanced(0), need),
        }
    }

    /// The head of the innermost open nest is known.
    fn head(&mut self, head: M) {
        if let Some(Tok { kd: Kd::Ws, .. }) = self.peek() {
            self.i += 1;
            self.run.steps += 1;
        }
        let bound = self.macros.iter().position(|m| m.key == head);
        match bound {
            Some(id) if self.macros[id].kind == Kind::Operative => {
                let mut t: MText = vec![];
                let mut level = 0;
                loop {
                    let Some(k) = self.peek() else { return self.missing() };
                    self.i += 1;
                    self.run.steps += 1;
                    match k.kd {
                        Kd::Open => level += 1,
                        Kd::Close if level == 0 => break,
                        Kd::Close => level -= 1,
                        Kd::Dangle => continue,
                        _ => {}
                    }
                    t.push((k.ch, k.at));
                }
                self.stack.pop();
                self.call(id, head, M::Text(t));
            }
            _ => {
                *self.stack.last_mut().unwrap() = Frame::Body { head, bound, forms: vec![] };
            }
        }
    }

    fn go(&mut self) {
        loop {
            self.run.steps += 1;
            self.run.max_depth = self.run.max_depth.max(self.stack.len());
            let t = self.peek();
            match self.stack.last() {
                None => {
                    let Some(t) = t else { return };
                    match t.kd {
                        Kd::Open => {
                            self.i += 1;
                            self.stack.push(Frame::Head);
                        }
                        Kd::Close => {
                            self.i += 1;
                            let need = self.taken();
                            self.emit(Err(MErr::Unbalanced(t.at)), need);
                        }
                        _ => {
                            let text = self.gather(&[Kd::Lit, Kd::Ws, Kd::Dangle]);
                            if let Some(Tok { kd: Kd::Close, at, .. }) = self.peek() {
                                self.i += 1;
                                let need = self.taken();
                                self.emit(Err(MErr::Unbalanced(at)), need);
                            } else {
                                let need = self.look();
                                self.emit(Ok(M::Text(text)), need);
                            }
                        }
                    }
                }
                Some(Frame::Head) => {
                    let Some(t) = t else {
                        self.missing();
                        continue;
                    };
                    match t.kd {
                        Kd::Ws => self.i += 1,
                        Kd::Open => {
                            self.i += 1;
                            self.stack.push(Frame::Head);
                        }
                        Kd::Close => {
                            self.i += 1;
                            self.stack.pop();
                            let need = self.taken();
                            self.deliver(M::EmptyNest, need);
                        }
                        Kd::Lit | Kd::Dangle => {
                            let text = self.gather(&[Kd::Lit, Kd::Dangle]);
                            self.head(M::Text(text));
                        }
                    }
                }
                Some(Frame::Body { .. }) => {
                    let Some(t) = t else {
                        self.missing();
                        continue;
                    };
                    match t.kd {
                        Kd::Open => {
                            self.i += 1;
                            self.stack.push(Frame::Head);
                        }
                        Kd::Close => {
                            self.i += 1;
                            let Some(Frame::Body { head, bound, forms }) = self.stack.pop() else { unreachable!() };
                            let operands = M::List(forms);
                            match bound {
                                Some(id) => self.call(id, head, operands),
                                None => {
                                    let need = self.taken();
                                    self.deliver(M::Comb(Box::new((head, operands))), need)
                                }
                            }
                        }
                        _ => {
                            let text = self.gather(&[Kd::Lit, Kd::Ws, Kd::Dangle]);
                            if let Some(Frame::Body { forms, .. }) = self.stack.last_mut() {
                                forms.push(M::Text(text));
                            }
                        }
                    }
                }
            }
        }
    }
}

/// Compact rendering for messages.
pub fn show(m: &M) -> String {
    let mut s = String::new();
    fn go(m: &M, s: &mut String) {
        if s.len() > 2000 {
            return;
        }
        match m {
            M::Text(t) => s.push_str(&format!("{:?}", chars(t))),
            M::Comb(b) => {
                s.push('<');
                go(&b.0, s);
                s.push_str(" . ");
                go(&b.1, s);
                s.push('>');
            }
            M::EmptyNest => s.push_str("<>"),
            M::List(l) => {
                s.push('[');
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        s.push(' ');
                    }
                    go(x, s);
                }
                s.push(']');
            }
            M::Extra(n) => s.push_str(&format!("#{n}")),
        }
    }
    go(m, &mut s);
    s
}

pub fn show_item(i: &Item) -> String {
    match i {
        Ok(m) => show(m),
        Err(e) => format!("{e:?}"),
    }
}

pub fn show_items(v: &[Item]) -> String {
    let mut s = String::new();
    for i in v {
        s.push_str(&show_item(i));
        s.push_str("; ");
        if s.len() > 3000 {
            s.push('…');
            break;
        }
    }
    s
}
