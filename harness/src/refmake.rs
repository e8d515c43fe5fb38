//! An independent reference interpreter for the subset of makefile syntax that
//! hastur implements. Works on plain byte strings, shares no code with hastur.
//! `Stop::Err` means "a reader must report an error", `Stop::Unsup` means the
//! input leaves the subset the specification speaks about.

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    Err,
    Unsup,
}
pub type R<T> = Result<T, Stop>;
pub type B = Vec<u8>;

#[derive(Clone)]
pub enum Piece {
    /// Expanded when the variable was set; the names it came from
    Lit(B, Vec<B>),
    /// Expanded on use
    Rec(B),
}
#[derive(Clone)]
pub struct Var {
    pub name: B,
    pub simple: bool,
    pub val: Vec<Piece>,
}
#[derive(Clone)]
pub struct Rule {
    pub target: B,
    pub deps: Vec<B>,
    pub cmds: Vec<B>,
}
pub struct Db {
    pub vars: Vec<Var>,
    pub rules: Vec<Rule>,
    pub files: Vec<(B, B)>,
    pub cmd_char: u8,
    pub depth: u32,
}
struct Proto {
    targets: Vec<B>,
    deps: Vec<B>,
    cmds: Vec<B>,
}
struct Define {
    name: B,
    nest: u32,
    discard: bool,
}
struct State {
    /// (taken, else seen)
    conds: Vec<(bool, bool)>,
    rule: Option<Proto>,
    define: Option<Define>,
}

pub fn blank(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
fn ws(c: u8) -> bool {
    blank(c) || c == b'\n' || c == b'\r' || c == 0x0b || c == 0x0c
}
fn skip_blank(t: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < t.len() && blank(t[i]) {
        i += 1;
    }
    &t[i..]
}
fn trim(t: &[u8]) -> &[u8] {
    let mut a = 0;
    let mut b = t.len();
    while a < b && ws(t[a]) {
        a += 1;
    }
    while b > a && ws(t[b - 1]) {
        b -= 1;
    }
    &t[a..b]
}
pub fn eqb(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn starts(t: &[u8], p: &[u8]) -> bool {
    t.len() >= p.len() && eqb(&t[..p.len()], p)
}
fn ends(t: &[u8], p: &[u8]) -> bool {
    t.len() >= p.len() && eqb(&t[t.len() - p.len()..], p)
}
fn keyword<'a>(t: &'a [u8], k: &[u8]) -> Option<&'a [u8]> {
    if starts(t, k) && (t.len() == k.len() || ws(t[k.len()])) {
        Some(skip_blank(&t[k.len()..]))
    } else {
        None
    }
}
fn backslashes(t: &[u8]) -> usize {
    let mut n = 0;
    while n < t.len() && t[t.len() - 1 - n] == b'\\' {
        n += 1;
    }
    n
}
/// Length of the reference that starts at t[0] == '$', and its body
fn reference(t: &[u8]) -> R<(usize, Option<&[u8]>)> {
    let (o, c) = match t.get(1) {
        Some(b'(') => (b'(', b')'),
        Some(b'{') => (b'{', b'}'),
        Some(_) => return Ok((2, None)),
        None => return Ok((1, None)),
    };
    let mut d = 1;
    let mut i = 2;
    while i < t.len() {
        if t[i] == o {
            d += 1
        } else if t[i] == c {
            d -= 1;
            if d == 0 {
                return Ok((i + 1, Some(&t[2..i])));
            }
        }
        i += 1;
    }
    Err(Stop::Err)
}
fn call<'a>(body: &'a [u8], f: &[u8]) -> Option<&'a [u8]> {
    if starts(body, f) && body.len() > f.len() && blank(body[f.len()]) {
        Some(skip_blank(&body[f.len()..]))
    } else {
        None
    }
}
/// Is this text well formed?
pub fn syntax(t: &[u8]) -> R<()> {
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'$' {
            let (n, body) = reference(&t[i..])?;
            if let Some(b) = body {
                if let Some(a) = call(b, b"eval") {
                    syntax(a)?
                } else if call(b, b"strip").is_some() || call(b, b"word").is_some() || call(b, b"words").is_some() {
                    return Err(Stop::Unsup);
                } else {
                    syntax(b)?
                }
            }
            i += n
        } else {
            i += 1
        }
    }
    Ok(())
}
/// Text before the first unquoted stop character with the quoting removed, and
/// the index of that character
fn until_unquoted(t: &[u8], stop: &dyn Fn(u8) -> bool) -> (B, Option<usize>) {
    let mut out = B::new();
    let mut i = 0;
    while i < t.len() {
        if stop(t[i]) {
            let n = backslashes(&t[..i]);
            out.truncate(out.len() - n);
            for _ in 0..n / 2 {
                out.push(b'\\')
            }
            if n % 2 == 0 {
                return (out, Some(i));
            }
        }
        out.push(t[i]);
        i += 1;
    }
    (out, None)
}
pub fn file_seq(t: &[u8], colon: bool) -> R<Vec<B>> {
    if backslashes(t) > 0 {
        return Err(Stop::Unsup);
    }
    let mut r = vec![];
    let mut t = t;
    loop {
        let (pre, at) = until_unquoted(t, &|c| ws(c) || (colon && c == b':'));
        if pre.len() > 0 {
            r.push(pre)
        }
        match at {
            Some(i) => t = &t[i + 1..],
            None => return Ok(r),
        }
    }
}
fn add(sens: &mut Vec<B>, n: &[u8]) {
    for s in sens.iter() {
        if eqb(s, n) {
            return;
        }
    }
    sens.push(n.to_vec())
}
pub fn subst(value: &[u8], key: &[u8], rep: &[u8]) -> B {
    let (kpre, kat) = until_unquoted(key, &|c| c == b'%');
    let (pre, post): (B, B) = match kat {
        Some(i) => (kpre, key[i + 1..].to_vec()),
        None => (B::new(), kpre),
    };
    let (rpre, rpost): (B, B) = match kat {
        None => (B::new(), rep.to_vec()),
        Some(_) => {
            let (p, at) = until_unquoted(rep, &|c| c == b'%');
            match at {
                Some(i) => (p, rep[i + 1..].to_vec()),
                None => return subst_words(value, &pre, &post, &p, None),
            }
        }
    };
    subst_words(value, &pre, &post, &rpre, Some(&rpost))
}
fn subst_words(value: &[u8], pre: &[u8], post: &[u8], rpre: &[u8], rpost: Option<&[u8]>) -> B {
    let mut out = B::new();
    let mut t = skip_blank(value);
    let mut first = true;
    while t.len() > 0 {
        let mut n = 0;
        while n < t.len() && !blank(t[n]) {
            n += 1
        }
        let w = &t[..n];
        t = skip_blank(&t[n..]);
        if !first {
            out.push(b' ')
        }
        first = false;
        if w.len() >= pre.len() + post.len() && starts(w, pre) && ends(w, post) {
            out.extend_from_slice(rpre);
            // without a '%' the replacement is the whole new word
            match rpost {
                Some(r) => {
                    out.extend_from_slice(&w[pre.len()..w.len() - post.len()]);
                    out.extend_from_slice(r);
                }
                None => {}
            }
        } else {
            out.extend_from_slice(w)
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Rec,
    Simple,
    Cond,
    Bang,
    App,
}
/// name length, operator, rest
fn assignment(t: &[u8]) -> Option<(usize, Op, &[u8])> {
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if c == b'$' {
            match t.get(i + 1) {
                Some(b'(') | Some(b'{') | Some(b'$') => match reference(&t[i..]) {
                    Ok((n, _)) => {
                        i += n;
                        continue;
                    }
                    Err(_) => return None,
                },
                _ => {}
            }
        }
        if ws(c) || c == b':' || c == b'=' || c == b'!' || c == b'?' || c == b'+' {
            break;
        }
        i += 1
    }
    let r = skip_blank(&t[i..]);
    for (s, o) in [
        (&b"="[..], Op::Rec),
        (b"::=", Op::Simple),
        (b":=", Op::Simple),
        (b"?=", Op::Cond),
        (b"!=", Op::Bang),
        (b"+=", Op::App),
    ] {
        if starts(r, s) {
            return Some((i, o, skip_blank(&r[s.len()..])));
        }
    }
    None
}

impl Db {
    pub fn new() -> Db {
        Db { vars: vec![], rules: vec![], files: vec![], cmd_char: b'\t', depth: 0 }
    }
    pub fn find(&self, n: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < self.vars.len() {
            if eqb(&self.vars[i].name, n) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    fn set(&mut self, v: Var) {
        match self.find(&v.name) {
            Some(i) => self.vars[i] = v,
            None => self.vars.push(v),
        }
    }
    pub fn expand(&mut self, t: &[u8]) -> R<B> {
        let mut s = vec![];
        self.expand_s(t, &mut s)
    }
    pub fn expand_var(&mut self, n: &[u8], sens: &mut Vec<B>) -> R<B> {
        add(sens, n);
        let val = match self.find(n) {
            None => return Ok(B::new()),
            Some(i) => self.vars[i].val.clone(),
        };
        if self.depth > 12 {
            return Err(Stop::Unsup);
        }
        self.depth += 1;
        let mut out = B::new();
        for p in val.iter() {
            match p {
                Piece::Lit(t, s) => {
                    for n in s.iter() {
                        add(sens, n)
                    }
                    out.extend_from_slice(t)
                }
                Piece::Rec(t) => {
                    let r = self.expand_s(t, sens)?;
                    out.extend_from_slice(&r)
                }
            }
        }
        self.depth -= 1;
        Ok(out)
    }
    pub fn expand_s(&mut self, t: &[u8], sens: &mut Vec<B>) -> R<B> {
        let mut out = B::new();
        let mut i = 0;
        while i < t.len() {
            if t[i] != b'$' {
                out.push(t[i]);
                i += 1;
                continue;
            }
            let (n, body) = reference(&t[i..])?;
            match body {
                None if n == 1 => out.push(b'$'),
                None => {
                    let c = t[i + 1];
                    if c == b'$' {
                        out.push(b'$')
                    } else {
                        if c >= 128 {
                            return Err(Stop::Unsup);
                        }
                        let v = self.expand_var(&[c], sens)?;
                        out.extend_from_slice(&v)
                    }
                }
                Some(b) => {
                    if let Some(a) = call(b, b"eval") {
                        let text = self.expand_s(a, sens)?;
                        if self.depth > 12 {
                            return Err(Stop::Unsup);
                        }
                        self.depth += 1;
                        self.process(&text).map_err(|_| Stop::Unsup)?;
                        self.depth -= 1;
                    } else {
                        let name = self.expand_s(b, sens)?;
                        let v = self.expand_ref(&name, sens)?;
                        out.extend_from_slice(&v)
                    }
                }
            }
            i += n
        }
        Ok(out)
    }
    fn expand_ref(&mut self, name: &[u8], sens: &mut Vec<B>) -> R<B> {
        let mut colon = None;
        let mut i = 0;
        while i < name.len() {
            if name[i] == b':' {
                colon = Some(i)
            }
            i += 1
        }
        if let Some(c) = colon {
            let mut eq = None;
            let mut i = c + 1;
            while i < name.len() {
                if name[i] == b'=' {
                    eq = Some(i)
                }
                i += 1
            }
            if let Some(e) = eq {
                let v = self.expand_var(&name[..c], sens)?;
                return Ok(subst(&v, &name[c + 1..e], &name[e + 1..]));
            }
        }
        self.expand_var(name, sens)
    }

    fn close(&mut self, st: &mut State) -> R<()> {
        let p = match st.rule.take() {
            Some(p) => p,
            None => return Ok(()),
        };
        let mut k = 0;
        while k < p.targets.len() {
            let mut j = 0;
            while j < k {
                if eqb(&p.targets[j], &p.targets[k]) {
                    return Err(Stop::Unsup);
                }
                j += 1
            }
            let mut at = None;
            let mut j = 0;
            while j < self.rules.len() {
                if eqb(&self.rules[j].target, &p.targets[k]) {
                    at = Some(j);
                    break;
                }
                j += 1
            }
            match at {
                None => self.rules.push(Rule { target: p.targets[k].clone(), deps: p.deps.clone(), cmds: p.cmds.clone() }),
                Some(j) => {
                    if p.cmds.len() == 0 {
                        for d in p.deps.iter() {
                            self.rules[j].deps.push(d.clone())
                        }
                    } else {
                        self.rules[j].deps = p.deps.clone();
                        self.rules[j].cmds = p.cmds.clone();
                    }
                }
            }
            k += 1
        }
        Ok(())
    }

    /// Read a piece of makefile text
    pub fn process(&mut self, text: &[u8]) -> R<()> {
        // carriage returns that do not end a line are not covered
        let mut k = 0;
        while k < text.len() {
            if text[k] == b'\r' && (k + 1 == text.len() || text[k + 1] != b'\n') {
                return Err(Stop::Unsup);
            }
            k += 1
        }
        let mut st = State { conds: vec![], rule: None, define: None };
        let mut i = text;
        if starts(i, &[0xef, 0xbb, 0xbf]) {
            i = &i[3..]
        }
        while i.len() > 0 {
            i = self.line(i, &mut st)?
        }
        self.close(&mut st)
    }

    fn line<'a>(&mut self, i: &'a [u8], st: &mut State) -> R<&'a [u8]> {
        let ignoring = st.conds.iter().any(|c| !c.0);
        if st.define.is_some() {
            return self.define_line(i, st);
        }
        // a line that only has a comment
        let s = skip_blank(i);
        if s.len() > 0 && s[0] == b'#' {
            return Ok(comment(s));
        }
        if st.rule.is_some() && i[0] == self.cmd_char {
            let (cmd, rest) = recipe(i, self.cmd_char)?;
            syntax(&cmd).map_err(|e| if ignoring { Stop::Unsup } else { e })?;
            if !ignoring {
                st.rule.as_mut().unwrap().cmds.push(cmd)
            }
            return Ok(rest);
        }
        let (line, rest) = logical(i)?;
        let l = &line[..];
        if l.len() == 0 {
            return Ok(rest);
        }
        if self.conditional(l, st, ignoring)? {
            return Ok(rest);
        }
        if ignoring {
            if keyword(l, b"define").is_some() {
                return Err(Stop::Unsup);
            }
            return Ok(rest);
        }
        if self.variable(l, st)? {
            return Ok(rest);
        }
        for (k, soft) in [(&b"include"[..], false), (b"-include", true), (b"sinclude", true)] {
            if let Some(r) = keyword(l, k) {
                syntax(r)?;
                self.close(st)?;
                let t = self.expand(r)?;
                for f in file_seq(&t, false)? {
                    let mut c = None;
                    for x in self.files.iter() {
                        if eqb(&x.0, &f) {
                            c = Some(x.1.clone())
                        }
                    }
                    match c {
                        Some(c) => {
                            if self.depth > 12 {
                                return Err(Stop::Unsup);
                            }
                            self.depth += 1;
                            self.process(&c)?;
                            self.depth -= 1
                        }
                        None if soft => {}
                        None => return Err(Stop::Err),
                    }
                }
                return Ok(rest);
            }
        }
        for k in [&b"export"[..], b"unexport", b"vpath", b"load", b"-load"] {
            if keyword(l, k).is_some() {
                return Err(Stop::Unsup);
            }
        }
        if i[0] == self.cmd_char {
            return Err(Stop::Err);
        }
        self.rule_line(l, st)?;
        Ok(rest)
    }

    fn define_line<'a>(&mut self, i: &'a [u8], st: &mut State) -> R<&'a [u8]> {
        let mut n = 0;
        while n < i.len() && i[n] != b'\n' {
            n += 1
        }
        if n < i.len() {
            n += 1
        }
        let l = &i[..n];
        let rest = &i[n..];
        let s = skip_blank(l);
        let d = st.define.as_mut().unwrap();
        syntax(l)?;
        if keyword(s, b"define").is_some() {
            d.nest += 1
        } else if let Some(r) = keyword(s, b"endef") {
            let r = trim(r);
            if r.len() > 0 && r[0] != b'#' {
                return Err(Stop::Err);
            }
            d.nest -= 1;
            if d.nest == 0 {
                let d = st.define.take().unwrap();
                if let Some(v) = self.find(&d.name) {
                    if self.vars[v].simple {
                        let mut sens = vec![];
                        let mut t = B::new();
                        for p in self.vars[v].val.clone() {
                            match p {
                                Piece::Lit(x, s) => {
                                    t.extend_from_slice(&x);
                                    for n in s.iter() {
                                        add(&mut sens, n)
                                    }
                                }
                                Piece::Rec(x) => {
                                    let x = self.expand_s(&x, &mut sens)?;
                                    t.extend_from_slice(&x)
                                }
                            }
                        }
                        self.set(Var { name: d.name, simple: true, val: vec![Piece::Lit(t, sens)] })
                    }
                }
                return Ok(rest);
            }
        }
        if !d.discard {
            let v = self.find(&st.define.as_ref().unwrap().name).ok_or(Stop::Unsup)?;
            self.vars[v].val.push(Piece::Rec(l.to_vec()))
        }
        Ok(rest)
    }

    fn conditional(&mut self, l: &[u8], st: &mut State, ignoring: bool) -> R<bool> {
        let kw = |k: &[u8]| -> Option<B> {
            if !starts(l, k) {
                return None;
            }
            match l.get(k.len()) {
                None => Some(B::new()),
                Some(&c) if ws(c) || c == b'(' || c == b'"' || c == b'\'' => Some(skip_blank(&l[k.len()..]).to_vec()),
                _ => None,
            }
        };
        if kw(b"ifdef").is_some() || kw(b"ifndef").is_some() {
            return Err(Stop::Unsup);
        }
        if let Some(r) = kw(b"else") {
            if r.len() > 0 {
                return Err(if starts(&r, b"if") { Stop::Unsup } else { Stop::Err });
            }
            let n = st.conds.len();
            if n == 0 {
                return Err(Stop::Err);
            }
            let c = &mut st.conds[n - 1];
            if c.1 {
                return Err(Stop::Err);
            }
            *c = (!c.0, true);
            return Ok(true);
        }
        if let Some(r) = kw(b"endif") {
            if r.len() > 0 || st.conds.len() == 0 {
                return Err(Stop::Err);
            }
            st.conds.pop();
            return Ok(true);
        }
        for (k, want) in [(&b"ifeq"[..], true), (b"ifneq", false)] {
            if let Some(r) = kw(k) {
                let (a, b) = match ifeq_args(&r)? {
                    Some(x) => x,
                    None => {
                        // malformed: an error, unless it reads as something else
                        let odd = l.iter().any(|c| *c == b':' || *c == b'=' || *c == b';') || l.windows(4).any(|w| eqb(w, b"eval"));
                        return Err(if ignoring || odd { Stop::Unsup } else { Stop::Err });
                    }
                };
                syntax(&a)?;
                syntax(&b)?;
                if ignoring {
                    st.conds.push((false, false));
                    return Ok(true);
                }
                let a = self.expand(&a)?;
                let b = self.expand(&b)?;
                let e = eqb(trim(&a), trim(&b));
                st.conds.push((e == want, false));
                return Ok(true);
            }
        }
        Ok(false)
    }

    fn variable(&mut self, l: &[u8], st: &mut State) -> R<bool> {
        if let Some((n, op, value)) = assignment(l) {
            if op == Op::Bang {
                return Err(Stop::Unsup);
            }
            syntax(&l[..n])?;
            syntax(value)?;
            let name = self.expand(&l[..n])?;
            let name = trim(&name).to_vec();
            if name.len() == 0 {
                return Err(Stop::Unsup);
            }
            let mut old = self.find(&name);
            let was_simple = match old {
                Some(i) => self.vars[i].simple,
                None => false,
            };
            let simple = op == Op::Simple || (op == Op::App && was_simple);
            let piece = if simple {
                let mut s = vec![];
                let t = self.expand_s(value, &mut s)?;
                Piece::Lit(t, s)
            } else {
                Piece::Rec(value.to_vec())
            };
            self.close(st)?;
            old = self.find(&name);
            match (op, old) {
                (Op::Cond, Some(_)) => {}
                (Op::App, Some(i)) => {
                    self.vars[i].val.push(Piece::Lit(b" ".to_vec(), vec![]));
                    self.vars[i].val.push(piece)
                }
                _ => self.set(Var { name, simple, val: vec![piece] }),
            }
            return Ok(true);
        }
        if let Some(r) = keyword(l, b"define") {
            let (name, op) = match assignment(r) {
                Some((n, op, rest)) if skip_blank(rest).len() == 0 => (r[..n].to_vec(), op),
                _ => (r.to_vec(), Op::Rec),
            };
            if op == Op::Bang {
                return Err(Stop::Unsup);
            }
            syntax(&name)?;
            let name = self.expand(&name)?;
            let name = trim(&name).to_vec();
            if name.len() == 0 {
                return Err(Stop::Unsup);
            }
            self.close(st)?;
            let old = self.find(&name);
            let discard = op == Op::Cond && old.is_some();
            match (op, old) {
                (Op::Cond, Some(_)) => {}
                (Op::App, Some(i)) => self.vars[i].val.push(Piece::Lit(b" ".to_vec(), vec![])),
                _ => self.set(Var { name: name.clone(), simple: op == Op::Simple, val: vec![] }),
            }
            st.define = Some(Define { name, nest: 1, discard });
            return Ok(true);
        }
        for k in [&b"export"[..], b"override", b"private", b"undefine"] {
            if keyword(l, k).is_some() {
                return Err(Stop::Unsup);
            }
        }
        Ok(false)
    }

    fn rule_line(&mut self, l: &[u8], st: &mut State) -> R<()> {
        let (pre, semi) = until_unquoted(l, &|c| c == b';');
        let cmd = semi.map(|i| &l[i + 1..]);
        // '=' and ';' outside of, resp. inside of references are not covered
        let mut i = 0;
        while i < pre.len() {
            if pre[i] == b'$' {
                let (n, _) = match reference(&pre[i..]) {
                    Ok(x) => x,
                    Err(_) if cmd.is_some() => return Err(Stop::Unsup),
                    Err(e) => return Err(e),
                };
                i += n;
                continue;
            }
            if pre[i] == b'=' {
                return Err(Stop::Unsup);
            }
            i += 1;
        }
        let mut t = skip_blank(&pre);
        if t.len() == 0 {
            if cmd.is_some() {
                return Err(Stop::Err);
            }
            return Ok(());
        }
        if t[0] == b':' {
            // no targets
            self.close(st)?;
            return Ok(());
        }
        let mut targets = B::new();
        let mut after: Option<B> = None;
        while t.len() > 0 {
            let mut i = 0;
            while i < t.len() && !blank(t[i]) {
                if t[i] == b':' {
                    i += 1;
                    break;
                }
                if t[i] == b'$' {
                    i += reference(&t[i..])?.0
                } else if t[i] == b'\\' && i + 1 < t.len() && (t[i + 1] == b':' || t[i + 1] == b'\\' || t[i + 1] == b';') {
                    i += 2
                } else {
                    i += 1
                }
            }
            let word = &t[..i];
            let gap = i < t.len() && blank(t[i]);
            t = skip_blank(&t[i..]);
            syntax(word)?;
            let ex = self.expand(word)?;
            if ex.iter().any(|c| *c == b';') {
                return Err(Stop::Unsup);
            }
            let (p, at) = until_unquoted(&ex, &|c| c == b':');
            if targets.len() > 0 {
                targets.push(b' ')
            }
            targets.extend_from_slice(&p);
            if let Some(k) = at {
                let q = &ex[k + 1..];
                let next = if q.len() > 0 { q[0] } else if t.len() > 0 { t[0] } else { b' ' };
                if next == b'/' || next == b'\\' {
                    return Err(Stop::Unsup); // drive letters
                }
                if q.iter().any(|c| *c == b'$') {
                    return Err(Stop::Unsup);
                }
                let mut a = q.to_vec();
                if gap {
                    a.push(b' ')
                }
                a.extend_from_slice(t);
                after = Some(a);
                break;
            }
        }
        let after = match after {
            None => {
                if trim(&targets).len() == 0 {
                    self.close(st)?;
                    return Ok(());
                }
                return Err(Stop::Err);
            }
            Some(a) => a,
        };
        let targets = file_seq(&targets, false)?;
        let mut a = &after[..];
        if a.len() > 0 && a[0] == b':' {
            a = &a[1..]
        }
        // target specific variables are not covered
        let mut whole = a.to_vec();
        if let Some(c) = cmd {
            whole.push(b';');
            whole.extend_from_slice(c)
        }
        let w = skip_blank(&whole);
        if assignment(w).is_some() {
            return Err(Stop::Unsup);
        }
        for k in [&b"define"[..], b"export", b"override", b"private", b"undefine"] {
            if keyword(w, k).is_some() {
                return Err(Stop::Unsup);
            }
        }
        syntax(a)?;
        let d = self.expand(a)?;
        if d.iter().any(|c| *c == b';') || until_unquoted(&d, &|c| c == b':').1.is_some() {
            return Err(Stop::Unsup);
        }
        let deps = file_seq(&d, true)?;
        let mut cmds = vec![];
        if let Some(c) = cmd {
            syntax(c)?;
            cmds.push(c.to_vec())
        }
        self.close(st)?;
        st.rule = Some(Proto { targets, deps, cmds });
        Ok(())
    }
}

fn ifeq_args(r: &[u8]) -> R<Option<(B, B)>> {
    if r.len() == 0 {
        return Ok(None);
    }
    if r[0] == b'(' {
        let mut d = 0i32;
        let mut comma = None;
        let mut i = 1;
        while i < r.len() {
            let c = r[i];
            if c == b'(' {
                d += 1
            } else if c == b')' {
                d -= 1;
                if d < 0 {
                    return match comma {
                        Some(k) => {
                            let k: usize = k;
                            Ok(Some((r[1..k].to_vec(), r[k + 1..i].to_vec())))
                        }
                        None => Err(Stop::Unsup),
                    };
                }
            } else if c == b',' && d == 0 && comma.is_none() {
                comma = Some(i);
            }
            i += 1
        }
        return Ok(None);
    }
    let q = |t: &[u8]| -> Option<(B, B)> {
        if t.len() == 0 || (t[0] != b'"' && t[0] != b'\'') {
            return None;
        }
        let mut i = 1;
        while i < t.len() {
            if t[i] == t[0] {
                return Some((t[1..i].to_vec(), t[i + 1..].to_vec()));
            }
            i += 1
        }
        None
    };
    match q(r) {
        None => Ok(None),
        Some((a, rest)) => match q(skip_blank(&rest)) {
            None => Ok(None),
            Some((b, _)) => Ok(Some((a, b))),
        },
    }
}

/// Up to the end of a physical line: text (without a carriage return), rest,
/// and whether a '#' ended it
fn physical(t: &[u8]) -> (&[u8], &[u8], bool) {
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'#' {
            return (&t[..i], &t[i..], true);
        }
        if t[i] == b'\n' {
            let e = if i > 0 && t[i - 1] == b'\r' { i - 1 } else { i };
            return (&t[..e], &t[i + 1..], false);
        }
        i += 1
    }
    (t, &t[t.len()..], false)
}
/// Skip a comment and the lines it continues on
fn comment(t: &[u8]) -> &[u8] {
    let mut t = t;
    loop {
        let mut i = 0;
        while i < t.len() && t[i] != b'\n' {
            i += 1
        }
        let e = if i > 0 && i < t.len() && t[i - 1] == b'\r' { i - 1 } else { i };
        let l = &t[..e];
        let more = backslashes(l) % 2 == 1 && i < t.len();
        t = if i < t.len() { &t[i + 1..] } else { &t[i..] };
        if !more {
            return t;
        }
    }
}
/// A logical line: continuations joined by one space, comment dropped
fn logical(t: &[u8]) -> R<(B, &[u8])> {
    let mut out = B::new();
    let mut t = t;
    loop {
        let (l, rest, hash) = physical(skip_blank(t));
        let n = backslashes(l);
        if n % 2 == 1 && hash {
            return Err(Stop::Unsup); // \#
        }
        if n % 2 == 0 {
            out.extend_from_slice(l);
            return Ok((out, if hash { comment(rest) } else { rest }));
        }
        let mut e = l.len() - (n - n / 2);
        if n == 1 {
            while e > 0 && blank(l[e - 1]) {
                e -= 1
            }
        }
        out.extend_from_slice(&l[..e]);
        if e > 0 {
            out.push(b' ')
        }
        t = rest;
    }
}
/// A recipe line with its continuations
fn recipe(t: &[u8], cc: u8) -> R<(B, &[u8])> {
    let (l, mut rest, mut hash) = physical(&t[1..]);
    let mut out = l.to_vec();
    while !hash && backslashes(&out) % 2 == 1 {
        out.push(b'\n');
        if rest.len() > 0 && rest[0] == cc {
            rest = &rest[1..]
        }
        let (l, r, h) = physical(rest);
        out.extend_from_slice(l);
        rest = r;
        hash = h;
    }
    if hash && backslashes(&out) % 2 == 1 {
        return Err(Stop::Unsup);
    }
    Ok((out, if hash { comment(rest) } else { rest }))
}
