//! `peg::parser!` for the grammar features that redscript-compiler uses.
//!
//! Every grammar expression is translated to a Rust expression of type `RuleResult<T>` in the
//! scope of `__input`, `__err` and `__pos`.
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree};
use quote::{format_ident, quote};

struct Rule {
    public: bool,
    name: String,
    generics: TokenStream,
    generic_names: TokenStream,
    params: Vec<(Ident, TokenStream, Option<TokenStream>)>, // name, type, Some(T) for rule<T>
    ret: Option<TokenStream>,
    body: Ex,
}

enum Ex {
    Choice(Vec<Ex>),
    Seq(Vec<(Option<Ident>, Ex)>, Option<(bool, TokenStream)>),
    Literal(Literal),
    Pattern(TokenStream),
    Call(String, Vec<TokenStreamArg>),
    Method(Ident, TokenStream),
    Opt(Box<Ex>),
    Repeat(Box<Ex>, usize, Option<usize>, Option<Box<Ex>>),
    Slice(Box<Ex>),
    And(Box<Ex>),
    Not(Box<Ex>),
    Position,
    Quiet(Box<Ex>),
    Expected(TokenStream),
    Precedence(Vec<Vec<Op>>),
    Marker(bool),
}

enum TokenStreamArg {
    Rust(TokenStream),
    Rule(Ex),
}

struct Op {
    elements: Vec<(Option<Ident>, Ex)>,
    action: TokenStream,
}

struct P {
    t: Vec<TokenTree>,
    i: usize,
}

impl P {
    fn new(ts: TokenStream) -> P {
        P {
            t: ts.into_iter().collect(),
            i: 0,
        }
    }
    fn peek(&self) -> Option<&TokenTree> {
        self.t.get(self.i)
    }
    fn at(&self, k: usize) -> Option<&TokenTree> {
        self.t.get(self.i + k)
    }
    fn is_punct_at(&self, k: usize, c: char) -> bool {
        matches!(self.at(k), Some(TokenTree::Punct(p)) if p.as_char() == c)
    }
    fn is_punct(&self, c: char) -> bool {
        self.is_punct_at(0, c)
    }
    fn is_ident_at(&self, k: usize, s: &str) -> bool {
        matches!(self.at(k), Some(TokenTree::Ident(i)) if i == s)
    }
    fn next(&mut self) -> TokenTree {
        let t = self.t.get(self.i).cloned().expect("peg shim: unexpected end of grammar");
        self.i += 1;
        t
    }
    fn punct(&mut self, c: char) {
        assert!(self.is_punct(c), "peg shim: expected `{c}`, got {:?}", self.peek());
        self.i += 1;
    }
    fn ident(&mut self) -> Ident {
        match self.next() {
            TokenTree::Ident(i) => i,
            t => panic!("peg shim: expected identifier, got {t}"),
        }
    }
    fn group(&mut self, d: Delimiter) -> Group {
        match self.next() {
            TokenTree::Group(g) if g.delimiter() == d => g,
            t => panic!("peg shim: expected {d:?} group, got {t}"),
        }
    }
    fn is_group(&self, d: Delimiter) -> bool {
        matches!(self.peek(), Some(TokenTree::Group(g)) if g.delimiter() == d)
    }
    fn done(&self) -> bool {
        self.i >= self.t.len()
    }
    /// tokens until a top-level punct in `stops` (angle brackets are balanced)
    fn until(&mut self, stops: &[char]) -> TokenStream {
        let mut depth = 0;
        let mut out = vec![];
        while let Some(t) = self.peek() {
            if let TokenTree::Punct(p) = t {
                let c = p.as_char();
                if depth == 0 && stops.contains(&c) {
                    break;
                }
                if c == '<' {
                    depth += 1;
                }
                if c == '>' {
                    let arrow = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '-');
                    if !arrow {
                        depth -= 1;
                    }
                }
            }
            out.push(self.next());
        }
        out.into_iter().collect()
    }

    fn choice(&mut self) -> Ex {
        let mut alts = vec![self.seq()];
        while self.is_punct('/') {
            self.punct('/');
            alts.push(self.seq());
        }
        if alts.len() == 1 {
            alts.pop().unwrap()
        } else {
            Ex::Choice(alts)
        }
    }

    fn seq_end(&self) -> bool {
        self.done()
            || self.is_punct('/')
            || self.is_punct('>')
            || self.is_group(Delimiter::Brace)
            || self.is_ident_at(0, "rule")
            || (self.is_ident_at(0, "pub") && self.is_ident_at(1, "rule"))
    }

    fn elements(&mut self) -> Vec<(Option<Ident>, Ex)> {
        let mut els = vec![];
        while !self.seq_end() {
            els.push(self.labeled());
        }
        els
    }

    fn seq(&mut self) -> Ex {
        let mut els = self.elements();
        if self.is_group(Delimiter::Brace) {
            let g = self.group(Delimiter::Brace);
            let (fallible, code) = action(g.stream());
            return Ex::Seq(els, Some((fallible, code)));
        }
        if els.len() == 1 && els[0].0.is_none() {
            return els.pop().unwrap().1;
        }
        Ex::Seq(els, None)
    }

    fn labeled(&mut self) -> (Option<Ident>, Ex) {
        if matches!(self.peek(), Some(TokenTree::Ident(_))) && self.is_punct_at(1, ':') && !self.is_punct_at(2, ':') {
            let id = self.ident();
            self.punct(':');
            return (Some(id), self.suffixed());
        }
        (None, self.suffixed())
    }

    fn suffixed(&mut self) -> Ex {
        let e = self.prefixed();
        if self.is_punct('?') {
            self.punct('?');
            return Ex::Opt(Box::new(e));
        }
        for (c, min) in [('*', 0), ('+', 1)] {
            if self.is_punct(c) {
                self.punct(c);
                let sep = if self.is_punct(c) {
                    self.punct(c);
                    true
                } else {
                    false
                };
                let (mut lo, mut hi) = (min, None);
                if c == '*' && self.is_punct('<') {
                    self.punct('<');
                    let toks: Vec<_> = self.until(&['>']).into_iter().map(|t| t.to_string()).collect();
                    self.punct('>');
                    let text = toks.concat();
                    match text.split_once(',') {
                        Some((a, b)) => {
                            lo = a.trim().parse().unwrap_or(0);
                            hi = b.trim().parse().ok();
                        }
                        None => {
                            lo = text.trim().parse().unwrap();
                            hi = Some(lo);
                        }
                    }
                }
                let sep = sep.then(|| Box::new(self.primary()));
                return Ex::Repeat(Box::new(e), lo, hi, sep);
            }
        }
        e
    }

    fn prefixed(&mut self) -> Ex {
        if self.is_punct('$') {
            self.punct('$');
            return Ex::Slice(Box::new(self.primary()));
        }
        if self.is_punct('&') {
            self.punct('&');
            return Ex::And(Box::new(self.primary()));
        }
        if self.is_punct('!') {
            self.punct('!');
            return Ex::Not(Box::new(self.primary()));
        }
        self.primary()
    }

    fn primary(&mut self) -> Ex {
        match self.next() {
            TokenTree::Literal(l) => Ex::Literal(l),
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Bracket => Ex::Pattern(g.stream()),
                Delimiter::Parenthesis => {
                    let mut p = P::new(g.stream());
                    if p.t.len() == 1 && p.is_punct('@') {
                        return Ex::Marker(true);
                    }
                    let e = p.choice();
                    assert!(p.done(), "peg shim: trailing tokens in a group");
                    e
                }
                _ => panic!("peg shim: unexpected group {g}"),
            },
            TokenTree::Punct(p) if p.as_char() == '@' => Ex::Marker(false),
            TokenTree::Punct(p) if p.as_char() == '#' => {
                self.punct('#');
                let id = self.ident();
                let args = self.group(Delimiter::Parenthesis).stream();
                Ex::Method(id, args)
            }
            TokenTree::Ident(id) => {
                let name = id.to_string();
                if self.is_punct('!') && matches!(name.as_str(), "position" | "quiet" | "expected" | "precedence") {
                    self.punct('!');
                    let TokenTree::Group(g) = self.next() else {
                        panic!("peg shim: macro without arguments")
                    };
                    return match name.as_str() {
                        "position" => Ex::Position,
                        "quiet" => Ex::Quiet(Box::new(P::new(g.stream()).choice())),
                        "expected" => Ex::Expected(g.stream()),
                        _ => precedence(g.stream()),
                    };
                }
                if name == "_" || name == "__" || name == "___" {
                    return Ex::Call(name, vec![]);
                }
                if self.is_punct('<') {
                    // explicit type arguments are not used by the grammar
                    panic!("peg shim: generic call");
                }
                let g = self.group(Delimiter::Parenthesis);
                let mut p = P::new(g.stream());
                let mut args = vec![];
                while !p.done() {
                    if p.is_punct('<') {
                        p.punct('<');
                        let e = p.choice();
                        p.punct('>');
                        args.push(TokenStreamArg::Rule(e));
                    } else {
                        args.push(TokenStreamArg::Rust(p.until(&[','])));
                    }
                    if p.is_punct(',') {
                        p.punct(',');
                    }
                }
                Ex::Call(name, args)
            }
            t => panic!("peg shim: unexpected token {t}"),
        }
    }
}

fn action(ts: TokenStream) -> (bool, TokenStream) {
    let mut p = P::new(ts);
    if p.is_punct('?') {
        p.punct('?');
        let rest: TokenStream = p.t[p.i..].iter().cloned().collect();
        (true, rest)
    } else {
        (false, p.t.into_iter().collect())
    }
}

fn precedence(ts: TokenStream) -> Ex {
    let mut p = P::new(ts);
    let mut levels = vec![vec![]];
    while !p.done() {
        if p.is_punct('-') && p.is_punct_at(1, '-') {
            p.punct('-');
            p.punct('-');
            levels.push(vec![]);
            continue;
        }
        let elements = p.elements();
        let (fallible, action) = action(p.group(Delimiter::Brace).stream());
        assert!(!fallible, "peg shim: fallible action in precedence");
        levels.last_mut().unwrap().push(Op { elements, action });
    }
    Ex::Precedence(levels)
}

struct Cx {
    /// names of the rules in scope that are closures (rule parameters)
    rule_params: Vec<String>,
    gargs: Vec<Ident>,
}

impl Cx {
    fn call(&self, name: &str, args: &[TokenStreamArg]) -> TokenStream {
        if self.rule_params.iter().any(|r| r == name) {
            let f = format_ident!("{}", name);
            return quote!(#f(__input, __err, __pos));
        }
        let f = format_ident!("__parse_{}", name);
        let gargs = &self.gargs;
        let args = args.iter().map(|a| match a {
            TokenStreamArg::Rust(t) => t.clone(),
            TokenStreamArg::Rule(Ex::Call(n, a)) if a.is_empty() && self.rule_params.contains(n) => {
                let f = format_ident!("{}", n);
                quote!(#f)
            }
            TokenStreamArg::Rule(e) => {
                let code = self.ex(e);
                quote!(&|__input: &'input str, __err: &mut ::peg::error::ErrorState, __pos: usize| { #code })
            }
        });
        quote!(#f(__input, __err, __pos #(, #gargs)* #(, #args)*))
    }

    /// matches the elements one after another, then evaluates `then` in their scope
    fn labeled(&self, els: &[(Option<Ident>, Ex)], then: TokenStream) -> TokenStream {
        match els.split_first() {
            None => then,
            Some(((name, e), rest)) => {
                let code = if name.is_some() { self.ex(e) } else { self.unit(e) };
                let then = self.labeled(rest, then);
                let pat = match name {
                    Some(n) => quote!(#n),
                    None => quote!(_),
                };
                quote! {
                    match #code {
                        ::peg::RuleResult::Matched(__pos, #pat) => { #then }
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                    }
                }
            }
        }
    }

    /// like `ex`, where the value is not used: the type is `RuleResult<()>`
    fn unit(&self, e: &Ex) -> TokenStream {
        match e {
            Ex::Choice(alts) => self.choice(alts.iter().map(|a| self.unit(a)).collect()),
            Ex::Repeat(i, lo, hi, sep) => {
                let c = self.repeat(self.unit(i), *lo, *hi, sep);
                quote! {
                    match #c {
                        ::peg::RuleResult::Matched(__pos, _) => ::peg::RuleResult::Matched(__pos, ()),
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                    }
                }
            }
            Ex::Quiet(e) => {
                let code = self.unit(e);
                quote! {{
                    __err.suppress_fail += 1;
                    let __r = #code;
                    __err.suppress_fail -= 1;
                    __r
                }}
            }
            Ex::Expected(_) | Ex::Seq(_, None) | Ex::Not(_) => self.ex(e),
            e => {
                let c = self.ex(e);
                quote! {
                    match #c {
                        ::peg::RuleResult::Matched(__pos, _) => ::peg::RuleResult::Matched(__pos, ()),
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                    }
                }
            }
        }
    }

    fn choice(&self, alts: Vec<TokenStream>) -> TokenStream {
        let mut code = None;
        for c in alts.into_iter().rev() {
            code = Some(match code {
                None => c,
                Some(rest) => quote! {
                    match #c {
                        ::peg::RuleResult::Matched(__pos, __v) => ::peg::RuleResult::Matched(__pos, __v),
                        ::peg::RuleResult::Failed => #rest,
                    }
                },
            });
        }
        quote!({ #code })
    }

    fn repeat(&self, code: TokenStream, lo: usize, hi: Option<usize>, sep: &Option<Box<Ex>>) -> TokenStream {
        let sep = sep.as_ref().map(|s| {
            let c = self.unit(s);
            quote! {
                let __pos = if __vec.is_empty() { __pos } else {
                    match #c {
                        ::peg::RuleResult::Matched(__p, _) => __p,
                        ::peg::RuleResult::Failed => break,
                    }
                };
            }
        });
        let hi = hi.map(|h| quote!(if __vec.len() >= #h { break; }));
        let lo = (lo > 0).then(|| {
            quote! { if __vec.len() < #lo { ::peg::RuleResult::Failed } else }
        });
        quote! {{
            let mut __repeat_pos = __pos;
            let mut __vec = vec![];
            loop {
                let __pos = __repeat_pos;
                #hi
                #sep
                match #code {
                    ::peg::RuleResult::Matched(__p, __v) => { __repeat_pos = __p; __vec.push(__v); }
                    ::peg::RuleResult::Failed => break,
                }
            }
            #lo { ::peg::RuleResult::Matched(__repeat_pos, __vec) }
        }}
    }

    fn ex(&self, e: &Ex) -> TokenStream {
        match e {
            Ex::Choice(alts) => self.choice(alts.iter().map(|a| self.ex(a)).collect()),
            Ex::Seq(els, act) => {
                let then = match act {
                    None => quote!(::peg::RuleResult::Matched(__pos, ())),
                    Some((false, code)) => quote!(::peg::RuleResult::Matched(__pos, (|| { #code })())),
                    Some((true, code)) => quote! {
                        match (|| { #code })() {
                            Ok(__v) => ::peg::RuleResult::Matched(__pos, __v),
                            Err(__e) => { __err.mark_failure(__pos, __e); ::peg::RuleResult::Failed }
                        }
                    },
                };
                let code = self.labeled(els, then);
                quote!({ #code })
            }
            Ex::Literal(l) => {
                let shown = l.to_string();
                quote! {
                    match ::peg::ParseLiteral::parse_string_literal(__input, __pos, #l) {
                        ::peg::RuleResult::Matched(__pos, __v) => ::peg::RuleResult::Matched(__pos, __v),
                        ::peg::RuleResult::Failed => { __err.mark_failure(__pos, #shown); ::peg::RuleResult::Failed }
                    }
                }
            }
            Ex::Pattern(p) => {
                let shown = format!("[{p}]");
                quote! {
                    match ::peg::parse_elem(__input, __pos) {
                        ::peg::RuleResult::Matched(__next, __c) => match __c {
                            #p => ::peg::RuleResult::Matched(__next, __c),
                            #[allow(unreachable_patterns)]
                            _ => { __err.mark_failure(__pos, #shown); ::peg::RuleResult::Failed }
                        },
                        ::peg::RuleResult::Failed => { __err.mark_failure(__pos, #shown); ::peg::RuleResult::Failed }
                    }
                }
            }
            Ex::Call(name, args) => self.call(name, args),
            Ex::Method(name, args) => quote!(__input.#name(__pos, #args)),
            Ex::Opt(e) => {
                let code = self.ex(e);
                quote! {
                    match #code {
                        ::peg::RuleResult::Matched(__pos, __v) => ::peg::RuleResult::Matched(__pos, Some(__v)),
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, None),
                    }
                }
            }
            Ex::Repeat(e, lo, hi, sep) => self.repeat(self.ex(e), *lo, *hi, sep),
            Ex::Slice(e) => {
                let code = self.unit(e);
                quote! {{
                    let __start = __pos;
                    match #code {
                        ::peg::RuleResult::Matched(__pos, _) => ::peg::RuleResult::Matched(__pos, &__input[__start..__pos]),
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                    }
                }}
            }
            Ex::And(e) => {
                let code = self.ex(e);
                quote! {{
                    __err.suppress_fail += 1;
                    let __r = #code;
                    __err.suppress_fail -= 1;
                    match __r {
                        ::peg::RuleResult::Matched(_, __v) => ::peg::RuleResult::Matched(__pos, __v),
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                    }
                }}
            }
            Ex::Not(e) => {
                let code = self.unit(e);
                quote! {{
                    __err.suppress_fail += 1;
                    let __r = #code;
                    __err.suppress_fail -= 1;
                    match __r {
                        ::peg::RuleResult::Matched(_, _) => ::peg::RuleResult::Failed,
                        ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, ()),
                    }
                }}
            }
            Ex::Position => quote!(::peg::RuleResult::Matched(__pos, __pos)),
            Ex::Quiet(e) => {
                let code = self.ex(e);
                quote! {{
                    __err.suppress_fail += 1;
                    let __r = #code;
                    __err.suppress_fail -= 1;
                    __r
                }}
            }
            Ex::Expected(t) => quote!({ __err.mark_failure(__pos, #t); ::peg::RuleResult::Failed }),
            Ex::Marker(_) => panic!("peg shim: `@` outside of precedence!"),
            Ex::Precedence(_) => panic!("peg shim: precedence! must be the whole body of a rule"),
        }
    }

    fn precedence(&self, levels: &[Vec<Op>], ret: &TokenStream) -> TokenStream {
        let gparams = &self.gargs;
        let mut pre = vec![];
        let mut post = vec![];
        for (prec, level) in levels.iter().enumerate() {
            let prec = prec as i32;
            let mut codes = vec![];
            for op in level {
                let els = &op.elements;
                let action = &op.action;
                let n = els.len();
                let name = |k: usize| match &els[k].0 {
                    Some(n) => quote!(#n),
                    None => quote!(_),
                };
                let first = match &els[0].1 {
                    Ex::Marker(b) => Some(*b),
                    _ => None,
                };
                let last = match &els[n - 1].1 {
                    Ex::Marker(b) => Some(*b),
                    _ => None,
                };
                match (first, last) {
                    (Some(la), Some(ra)) if n >= 3 => {
                        let np = match (la, ra) {
                            (true, false) => prec + 1,
                            (false, true) => prec,
                            _ => panic!("peg shim: associativity marker"),
                        };
                        let (l, r) = (name(0), name(n - 1));
                        let then = quote! {
                            match __recurse(#np, __input, __err, __pos #(, #gparams)*) {
                                ::peg::RuleResult::Matched(__pos, #r) => {
                                    let #l = __acc.take().unwrap();
                                    __acc = Some((|| { #action })());
                                    ::peg::RuleResult::Matched(__pos, ())
                                }
                                ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                            }
                        };
                        codes.push(self.labeled(&els[1..n - 1], then));
                    }
                    (Some(_), None) => {
                        let l = name(0);
                        let then = quote! {{
                            let #l = __acc.take().unwrap();
                            __acc = Some((|| { #action })());
                            ::peg::RuleResult::Matched(__pos, ())
                        }};
                        codes.push(self.labeled(&els[1..], then));
                    }
                    (None, Some(a)) => {
                        let np = if a { prec } else { prec + 1 };
                        let r = name(n - 1);
                        let then = quote! {
                            match __recurse(#np, __input, __err, __pos #(, #gparams)*) {
                                ::peg::RuleResult::Matched(__pos, #r) => ::peg::RuleResult::Matched(__pos, (|| { #action })()),
                                ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                            }
                        };
                        pre.push(self.labeled(&els[..n - 1], then));
                    }
                    _ => {
                        let then = quote!(::peg::RuleResult::Matched(__pos, (|| { #action })()));
                        pre.push(self.labeled(els, then));
                    }
                }
            }
            if !codes.is_empty() {
                post.push(quote! {
                    if #prec >= __min_prec {
                        #(
                            if let ::peg::RuleResult::Matched(__p, ()) = { #codes } {
                                __repeat_pos = __p;
                                continue;
                            }
                        )*
                    }
                });
            }
        }
        let gdecl = &self.gargs;
        quote! {{
            #[allow(unused, clippy::all)]
            fn __recurse<'input>(__min_prec: i32, __input: &'input str, __err: &mut ::peg::error::ErrorState, __pos: usize #(, #gdecl: __GArg_~)*) -> ::peg::RuleResult<#ret> {
                let __first: ::peg::RuleResult<#ret> = '__first: {
                    #(
                        if let ::peg::RuleResult::Matched(__p, __v) = { #pre } {
                            break '__first ::peg::RuleResult::Matched(__p, __v);
                        }
                    )*
                    ::peg::RuleResult::Failed
                };
                match __first {
                    ::peg::RuleResult::Matched(__p, __v) => {
                        let mut __acc: Option<#ret> = Some(__v);
                        let mut __repeat_pos = __p;
                        loop {
                            let __pos = __repeat_pos;
                            #( #post )*
                            break;
                        }
                        ::peg::RuleResult::Matched(__repeat_pos, __acc.unwrap())
                    }
                    ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                }
            }
            __recurse(0, __input, __err, __pos #(, #gparams)*)
        }}
    }
}

#[proc_macro]
pub fn parser(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let mut p = P::new(input.into());
    let vis = if p.is_ident_at(0, "pub") {
        p.next();
        quote!(pub)
    } else {
        quote!()
    };
    assert_eq!(p.ident().to_string(), "grammar");
    let gname = p.ident();
    let mut garg_names = vec![];
    let mut garg_types = vec![];
    let mut ga = P::new(p.group(Delimiter::Parenthesis).stream());
    while !ga.done() {
        garg_names.push(ga.ident());
        ga.punct(':');
        garg_types.push(ga.until(&[',']));
        if ga.is_punct(',') {
            ga.punct(',');
        }
    }
    assert_eq!(p.ident().to_string(), "for");
    let elem = p.ident();
    assert_eq!(elem.to_string(), "str", "peg shim: only grammars over str");
    let mut b = P::new(p.group(Delimiter::Brace).stream());
    let mut uses = vec![];
    let mut rules = vec![];
    while !b.done() {
        if b.is_ident_at(0, "use") {
            let u = b.until(&[';']);
            b.punct(';');
            uses.push(quote!(#u;));
            continue;
        }
        let public = b.is_ident_at(0, "pub");
        if public {
            b.next();
        }
        assert_eq!(b.ident().to_string(), "rule");
        let name = b.ident().to_string();
        let (mut generics, mut generic_names) = (quote!(), quote!());
        if b.is_punct('<') {
            b.punct('<');
            let g = b.until(&['>']);
            b.punct('>');
            generics = quote!(, #g);
            generic_names = g;
        }
        let mut params = vec![];
        if b.is_group(Delimiter::Parenthesis) {
            let mut pp = P::new(b.group(Delimiter::Parenthesis).stream());
            while !pp.done() {
                let n = pp.ident();
                pp.punct(':');
                let ty = pp.until(&[',']);
                if pp.is_punct(',') {
                    pp.punct(',');
                }
                let mut tp = P::new(ty.clone());
                let rule_ty = if tp.is_ident_at(0, "rule") && tp.is_punct_at(1, '<') {
                    tp.next();
                    tp.next();
                    let t = tp.until(&['>']);
                    Some(t)
                } else {
                    None
                };
                params.push((n, ty, rule_ty));
            }
        }
        let ret = if b.is_punct('-') && b.is_punct_at(1, '>') {
            b.punct('-');
            b.punct('>');
            Some(b.until(&['=']))
        } else {
            None
        };
        b.punct('=');
        let body = b.choice();
        if b.is_punct(';') {
            b.punct(';');
        }
        rules.push(Rule {
            public,
            name,
            generics,
            generic_names,
            params,
            ret,
            body,
        });
    }
    let mut out = vec![];
    for r in &rules {
        let cx = Cx {
            rule_params: r.params.iter().filter(|p| p.2.is_some()).map(|p| p.0.to_string()).collect(),
            gargs: garg_names.clone(),
        };
        let f = format_ident!("__parse_{}", r.name);
        let ret = r.ret.clone().unwrap_or_else(|| quote!(()));
        let code = match &r.body {
            Ex::Precedence(levels) => {
                let code = cx.precedence(levels, &ret);
                // put the grammar's argument types in
                fill(code, &garg_types)
            }
            e => {
                if r.ret.is_none() {
                    cx.unit(e)
                } else {
                    cx.ex(e)
                }
            }
        };
        let params = r.params.iter().map(|(n, ty, rt)| match rt {
            None => quote!(, #n: #ty),
            Some(t) => quote!(, #n: &dyn Fn(&'input str, &mut ::peg::error::ErrorState, usize) -> ::peg::RuleResult<#t>),
        });
        let generics = &r.generics;
        let _ = &r.generic_names;
        out.push(quote! {
            fn #f<'input #generics>(__input: &'input str, __err: &mut ::peg::error::ErrorState, __pos: usize #(, #garg_names: #garg_types)* #(#params)*) -> ::peg::RuleResult<#ret> {
                #code
            }
        });
        if r.public {
            let n = Ident::new(&r.name, Span::call_site());
            out.push(quote! {
                pub fn #n(__input: &str #(, #garg_names: #garg_types)*) -> Result<#ret, ::peg::error::ParseError<::peg::str::LineCol>> {
                    let mut __err = ::peg::error::ErrorState::new();
                    for __round in 0..2 {
                        match #f(__input, &mut __err, 0 #(, #garg_names)*) {
                            ::peg::RuleResult::Matched(__pos, __v) => {
                                if __pos == __input.len() {
                                    return Ok(__v);
                                }
                                __err.mark_failure(__pos, "EOF");
                            }
                            ::peg::RuleResult::Failed => (),
                        }
                        if __round == 0 {
                            __err.reparse_for_error();
                        }
                    }
                    Err(__err.into_parse_error(__input))
                }
            });
        }
    }
    quote! {
        #[allow(unused, non_snake_case, clippy::all)]
        #vis mod #gname {
            use super::*;
            #(#uses)*
            #(#out)*
        }
    }
    .into()
}

/// replaces the placeholders `__GArg_~` by the types of the grammar's arguments, in order
fn fill(ts: TokenStream, types: &[TokenStream]) -> TokenStream {
    fn go(ts: TokenStream, types: &[TokenStream], k: &mut usize) -> TokenStream {
        let mut out = vec![];
        let toks: Vec<_> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            match &toks[i] {
                TokenTree::Ident(id) if id == "__GArg_" => {
                    out.extend(types[*k].clone());
                    *k += 1;
                    i += 2;
                    continue;
                }
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), go(g.stream(), types, k));
                    n.set_span(g.span());
                    out.push(TokenTree::Group(n));
                }
                t => out.push(t.clone()),
            }
            i += 1;
        }
        out.into_iter().collect()
    }
    go(ts, types, &mut 0)
}
