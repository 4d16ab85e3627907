//! Full AST of one file as JSON (types, generics and attributes as source text).
use crate::{is_test, js, list, rng};
use proc_macro2::Span;
use syn::spanned::Spanned;

pub struct Src<'a>(pub &'a str);

fn opt(o: Option<String>) -> String {
    o.unwrap_or_else(|| "null".into())
}
impl<'a> Src<'a> {
    fn cut(&self, s: Span) -> &'a str {
        let r = s.byte_range();
        &self.0[r.start..r.end]
    }
    fn text<T: Spanned>(&self, t: &T) -> String {
        js(self.cut(t.span()))
    }
    fn o(&self, k: &str, s: Span, f: &[(&str, String)]) -> String {
        let mut r = format!("{{\"k\":{},\"s\":{}", js(k), rng(s));
        for (n, v) in f {
            r += &format!(",{}:{}", js(n), v);
        }
        r + "}"
    }
    fn exprs<'b>(&self, it: impl Iterator<Item = &'b syn::Expr>) -> String {
        list(&it.map(|e| self.expr(e)).collect::<Vec<_>>())
    }
    pub fn pat(&self, p: &syn::Pat) -> String {
        let s = p.span();
        match p {
            syn::Pat::Ident(i) => self.o("id", s, &[("n", js(&i.ident.to_string())), ("mut", i.mutability.is_some().to_string()), ("ref", i.by_ref.is_some().to_string()),
                ("sub", opt(i.subpat.as_ref().map(|x| self.pat(&x.1))))]),
            syn::Pat::Wild(_) => self.o("wild", s, &[]),
            syn::Pat::Rest(_) => self.o("rest", s, &[]),
            syn::Pat::Tuple(t) => self.o("tuple", s, &[("e", list(&t.elems.iter().map(|x| self.pat(x)).collect::<Vec<_>>()))]),
            syn::Pat::TupleStruct(t) => self.o("tstruct", s, &[("p", self.text(&t.path)), ("e", list(&t.elems.iter().map(|x| self.pat(x)).collect::<Vec<_>>()))]),
            syn::Pat::Struct(t) => self.o("struct", s, &[("p", self.text(&t.path)), ("rest", t.rest.is_some().to_string()),
                ("f", list(&t.fields.iter().map(|x| format!("[{},{}]", self.text(&x.member), self.pat(&x.pat))).collect::<Vec<_>>()))]),
            syn::Pat::Reference(r) => self.o("ref", s, &[("e", self.pat(&r.pat)), ("mut", r.mutability.is_some().to_string())]),
            syn::Pat::Or(o) => self.o("or", s, &[("e", list(&o.cases.iter().map(|x| self.pat(x)).collect::<Vec<_>>()))]),
            syn::Pat::Paren(o) => self.pat(&o.pat),
            syn::Pat::Slice(t) => self.o("slice", s, &[("e", list(&t.elems.iter().map(|x| self.pat(x)).collect::<Vec<_>>()))]),
            syn::Pat::Type(t) => self.o("typed", s, &[("e", self.pat(&t.pat)), ("ty", self.text(&t.ty))]),
            syn::Pat::Path(t) => self.o("path", s, &[("p", self.text(t))]),
            syn::Pat::Lit(t) => self.o("lit", s, &[("t", self.text(t))]),
            syn::Pat::Range(t) => self.o("range", s, &[("t", self.text(t))]),
            _ => self.o("other", s, &[("t", self.text(p))]),
        }
    }
    pub fn block(&self, b: &syn::Block) -> String {
        self.o("block", b.span(), &[("st", list(&b.stmts.iter().map(|x| self.stmt(x)).collect::<Vec<_>>()))])
    }
    fn stmt(&self, st: &syn::Stmt) -> String {
        let s = st.span();
        match st {
            syn::Stmt::Local(l) => {
                let (p, ty) = match &l.pat {
                    syn::Pat::Type(t) => (self.pat(&t.pat), self.text(&t.ty)),
                    p => (self.pat(p), "null".into()),
                };
                self.o("let", s, &[("p", p), ("ty", ty), ("e", opt(l.init.as_ref().map(|i| self.expr(&i.expr)))),
                    ("else", opt(l.init.as_ref().and_then(|i| i.diverge.as_ref()).map(|d| self.expr(&d.1))))])
            }
            syn::Stmt::Item(syn::Item::Fn(f)) => self.o("fn", s, &[("fn", self.func(&f.sig, &f.block, f.span(), &f.attrs, "", "", ""))]),
            syn::Stmt::Item(i) => self.o("item", s, &[("t", self.text(i))]),
            syn::Stmt::Expr(e, semi) => self.o("expr", s, &[("e", self.expr(e)), ("semi", semi.is_some().to_string())]),
            syn::Stmt::Macro(m) => self.o("expr", s, &[("e", self.mac(&m.mac, s)), ("semi", m.semi_token.is_some().to_string())]),
        }
    }
    fn mac(&self, m: &syn::Macro, s: Span) -> String {
        use syn::parse::Parser;
        let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone());
        let rep = |i: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Expr)> {
            let a: syn::Expr = i.parse()?;
            i.parse::<syn::Token![;]>()?;
            let b: syn::Expr = i.parse()?;
            Ok((a, b))
        };
        let name = js(&m.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default());
        if let Ok((a, b)) = rep.parse2(m.tokens.clone()) {
            return self.o("macro", s, &[("n", name), ("rep", format!("[{},{}]", self.expr(&a), self.expr(&b)))]);
        }
        match args {
            Ok(a) => self.o("macro", s, &[("n", name), ("a", self.exprs(a.iter()))]),
            Err(_) => self.o("macro", s, &[("n", name), ("t", js(&m.tokens.to_string()))]),
        }
    }
    pub fn expr(&self, e: &syn::Expr) -> String {
        use syn::Expr::*;
        let s = e.span();
        match e {
            Array(a) => self.o("array", s, &[("e", self.exprs(a.elems.iter()))]),
            Assign(a) => self.o("assign", s, &[("l", self.expr(&a.left)), ("r", self.expr(&a.right))]),
            Binary(b) => self.o("bin", s, &[("op", self.text(&b.op)), ("l", self.expr(&b.left)), ("r", self.expr(&b.right))]),
            Block(b) => self.o("blocke", s, &[("b", self.block(&b.block)), ("label", opt(b.label.as_ref().map(|l| js(&l.name.ident.to_string()))))]),
            Unsafe(b) => self.o("blocke", s, &[("b", self.block(&b.block)), ("label", "null".into()), ("unsafe", "true".into())]),
            Break(b) => self.o("break", s, &[("e", opt(b.expr.as_ref().map(|x| self.expr(x)))), ("label", opt(b.label.as_ref().map(|l| js(&l.ident.to_string()))))]),
            Call(c) => self.o("call", s, &[("f", self.expr(&c.func)), ("a", self.exprs(c.args.iter()))]),
            Cast(c) => self.o("cast", s, &[("e", self.expr(&c.expr)), ("ty", self.text(&c.ty))]),
            Closure(c) => self.o("closure", s, &[("move", c.capture.is_some().to_string()), ("p", list(&c.inputs.iter().map(|x| self.pat(x)).collect::<Vec<_>>())),
                ("ret", match &c.output { syn::ReturnType::Default => "null".into(), syn::ReturnType::Type(_, t) => self.text(t) }), ("b", self.expr(&c.body))]),
            Continue(c) => self.o("continue", s, &[("label", opt(c.label.as_ref().map(|l| js(&l.ident.to_string()))))]),
            Field(f) => self.o("field", s, &[("e", self.expr(&f.base)), ("n", self.text(&f.member))]),
            ForLoop(f) => self.o("for", s, &[("p", self.pat(&f.pat)), ("e", self.expr(&f.expr)), ("b", self.block(&f.body)), ("label", opt(f.label.as_ref().map(|l| js(&l.name.ident.to_string()))))]),
            If(i) => self.o("if", s, &[("c", self.expr(&i.cond)), ("t", self.block(&i.then_branch)), ("e", opt(i.else_branch.as_ref().map(|x| self.expr(&x.1))))]),
            Index(i) => self.o("index", s, &[("e", self.expr(&i.expr)), ("i", self.expr(&i.index))]),
            Let(l) => self.o("letc", s, &[("p", self.pat(&l.pat)), ("e", self.expr(&l.expr))]),
            Lit(l) => self.o("lit", s, &[("t", self.text(l)), ("ty", js(match &l.lit { syn::Lit::Int(_) => "int", syn::Lit::Float(_) => "float", syn::Lit::Bool(_) => "bool", syn::Lit::Str(_) => "str", syn::Lit::Char(_) => "char", syn::Lit::Byte(_) => "byte", syn::Lit::ByteStr(_) => "bytestr", _ => "other" }))]),
            Loop(l) => self.o("loop", s, &[("b", self.block(&l.body)), ("label", opt(l.label.as_ref().map(|l| js(&l.name.ident.to_string()))))]),
            Macro(m) => self.mac(&m.mac, s),
            Match(m) => self.o("match", s, &[("e", self.expr(&m.expr)), ("arms", list(&m.arms.iter().map(|a| self.o("arm", a.span(), &[("p", self.pat(&a.pat)),
                ("g", opt(a.guard.as_ref().map(|g| self.expr(&g.1)))), ("b", self.expr(&a.body))])).collect::<Vec<_>>()))]),
            MethodCall(m) => self.o("mcall", s, &[("e", self.expr(&m.receiver)), ("m", js(&m.method.to_string())),
                ("tf", opt(m.turbofish.as_ref().map(|t| self.text(t)))), ("a", self.exprs(m.args.iter()))]),
            Paren(p) => self.o("paren", s, &[("e", self.expr(&p.expr))]),
            Group(p) => self.expr(&p.expr),
            Path(p) => self.o("path", s, &[("p", js(&self.cut(p.span()).split_whitespace().collect::<Vec<_>>().join("")))]),
            Range(r) => self.o("range", s, &[("l", opt(r.start.as_ref().map(|x| self.expr(x)))), ("r", opt(r.end.as_ref().map(|x| self.expr(x)))),
                ("incl", matches!(r.limits, syn::RangeLimits::Closed(_)).to_string())]),
            Reference(r) => self.o("ref", s, &[("mut", r.mutability.is_some().to_string()), ("e", self.expr(&r.expr))]),
            Repeat(r) => self.o("repeat", s, &[("e", self.expr(&r.expr)), ("n", self.expr(&r.len))]),
            Return(r) => self.o("return", s, &[("e", opt(r.expr.as_ref().map(|x| self.expr(x))))]),
            Struct(t) => self.o("struct", s, &[("p", self.text(&t.path)), ("rest", opt(t.rest.as_ref().map(|x| self.expr(x)))),
                ("f", list(&t.fields.iter().map(|x| format!("[{},{}]", self.text(&x.member), self.expr(&x.expr))).collect::<Vec<_>>()))]),
            Try(t) => self.o("try", s, &[("e", self.expr(&t.expr))]),
            Tuple(t) => self.o("tuple", s, &[("e", self.exprs(t.elems.iter()))]),
            Unary(u) => self.o("un", s, &[("op", self.text(&u.op)), ("e", self.expr(&u.expr))]),
            While(w) => self.o("while", s, &[("c", self.expr(&w.cond)), ("b", self.block(&w.body)), ("label", opt(w.label.as_ref().map(|l| js(&l.name.ident.to_string()))))]),
            _ => self.o("other", s, &[("t", self.text(e))]),
        }
    }
    pub fn func(&self, sig: &syn::Signature, b: &syn::Block, whole: Span, attrs: &[syn::Attribute], owner: &str, trait_: &str, implgen: &str) -> String {
        let params = list(&sig.inputs.iter().map(|p| match p {
            syn::FnArg::Receiver(r) => format!("{{\"self\":true,\"t\":{},\"ref\":{},\"mut\":{}}}", self.text(r), r.reference.is_some(), r.mutability.is_some()),
            syn::FnArg::Typed(t) => format!("{{\"self\":false,\"p\":{},\"ty\":{}}}", self.pat(&t.pat), self.text(&t.ty)),
        }).collect::<Vec<_>>());
        let g = &sig.generics;
        let gens = match (g.lt_token, g.gt_token) {
            (Some(a), Some(z)) => js(&self.0[a.span().byte_range().start..z.span().byte_range().end]),
            _ => js(""),
        };
        let wh = g.where_clause.as_ref().map(|w| self.text(w)).unwrap_or(js(""));
        let ret = match &sig.output { syn::ReturnType::Default => "null".into(), syn::ReturnType::Type(_, t) => self.text(t) };
        self.o("fnitem", whole, &[("name", js(&sig.ident.to_string())), ("owner", js(owner)), ("trait", js(trait_)), ("impl", js(implgen)), ("generics", gens), ("where", wh),
            ("params", params), ("ret", ret), ("const", sig.constness.is_some().to_string()), ("attrs", list(&attrs.iter().map(|a| self.text(a)).collect::<Vec<_>>())), ("body", self.block(b))])
    }
    fn items(&self, its: &[syn::Item], out: &mut Vec<String>, module: &str) {
        for it in its {
            match it {
                syn::Item::Fn(x) if !is_test(&x.attrs) => out.push(self.func(&x.sig, &x.block, x.span(), &x.attrs, "", "", module)),
                syn::Item::Impl(i) if !is_test(&i.attrs) => {
                    let owner = crate::ty_name(&i.self_ty);
                    let tr = i.trait_.as_ref().map(|(_, p, _)| self.cut(p.span()).to_string()).unwrap_or_default();
                    let gens = match (i.generics.lt_token, i.generics.gt_token) {
                        (Some(a), Some(z)) => self.0[a.span().byte_range().start..z.span().byte_range().end].to_string(),
                        _ => String::new(),
                    };
                    let head = format!("{}|{}", gens, self.cut(i.self_ty.span()));
                    for x in &i.items {
                        match x {
                            syn::ImplItem::Fn(m) => out.push(self.func(&m.sig, &m.block, m.span(), &m.attrs, &owner, &tr, &head)),
                            syn::ImplItem::Const(c) => out.push(self.o("constitem", c.span(), &[("name", js(&c.ident.to_string())), ("owner", js(&owner)), ("ty", self.text(&c.ty)), ("e", self.expr(&c.expr))])),
                            _ => {}
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for x in &t.items {
                        if let syn::TraitItem::Fn(m) = x {
                            if let Some(b) = &m.default {
                                out.push(self.func(&m.sig, b, m.span(), &m.attrs, &t.ident.to_string(), "trait", ""));
                            }
                        }
                    }
                }
                syn::Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, c)) = &m.content {
                        self.items(c, out, &m.ident.to_string());
                    }
                }
                syn::Item::Const(c) => out.push(self.o("constitem", c.span(), &[("name", js(&c.ident.to_string())), ("owner", js("")), ("ty", self.text(&c.ty)), ("e", self.expr(&c.expr))])),
                syn::Item::Static(c) => out.push(self.o("constitem", c.span(), &[("name", js(&c.ident.to_string())), ("owner", js("")), ("ty", self.text(&c.ty)), ("e", self.expr(&c.expr))])),
                syn::Item::Struct(x) => out.push(self.o("typeitem", x.span(), &[("name", js(&x.ident.to_string())), ("t", self.text(x))])),
                syn::Item::Enum(x) => out.push(self.o("typeitem", x.span(), &[("name", js(&x.ident.to_string())), ("t", self.text(x))])),
                syn::Item::Macro(x) => out.push(self.o("macroitem", x.span(), &[("t", self.text(x))])),
                _ => {}
            }
        }
    }
    pub fn file(&self, f: &syn::File) -> String {
        let mut out = vec![];
        self.items(&f.items, &mut out, "");
        list(&out)
    }
}
