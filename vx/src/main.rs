//! vx: dumps, for every function of a Rust source file, the byte offsets of the
//! syntactic elements the contract weaver needs (signature, body, loops, closures,
//! lets, calls, macros).  It never rewrites anything itself: /verif/lib/weave.py cuts
//! the function text out of the file by these offsets and inserts annotations.
mod ast;
use proc_macro2::Span;
use std::fmt::Write as _;
use std::io::Read;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn rng(s: Span) -> String {
    let r = s.byte_range();
    format!("[{},{}]", r.start, r.end)
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

#[derive(Default)]
struct Body {
    loops: Vec<String>,
    closures: Vec<String>,
    lets: Vec<String>,
    calls: Vec<String>,
    mcalls: Vec<String>,
    macros: Vec<String>,
    lits: Vec<String>,
    ops: Vec<String>,
    returns: usize,
    tries: usize,
    depth: usize,
    unsafe_blocks: usize,
}

fn pat_idents(p: &syn::Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            self.0.push(i.ident.to_string());
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

impl<'a> Visit<'a> for Body {
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        let b = &e.body;
        self.loops.push(format!(
            "{{\"kind\":\"for\",\"span\":{},\"depth\":{},\"pat\":{},\"pat_ids\":{},\"iter\":{},\"open\":{},\"close\":{}}}",
            rng(e.span()),
            self.depth,
            rng(e.pat.span()),
            list(&pat_idents(&e.pat).iter().map(|s| js(s)).collect::<Vec<_>>()),
            rng(e.expr.span()),
            b.brace_token.span.open().byte_range().start,
            b.brace_token.span.close().byte_range().start,
        ));
        self.visit_expr(&e.expr);
        self.depth += 1;
        visit::visit_block(self, b);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        let b = &e.body;
        self.loops.push(format!(
            "{{\"kind\":\"while\",\"span\":{},\"depth\":{},\"pat\":null,\"pat_ids\":[],\"iter\":{},\"open\":{},\"close\":{}}}",
            rng(e.span()),
            self.depth,
            rng(e.cond.span()),
            b.brace_token.span.open().byte_range().start,
            b.brace_token.span.close().byte_range().start,
        ));
        self.visit_expr(&e.cond);
        self.depth += 1;
        visit::visit_block(self, b);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        let b = &e.body;
        self.loops.push(format!(
            "{{\"kind\":\"loop\",\"span\":{},\"depth\":{},\"pat\":null,\"pat_ids\":[],\"iter\":null,\"open\":{},\"close\":{}}}",
            rng(e.span()),
            self.depth,
            b.brace_token.span.open().byte_range().start,
            b.brace_token.span.close().byte_range().start,
        ));
        self.depth += 1;
        visit::visit_block(self, b);
        self.depth -= 1;
    }
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
        let params: Vec<String> = e.inputs.iter().map(|p| {
            let simple = matches!(p, syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none());
            let typed = matches!(p, syn::Pat::Type(_));
            format!("{{\"span\":{},\"simple\":{},\"typed\":{},\"ids\":{}}}", rng(p.span()), simple, typed,
                list(&pat_idents(p).iter().map(|s| js(s)).collect::<Vec<_>>()))
        }).collect();
        let block = matches!(&*e.body, syn::Expr::Block(b) if b.label.is_none() && b.attrs.is_empty());
        self.closures.push(format!(
            "{{\"span\":{},\"mv\":{},\"or1\":{},\"or2\":{},\"params\":{},\"ret\":{},\"body\":{},\"block\":{}}}",
            rng(e.span()), e.capture.is_some(),
            e.or1_token.span().byte_range().start, e.or2_token.span().byte_range().end,
            list(&params),
            match &e.output { syn::ReturnType::Default => "null".to_string(), syn::ReturnType::Type(_, t) => rng(t.span()) },
            rng(e.body.span()), block
        ));
        visit::visit_expr_closure(self, e);
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        let (name, mutable) = match &l.pat {
            syn::Pat::Ident(i) => (Some(i.ident.to_string()), i.mutability.is_some()),
            syn::Pat::Type(t) => match &*t.pat {
                syn::Pat::Ident(i) => (Some(i.ident.to_string()), i.mutability.is_some()),
                _ => (None, false),
            },
            _ => (None, false),
        };
        self.lets.push(format!(
            "{{\"span\":{},\"name\":{},\"mut\":{},\"init\":{},\"depth\":{}}}",
            rng(l.span()),
            name.map(|n| js(&n)).unwrap_or("null".into()),
            mutable,
            l.init.as_ref().map(|i| rng(i.expr.span())).unwrap_or("null".into()),
            self.depth
        ));
        visit::visit_local(self, l);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        let path = match &*c.func {
            syn::Expr::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"),
            _ => String::new(),
        };
        self.calls.push(format!(
            "{{\"span\":{},\"func\":{},\"path\":{},\"args\":{}}}",
            rng(c.span()), rng(c.func.span()), js(&path),
            list(&c.args.iter().map(|a| rng(a.span())).collect::<Vec<_>>())
        ));
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        self.mcalls.push(format!(
            "{{\"span\":{},\"recv\":{},\"method\":{},\"mspan\":{},\"turbofish\":{},\"args\":{}}}",
            rng(c.span()), rng(c.receiver.span()), js(&c.method.to_string()), rng(c.method.span()),
            c.turbofish.is_some(),
            list(&c.args.iter().map(|a| rng(a.span())).collect::<Vec<_>>())
        ));
        visit::visit_expr_method_call(self, c);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        self.macros.push(format!(
            "{{\"span\":{},\"name\":{},\"inner\":{}}}",
            rng(m.span()), js(&name), rng(m.tokens.span())
        ));
        // macro arguments are tokens; parse the ones we understand so calls inside are seen
        if name == "vec" || name == "assert" {
            if let Ok(exprs) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for e in &exprs {
                    self.visit_expr_leaked(e);
                }
            }
        }
    }
    fn visit_lit(&mut self, l: &'a syn::Lit) {
        match l {
            syn::Lit::Int(i) => self.lits.push(js(i.base10_digits())),
            syn::Lit::Float(f) => self.lits.push(js(f.base10_digits())),
            syn::Lit::Str(s) => self.lits.push(js(&format!("s:{}", s.value()))),
            _ => {}
        }
    }
    fn visit_expr_binary(&mut self, e: &'a syn::ExprBinary) {
        self.ops.push(format!("{{\"span\":{},\"l\":{},\"r\":{},\"op\":{}}}", rng(e.span()), rng(e.left.span()), rng(e.right.span()), rng(e.op.span())));
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) {
        self.returns += 1;
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) {
        self.tries += 1;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_unsafe(&mut self, e: &'a syn::ExprUnsafe) {
        self.unsafe_blocks += 1;
        visit::visit_expr_unsafe(self, e);
    }
    // nested items are reported separately, not as part of this body
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
impl Body {
    fn visit_expr_leaked(&mut self, e: &syn::Expr) {
        // lifetime trick: the visitor only stores strings
        let e: &'static syn::Expr = Box::leak(Box::new(e.clone()));
        <Body as Visit<'static>>::visit_expr(self, e);
    }
}

struct Files {
    out: Vec<String>,
    consts: Vec<String>,
    types: Vec<String>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") {
            return true;
        }
        if a.path().is_ident("cfg") {
            let t = quote::quote!(#a).to_string();
            return t.contains("test") && !t.contains("not");
        }
        false
    })
}

fn dump_fn(
    out: &mut Vec<String>,
    owner: &str,
    trait_: &str,
    implgen: &str,
    attrs: &[syn::Attribute],
    vis: Option<Span>,
    sig: &syn::Signature,
    block: &syn::Block,
    whole: Span,
) {
    if is_test(attrs) {
        return;
    }
    let mut b = Body::default();
    visit::visit_block(&mut b, block);
    let params: Vec<String> = sig
        .inputs
        .iter()
        .map(|p| match p {
            syn::FnArg::Receiver(r) => format!("{{\"self\":true,\"span\":{},\"name\":\"self\",\"ty\":null,\"mut\":{}}}", rng(r.span()), r.mutability.is_some()),
            syn::FnArg::Typed(t) => {
                let (name, m) = match &*t.pat {
                    syn::Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                    _ => (String::new(), false),
                };
                format!("{{\"self\":false,\"span\":{},\"name\":{},\"ty\":{},\"mut\":{}}}", rng(t.span()), js(&name), rng(t.ty.span()), m)
            }
        })
        .collect();
    let stmts: Vec<String> = block.stmts.iter().map(|s| {
        let kind = match s {
            syn::Stmt::Local(_) => "let",
            syn::Stmt::Item(_) => "item",
            syn::Stmt::Expr(_, None) => "tail",
            syn::Stmt::Expr(_, Some(_)) => "expr",
            syn::Stmt::Macro(m) => if m.semi_token.is_some() {"macro"} else {"tailmacro"},
        };
        format!("{{\"kind\":{},\"span\":{}}}", js(kind), rng(s.span()))
    }).collect();
    let start = vis.map(|v| v.byte_range()).filter(|r| r.end > r.start).map(|r| r.start).unwrap_or(sig.span().byte_range().start);
    out.push(format!(
        "{{\"owner\":{},\"trait\":{},\"impl\":{},\"name\":{},\"whole\":{},\"start\":{},\"sig\":{},\"ident\":{},\"generics\":{},\"where\":{},\"params\":{},\"paren_close\":{},\"ret\":{},\"open\":{},\"close\":{},\"stmts\":{},\"loops\":{},\"closures\":{},\"lets\":{},\"calls\":{},\"mcalls\":{},\"macros\":{},\"ops\":{},\"lits\":{},\"returns\":{},\"tries\":{},\"unsafe\":{}}}",
        js(owner), js(trait_), js(implgen), js(&sig.ident.to_string()),
        rng(whole), start, rng(sig.span()), rng(sig.ident.span()),
        if sig.generics.lt_token.is_some() { format!("[{},{}]", sig.generics.lt_token.unwrap().span().byte_range().start, sig.generics.gt_token.unwrap().span().byte_range().end) } else { "null".into() },
        sig.generics.where_clause.as_ref().map(|w| rng(w.span())).unwrap_or("null".into()),
        list(&params),
        sig.paren_token.span.close().byte_range().end,
        match &sig.output { syn::ReturnType::Default => "null".to_string(), syn::ReturnType::Type(_, t) => rng(t.span()) },
        block.brace_token.span.open().byte_range().start,
        block.brace_token.span.close().byte_range().start,
        list(&stmts), list(&b.loops), list(&b.closures), list(&b.lets), list(&b.calls), list(&b.mcalls), list(&b.macros), list(&b.ops), list(&b.lits),
        b.returns, b.tries, b.unsafe_blocks
    ));
    // nested functions
    for s in &block.stmts {
        if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
            dump_fn(out, &format!("{}::{}", owner, sig.ident), "", "", &f.attrs, Some(f.vis.span()), &f.sig, &f.block, f.span());
        }
    }
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        t => quote::quote!(#t).to_string().replace(' ', ""),
    }
}

fn items(f: &mut Files, its: &[syn::Item]) {
    for it in its {
        match it {
            syn::Item::Fn(x) => dump_fn(&mut f.out, "", "", "", &x.attrs, Some(x.vis.span()), &x.sig, &x.block, x.span()),
            syn::Item::Impl(i) => {
                if is_test(&i.attrs) {
                    continue;
                }
                let owner = ty_name(&i.self_ty);
                let st = &i.self_ty;
                let full = quote::quote!(#st).to_string().replace(' ', "");
                let tr = i.trait_.as_ref().map(|(_, p, _)| quote::quote!(#p).to_string().replace(' ', "")).unwrap_or_default();
                for x in &i.items {
                    if let syn::ImplItem::Fn(m) = x {
                        dump_fn(&mut f.out, &owner, &tr, &full, &m.attrs, Some(m.vis.span()), &m.sig, &m.block, m.span());
                    }
                    if let syn::ImplItem::Const(c) = x {
                        f.consts.push(format!("{{\"owner\":{},\"name\":{},\"span\":{},\"expr\":{}}}", js(&owner), js(&c.ident.to_string()), rng(c.span()), rng(c.expr.span())));
                    }
                }
            }
            syn::Item::Trait(t) => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(m) = x {
                        if let Some(b) = &m.default {
                            dump_fn(&mut f.out, &t.ident.to_string(), "", "", &m.attrs, None, &m.sig, b, m.span());
                        }
                    }
                }
            }
            syn::Item::Mod(m) => {
                if is_test(&m.attrs) {
                    continue;
                }
                if let Some((_, c)) = &m.content {
                    items(f, c);
                }
            }
            syn::Item::Const(c) => {
                f.consts.push(format!("{{\"owner\":\"\",\"name\":{},\"span\":{},\"expr\":{}}}", js(&c.ident.to_string()), rng(c.span()), rng(c.expr.span())));
            }
            syn::Item::Struct(s) => f.types.push(format!("{{\"kind\":\"struct\",\"name\":{},\"span\":{}}}", js(&s.ident.to_string()), rng(s.span()))),
            syn::Item::Enum(s) => f.types.push(format!("{{\"kind\":\"enum\",\"name\":{},\"span\":{}}}", js(&s.ident.to_string()), rng(s.span()))),
            _ => {}
        }
    }
}

fn main() {
    let mut src = String::new();
    let full = std::env::args().nth(2).map(|a| a == "ast").unwrap_or(false);
    match std::env::args().nth(1) {
        Some(p) if p != "-" => src = std::fs::read_to_string(&p).expect("read"),
        _ => {
            std::io::stdin().read_to_string(&mut src).expect("stdin");
        }
    }
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            println!("{{\"error\":{}}}", js(&e.to_string()));
            std::process::exit(2);
        }
    };
    if full {
        println!("{}", ast::Src(&src).file(&file));
        return;
    }
    let mut f = Files { out: vec![], consts: vec![], types: vec![] };
    items(&mut f, &file.items);
    println!("{{\"fns\":{},\"consts\":{},\"types\":{}}}", list(&f.out), list(&f.consts), list(&f.types));
}
