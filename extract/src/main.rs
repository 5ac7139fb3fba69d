//! Parses every non-test Rust source of the analysed repository with `syn` and writes a compact JSON
//! syntax tree (one object per file) for the analysis engine.  Nothing is executed.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Map, Value};
use std::path::{Path, PathBuf};
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn ln<T: Spanned>(t: &T) -> Value {
    json!(t.span().start().line)
}
fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

// ---- cfg handling -------------------------------------------------------------------------
// A three-valued evaluation of cfg predicates in the production wasm/native configuration:
// `test`, `runtime-benchmarks`, `try-runtime` are off; everything else is unknown and kept.
fn cfg_eval(t: TokenStream) -> Option<bool> {
    let meta: Meta = syn::parse2(t).ok()?;
    cfg_meta(&meta)
}
fn cfg_meta(m: &Meta) -> Option<bool> {
    match m {
        Meta::Path(p) if p.is_ident("test") => Some(false),
        Meta::Path(_) => None,
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    let v = s.value();
                    if v == "runtime-benchmarks" || v == "try-runtime" || v == "testing" {
                        return Some(false);
                    }
                }
            }
            None
        }
        Meta::List(l) => {
            let inner: Vec<Option<bool>> = Punctuated::<Meta, Token![,]>::parse_terminated
                .parse2(l.tokens.clone())
                .map(|p| p.iter().map(cfg_meta).collect())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                inner.first().cloned().flatten().map(|b| !b)
            } else if l.path.is_ident("all") {
                if inner.iter().any(|b| *b == Some(false)) {
                    Some(false)
                } else if inner.iter().all(|b| *b == Some(true)) {
                    Some(true)
                } else {
                    None
                }
            } else if l.path.is_ident("any") {
                if inner.iter().any(|b| *b == Some(true)) {
                    Some(true)
                } else if inner.iter().all(|b| *b == Some(false)) {
                    Some(false)
                } else {
                    None
                }
            } else {
                None
            }
        }
    }
}
fn live(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Meta::List(l) = &a.meta {
                if cfg_eval(l.tokens.clone()) == Some(false) {
                    return false;
                }
            }
        }
        if a.path().is_ident("test") {
            return false;
        }
    }
    true
}
fn attrs(v: &[Attribute]) -> Value {
    let mut out = vec![];
    for a in v {
        let p = ts(a.path()).replace(' ', "");
        if p == "doc" {
            if let Meta::NameValue(nv) = &a.meta {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    let d = s.value();
                    // only selector docs are of interest
                    if d.contains('@') || d.contains('(') {
                        out.push(json!({"p":"doc","t":d}));
                    }
                }
            }
            continue;
        }
        let mut m = Map::new();
        m.insert("p".into(), json!(p));
        match &a.meta {
            Meta::List(l) => {
                m.insert("t".into(), json!(l.tokens.to_string()));
                if let Ok(e) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(l.tokens.clone()) {
                    m.insert("a".into(), Value::Array(e.iter().map(expr).collect()));
                }
            }
            Meta::NameValue(nv) => {
                m.insert("t".into(), json!(ts(&nv.value)));
            }
            _ => {}
        }
        out.push(Value::Object(m));
    }
    Value::Array(out)
}

// ---- types and paths ----------------------------------------------------------------------
fn gargs(a: &PathArguments) -> Value {
    match a {
        PathArguments::None => Value::Null,
        PathArguments::AngleBracketed(ab) => Value::Array(
            ab.args
                .iter()
                .map(|g| match g {
                    GenericArgument::Type(t) => ty(t),
                    GenericArgument::AssocType(a) => json!({"k":"Assoc","n":a.ident.to_string(),"t":ty(&a.ty)}),
                    GenericArgument::Const(e) => json!({"k":"Const","e":expr(e)}),
                    o => json!({"k":"Other","s":ts(o)}),
                })
                .collect(),
        ),
        PathArguments::Parenthesized(p) => {
            json!([{"k":"FnArgs","i":p.inputs.iter().map(ty).collect::<Vec<_>>(),
                    "o": match &p.output { ReturnType::Type(_, t) => ty(t), _ => Value::Null }}])
        }
    }
}
fn path(p: &syn::Path) -> Value {
    Value::Array(
        p.segments
            .iter()
            .map(|s| {
                let g = gargs(&s.arguments);
                if g.is_null() {
                    json!({"n":s.ident.to_string()})
                } else {
                    json!({"n":s.ident.to_string(),"g":g})
                }
            })
            .collect(),
    )
}
fn qpath(q: &Option<QSelf>, p: &syn::Path) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("p".into(), path(p));
    if let Some(q) = q {
        m.insert("q".into(), ty(&q.ty));
        m.insert("qp".into(), json!(q.position));
    }
    m
}
fn ty(t: &Type) -> Value {
    match t {
        Type::Path(p) => {
            let mut m = qpath(&p.qself, &p.path);
            m.insert("k".into(), json!("Path"));
            Value::Object(m)
        }
        Type::Reference(r) => json!({"k":"Ref","m":r.mutability.is_some(),"t":ty(&r.elem)}),
        Type::Tuple(t) => json!({"k":"Tuple","a":t.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Slice(s) => json!({"k":"Slice","t":ty(&s.elem)}),
        Type::Array(s) => json!({"k":"Array","t":ty(&s.elem),"n":expr(&s.len)}),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::ImplTrait(i) => json!({"k":"Impl","b":bounds(&i.bounds)}),
        Type::TraitObject(i) => json!({"k":"Dyn","b":bounds(&i.bounds)}),
        Type::Never(_) => json!({"k":"Never"}),
        Type::Infer(_) => json!({"k":"Infer"}),
        o => json!({"k":"Other","s":ts(o)}),
    }
}
fn bounds(b: &Punctuated<TypeParamBound, Token![+]>) -> Value {
    Value::Array(
        b.iter()
            .filter_map(|x| match x {
                TypeParamBound::Trait(t) => Some(path(&t.path)),
                _ => None,
            })
            .collect(),
    )
}
fn generics(g: &Generics) -> Value {
    let mut out = vec![];
    for p in &g.params {
        match p {
            GenericParam::Type(t) => out.push(json!({"n":t.ident.to_string(),"b":bounds(&t.bounds)})),
            GenericParam::Const(c) => out.push(json!({"n":c.ident.to_string(),"const":true})),
            _ => {}
        }
    }
    let mut w = vec![];
    if let Some(wc) = &g.where_clause {
        for p in &wc.predicates {
            if let WherePredicate::Type(t) = p {
                w.push(json!({"t":ty(&t.bounded_ty),"b":bounds(&t.bounds)}));
            }
        }
    }
    if out.is_empty() && w.is_empty() {
        return Value::Null;
    }
    json!({"p":out,"w":w})
}

// ---- patterns -----------------------------------------------------------------------------
fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"k":"Ident","n":i.ident.to_string(),"r":i.by_ref.is_some(),"m":i.mutability.is_some(),
            "sub": i.subpat.as_ref().map(|s| pat(&s.1))}),
        Pat::Wild(_) => json!({"k":"Wild"}),
        Pat::Path(p) => {
            let mut m = qpath(&p.qself, &p.path);
            m.insert("k".into(), json!("Path"));
            Value::Object(m)
        }
        Pat::TupleStruct(t) => {
            let mut m = qpath(&t.qself, &t.path);
            m.insert("k".into(), json!("TupleStruct"));
            m.insert("a".into(), Value::Array(t.elems.iter().map(pat).collect()));
            Value::Object(m)
        }
        Pat::Struct(t) => {
            let mut m = qpath(&t.qself, &t.path);
            m.insert("k".into(), json!("Struct"));
            m.insert(
                "f".into(),
                Value::Array(t.fields.iter().map(|f| json!([ts(&f.member), pat(&f.pat)])).collect()),
            );
            Value::Object(m)
        }
        Pat::Tuple(t) => json!({"k":"Tuple","a":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Slice(t) => json!({"k":"Slice","a":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Reference(r) => json!({"k":"Ref","p":pat(&r.pat)}),
        Pat::Or(o) => json!({"k":"Or","a":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Type(t) => json!({"k":"Type","p":pat(&t.pat),"t":ty(&t.ty)}),
        Pat::Paren(t) => pat(&t.pat),
        Pat::Rest(_) => json!({"k":"Rest"}),
        Pat::Lit(l) => json!({"k":"Lit","e":lit(&l.lit)}),
        Pat::Range(r) => json!({"k":"Range","s":r.start.as_ref().map(|e| expr(e)),"e":r.end.as_ref().map(|e| expr(e)),
            "incl": matches!(r.limits, RangeLimits::Closed(_))}),
        o => json!({"k":"Other","s":ts(o)}),
    }
}

fn lit(l: &Lit) -> Value {
    match l {
        Lit::Str(s) => json!({"k":"Lit","t":"str","v":s.value()}),
        Lit::ByteStr(s) => json!({"k":"Lit","t":"bytes","v":s.value()}),
        Lit::Byte(b) => json!({"k":"Lit","t":"int","v":b.value().to_string(),"s":"u8"}),
        Lit::Char(c) => json!({"k":"Lit","t":"char","v":c.value().to_string()}),
        Lit::Int(i) => json!({"k":"Lit","t":"int","v":i.base10_digits(),"s":i.suffix()}),
        Lit::Float(f) => json!({"k":"Lit","t":"float","v":f.base10_digits()}),
        Lit::Bool(b) => json!({"k":"Lit","t":"bool","v":b.value}),
        o => json!({"k":"Lit","t":"other","v":ts(o)}),
    }
}

// ---- macros -------------------------------------------------------------------------------
struct MatchesArgs {
    e: Expr,
    p: Pat,
    guard: Option<Expr>,
}
impl Parse for MatchesArgs {
    fn parse(input: ParseStream) -> Result<Self> {
        let e = input.parse()?;
        input.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(input)?;
        let guard = if input.peek(Token![if]) {
            input.parse::<Token![if]>()?;
            Some(input.parse()?)
        } else {
            None
        };
        let _ = input.parse::<Option<Token![,]>>();
        Ok(MatchesArgs { e, p, guard })
    }
}
struct VecRepeat {
    e: Expr,
    n: Expr,
}
impl Parse for VecRepeat {
    fn parse(input: ParseStream) -> Result<Self> {
        let e = input.parse()?;
        input.parse::<Token![;]>()?;
        let n = input.parse()?;
        Ok(VecRepeat { e, n })
    }
}
// the entries of `parameter_types!`: [attrs] [vis] [const|static|storage] Name: Type = expr;
struct Params(Vec<(Ident, Type, Expr)>);
impl Parse for Params {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut out = vec![];
        while !input.is_empty() {
            let at = input.call(Attribute::parse_outer)?;
            input.parse::<Visibility>()?;
            if input.peek(Token![const]) {
                input.parse::<Token![const]>()?;
            } else if input.peek(Token![static]) {
                input.parse::<Token![static]>()?;
            } else if input.peek2(Ident) {
                input.parse::<Ident>()?;
            }
            let n: Ident = input.parse()?;
            input.parse::<Generics>()?;
            input.parse::<Token![:]>()?;
            let t = input.parse()?;
            input.parse::<Token![=]>()?;
            let e = input.parse()?;
            input.parse::<Token![;]>()?;
            if live(&at) {
                out.push((n, t, e));
            }
        }
        Ok(Params(out))
    }
}
fn toks(t: TokenStream) -> Value {
    let mut out = vec![];
    for x in t {
        out.push(match x {
            TokenTree::Group(g) => {
                let d = match g.delimiter() {
                    Delimiter::Parenthesis => "(",
                    Delimiter::Brace => "{",
                    Delimiter::Bracket => "[",
                    Delimiter::None => "",
                };
                json!({"d":d,"c":toks(g.stream())})
            }
            o => json!(o.to_string()),
        });
    }
    Value::Array(out)
}
fn mac(m: &Macro) -> Value {
    let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    let mut o = Map::new();
    o.insert("k".into(), json!("Macro"));
    o.insert("n".into(), json!(name));
    o.insert("l".into(), ln(&m.path));
    if name == "matches" {
        if let Ok(a) = syn::parse2::<MatchesArgs>(m.tokens.clone()) {
            o.insert("e".into(), expr(&a.e));
            o.insert("pat".into(), pat(&a.p));
            o.insert("g".into(), a.guard.as_ref().map(expr).unwrap_or(Value::Null));
            return Value::Object(o);
        }
    }
    if name == "parameter_types" {
        if let Ok(p) = syn::parse2::<Params>(m.tokens.clone()) {
            let v = p.0.iter().map(|(n, t, e)| json!({"k":"Const","n":n.to_string(),"t":ty(t),"e":expr(e)})).collect();
            o.insert("items".into(), Value::Array(v));
            o.insert("toks".into(), toks(m.tokens.clone()));
            return Value::Object(o);
        }
    }
    if name == "for_tuples" {
        // what is done for each element, written for one
        let t = plain(m.tokens.clone(), '#');
        if let Ok(b) = syn::parse2::<Block>(quote::quote!({ #t })) {
            return json!({"k":"Block","b":block(&b),"l":ln(&m.path)});
        }
    }
    if let Ok(a) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
        o.insert("a".into(), Value::Array(a.iter().map(expr).collect()));
        return Value::Object(o);
    }
    if let Ok(v) = syn::parse2::<VecRepeat>(m.tokens.clone()) {
        o.insert("rep".into(), json!([expr(&v.e), expr(&v.n)]));
        return Value::Object(o);
    }
    if let Ok(f) = syn::parse2::<File>(m.tokens.clone()) {
        if !f.items.is_empty() {
            o.insert("items".into(), items(&f.items));
        }
    } else if let Ok(b) = Block::parse_within.parse2(m.tokens.clone()) {
        o.insert("b".into(), Value::Array(b.iter().filter_map(stmt).collect()));
    }
    o.insert("toks".into(), toks(m.tokens.clone()));
    Value::Object(o)
}

// ---- expressions --------------------------------------------------------------------------
fn exprs<'a>(i: impl Iterator<Item = &'a Expr>) -> Value {
    Value::Array(i.map(expr).collect())
}
fn op(o: &BinOp) -> String {
    ts(o)
}
fn member(m: &Member) -> String {
    match m {
        Member::Named(i) => i.to_string(),
        Member::Unnamed(i) => i.index.to_string(),
    }
}
fn expr(e: &Expr) -> Value {
    let mut m = Map::new();
    let k: &str = match e {
        Expr::Lit(l) => return lit(&l.lit),
        Expr::Paren(p) => return expr(&p.expr),
        Expr::Group(p) => return expr(&p.expr),
        Expr::Macro(x) => return mac(&x.mac),
        Expr::Path(p) => {
            m = qpath(&p.qself, &p.path);
            "Path"
        }
        Expr::Call(c) => {
            m.insert("f".into(), expr(&c.func));
            m.insert("a".into(), exprs(c.args.iter()));
            "Call"
        }
        Expr::MethodCall(c) => {
            m.insert("r".into(), expr(&c.receiver));
            m.insert("m".into(), json!(c.method.to_string()));
            m.insert("a".into(), exprs(c.args.iter()));
            if let Some(t) = &c.turbofish {
                m.insert(
                    "g".into(),
                    Value::Array(
                        t.args
                            .iter()
                            .map(|g| match g {
                                GenericArgument::Type(t) => ty(t),
                                o => json!({"k":"Other","s":ts(o)}),
                            })
                            .collect(),
                    ),
                );
            }
            m.insert("l".into(), ln(&c.method));
            "Method"
        }
        Expr::Field(f) => {
            m.insert("e".into(), expr(&f.base));
            m.insert("n".into(), json!(member(&f.member)));
            "Field"
        }
        Expr::Index(i) => {
            m.insert("e".into(), expr(&i.expr));
            m.insert("i".into(), expr(&i.index));
            "Index"
        }
        Expr::Unary(u) => {
            m.insert("o".into(), json!(ts(&u.op)));
            m.insert("e".into(), expr(&u.expr));
            "Unary"
        }
        Expr::Binary(b) => {
            m.insert("o".into(), json!(op(&b.op)));
            m.insert("a".into(), expr(&b.left));
            m.insert("b".into(), expr(&b.right));
            "Binary"
        }
        Expr::Assign(a) => {
            m.insert("a".into(), expr(&a.left));
            m.insert("b".into(), expr(&a.right));
            "Assign"
        }
        Expr::Reference(r) => {
            m.insert("m".into(), json!(r.mutability.is_some()));
            m.insert("e".into(), expr(&r.expr));
            "Ref"
        }
        Expr::Cast(c) => {
            m.insert("e".into(), expr(&c.expr));
            m.insert("t".into(), ty(&c.ty));
            "Cast"
        }
        Expr::Block(b) => {
            if let Some(l) = &b.label {
                m.insert("label".into(), json!(l.name.ident.to_string()));
            }
            m.insert("b".into(), block(&b.block));
            "Block"
        }
        Expr::Unsafe(b) => {
            m.insert("b".into(), block(&b.block));
            "Block"
        }
        Expr::Async(b) => {
            m.insert("b".into(), block(&b.block));
            "Async"
        }
        Expr::Await(b) => {
            m.insert("e".into(), expr(&b.base));
            "Await"
        }
        Expr::If(i) => {
            m.insert("c".into(), expr(&i.cond));
            m.insert("t".into(), block(&i.then_branch));
            if let Some((_, e)) = &i.else_branch {
                m.insert("e".into(), expr(e));
            }
            "If"
        }
        Expr::Let(l) => {
            m.insert("p".into(), pat(&l.pat));
            m.insert("e".into(), expr(&l.expr));
            "Let"
        }
        Expr::Match(x) => {
            m.insert("e".into(), expr(&x.expr));
            m.insert(
                "arms".into(),
                Value::Array(
                    x.arms
                        .iter()
                        .filter(|a| live(&a.attrs))
                        .map(|a| {
                            json!({"p":pat(&a.pat),"g":a.guard.as_ref().map(|g| expr(&g.1)),"b":expr(&a.body),"l":ln(&a.pat)})
                        })
                        .collect(),
                ),
            );
            "Match"
        }
        Expr::Closure(c) => {
            m.insert("a".into(), Value::Array(c.inputs.iter().map(pat).collect()));
            m.insert("b".into(), expr(&c.body));
            if let ReturnType::Type(_, t) = &c.output {
                m.insert("o".into(), ty(t));
            }
            m.insert("async".into(), json!(c.asyncness.is_some()));
            "Closure"
        }
        Expr::Try(t) => {
            m.insert("e".into(), expr(&t.expr));
            "Try"
        }
        Expr::Return(r) => {
            if let Some(e) = &r.expr {
                m.insert("e".into(), expr(e));
            }
            "Return"
        }
        Expr::Break(b) => {
            if let Some(l) = &b.label {
                m.insert("label".into(), json!(l.ident.to_string()));
            }
            if let Some(e) = &b.expr {
                m.insert("e".into(), expr(e));
            }
            "Break"
        }
        Expr::Continue(b) => {
            if let Some(l) = &b.label {
                m.insert("label".into(), json!(l.ident.to_string()));
            }
            "Continue"
        }
        Expr::ForLoop(f) => {
            if let Some(l) = &f.label {
                m.insert("label".into(), json!(l.name.ident.to_string()));
            }
            m.insert("p".into(), pat(&f.pat));
            m.insert("e".into(), expr(&f.expr));
            m.insert("b".into(), block(&f.body));
            "For"
        }
        Expr::While(w) => {
            if let Some(l) = &w.label {
                m.insert("label".into(), json!(l.name.ident.to_string()));
            }
            m.insert("c".into(), expr(&w.cond));
            m.insert("b".into(), block(&w.body));
            "While"
        }
        Expr::Loop(w) => {
            if let Some(l) = &w.label {
                m.insert("label".into(), json!(l.name.ident.to_string()));
            }
            m.insert("b".into(), block(&w.body));
            "Loop"
        }
        Expr::Tuple(t) => {
            m.insert("a".into(), exprs(t.elems.iter()));
            "Tuple"
        }
        Expr::Array(t) => {
            m.insert("a".into(), exprs(t.elems.iter()));
            "Array"
        }
        Expr::Repeat(r) => {
            m.insert("e".into(), expr(&r.expr));
            m.insert("n".into(), expr(&r.len));
            "Repeat"
        }
        Expr::Struct(s) => {
            m = qpath(&s.qself, &s.path);
            m.insert(
                "f".into(),
                Value::Array(
                    s.fields
                        .iter()
                        .filter(|f| live(&f.attrs))
                        .map(|f| json!([member(&f.member), expr(&f.expr)]))
                        .collect(),
                ),
            );
            if let Some(r) = &s.rest {
                m.insert("rest".into(), expr(r));
            }
            "Struct"
        }
        Expr::Range(r) => {
            m.insert("s".into(), r.start.as_ref().map(|e| expr(e)).unwrap_or(Value::Null));
            m.insert("e".into(), r.end.as_ref().map(|e| expr(e)).unwrap_or(Value::Null));
            m.insert("incl".into(), json!(matches!(r.limits, RangeLimits::Closed(_))));
            "Range"
        }
        o => {
            m.insert("s".into(), json!(ts(o)));
            "Other"
        }
    };
    m.insert("k".into(), json!(k));
    if !m.contains_key("l") && matches!(k, "Call" | "Struct" | "Try" | "Macro" | "If" | "Match" | "Binary" | "Assign" | "For" | "While" | "Return" | "Cast" | "Index" | "Path") {
        m.insert("l".into(), ln(e));
    }
    Value::Object(m)
}

fn block(b: &Block) -> Value {
    Value::Array(b.stmts.iter().filter_map(stmt).collect())
}
fn stmt(s: &Stmt) -> Option<Value> {
    Some(match s {
        Stmt::Local(l) => {
            if !live(&l.attrs) {
                return None;
            }
            let mut m = Map::new();
            m.insert("k".into(), json!("Local"));
            m.insert("p".into(), pat(&l.pat));
            m.insert("l".into(), ln(l));
            if let Some(i) = &l.init {
                m.insert("e".into(), expr(&i.expr));
                if let Some((_, d)) = &i.diverge {
                    m.insert("else".into(), expr(d));
                }
            }
            Value::Object(m)
        }
        Stmt::Item(i) => return item(i).map(|v| json!({"k":"Item","i":v})),
        Stmt::Expr(e, semi) => {
            if !live(expr_attrs(e)) {
                return None;
            }
            json!({"k":"Expr","e":expr(e),"semi":semi.is_some(),"l":ln(e)})
        }
        Stmt::Macro(m) => {
            if !live(&m.attrs) {
                return None;
            }
            json!({"k":"Expr","e":mac(&m.mac),"semi":m.semi_token.is_some(),"mac":true,"l":ln(m)})
        }
    })
}
fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::If(x) => &x.attrs,
        Expr::Block(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        _ => &[],
    }
}

// ---- items --------------------------------------------------------------------------------
fn sig(s: &Signature) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("n".into(), json!(s.ident.to_string()));
    m.insert("gen".into(), generics(&s.generics));
    m.insert("async".into(), json!(s.asyncness.is_some()));
    m.insert(
        "in".into(),
        Value::Array(
            s.inputs
                .iter()
                .map(|i| match i {
                    FnArg::Receiver(r) => {
                        json!({"self":true,"ref":r.reference.is_some(),"m":r.mutability.is_some()})
                    }
                    FnArg::Typed(t) => json!({"p":pat(&t.pat),"t":ty(&t.ty)}),
                })
                .collect(),
        ),
    );
    m.insert("out".into(), match &s.output { ReturnType::Type(_, t) => ty(t), _ => Value::Null });
    m
}
fn vis(v: &Visibility) -> &'static str {
    match v {
        Visibility::Public(_) => "pub",
        Visibility::Restricted(_) => "restricted",
        Visibility::Inherited => "",
    }
}
fn fields(f: &Fields) -> Value {
    Value::Array(
        f.iter()
            .enumerate()
            .filter(|(_, f)| live(&f.attrs))
            .map(|(i, f)| {
                json!({"n":f.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string()),"t":ty(&f.ty),"attrs":attrs(&f.attrs),"v":vis(&f.vis)})
            })
            .collect(),
    )
}
fn usetree(t: &UseTree, prefix: &mut Vec<String>, out: &mut Vec<Value>) {
    match t {
        UseTree::Path(p) => {
            prefix.push(p.ident.to_string());
            usetree(&p.tree, prefix, out);
            prefix.pop();
        }
        UseTree::Name(n) => {
            let mut p = prefix.clone();
            let id = n.ident.to_string();
            if id == "self" {
                let l = p.last().cloned().unwrap_or_default();
                out.push(json!([l, p]));
            } else {
                p.push(id.clone());
                out.push(json!([id, p]));
            }
        }
        UseTree::Rename(r) => {
            let mut p = prefix.clone();
            p.push(r.ident.to_string());
            out.push(json!([r.rename.to_string(), p]));
        }
        UseTree::Glob(_) => out.push(json!(["*", prefix.clone()])),
        UseTree::Group(g) => {
            for i in &g.items {
                usetree(i, prefix, out);
            }
        }
    }
}
fn items(v: &[Item]) -> Value {
    Value::Array(v.iter().filter_map(item).collect())
}
fn item(i: &Item) -> Option<Value> {
    let mut m = Map::new();
    match i {
        Item::Fn(f) => {
            if !live(&f.attrs) {
                return None;
            }
            m = sig(&f.sig);
            m.insert("k".into(), json!("Fn"));
            m.insert("v".into(), json!(vis(&f.vis)));
            m.insert("attrs".into(), attrs(&f.attrs));
            m.insert("b".into(), block(&f.block));
            m.insert("l".into(), ln(&f.sig.ident));
        }
        Item::Struct(s) => {
            if !live(&s.attrs) {
                return None;
            }
            m.insert("k".into(), json!("Struct"));
            m.insert("n".into(), json!(s.ident.to_string()));
            m.insert("attrs".into(), attrs(&s.attrs));
            m.insert("f".into(), fields(&s.fields));
            m.insert("gen".into(), generics(&s.generics));
            m.insert("tuple".into(), json!(matches!(s.fields, Fields::Unnamed(_))));
        }
        Item::Enum(s) => {
            if !live(&s.attrs) {
                return None;
            }
            m.insert("k".into(), json!("Enum"));
            m.insert("n".into(), json!(s.ident.to_string()));
            m.insert("attrs".into(), attrs(&s.attrs));
            m.insert("gen".into(), generics(&s.generics));
            m.insert(
                "vs".into(),
                Value::Array(
                    s.variants
                        .iter()
                        .map(|v| {
                            json!({"n":v.ident.to_string(),"f":fields(&v.fields),"attrs":attrs(&v.attrs),
                                "tuple":matches!(v.fields, Fields::Unnamed(_)),
                                "d":v.discriminant.as_ref().map(|d| expr(&d.1)),"l":ln(&v.ident)})
                        })
                        .collect(),
                ),
            );
        }
        Item::Impl(im) => {
            if !live(&im.attrs) {
                return None;
            }
            m.insert("k".into(), json!("Impl"));
            m.insert("attrs".into(), attrs(&im.attrs));
            m.insert("gen".into(), generics(&im.generics));
            m.insert("t".into(), ty(&im.self_ty));
            m.insert("tr".into(), im.trait_.as_ref().map(|t| path(&t.1)).unwrap_or(Value::Null));
            let mut v = vec![];
            for x in &im.items {
                match x {
                    ImplItem::Fn(f) => {
                        if !live(&f.attrs) {
                            continue;
                        }
                        let mut fm = sig(&f.sig);
                        fm.insert("k".into(), json!("Fn"));
                        fm.insert("v".into(), json!(vis(&f.vis)));
                        fm.insert("attrs".into(), attrs(&f.attrs));
                        fm.insert("b".into(), block(&f.block));
                        fm.insert("l".into(), ln(&f.sig.ident));
                        v.push(Value::Object(fm));
                    }
                    ImplItem::Type(t) => {
                        if !live(&t.attrs) {
                            continue;
                        }
                        v.push(json!({"k":"Type","n":t.ident.to_string(),"t":ty(&t.ty),"l":ln(&t.ident)}));
                    }
                    ImplItem::Const(c) => {
                        if !live(&c.attrs) {
                            continue;
                        }
                        v.push(json!({"k":"Const","n":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr)}));
                    }
                    ImplItem::Macro(mm) => v.push(mac(&mm.mac)),
                    _ => {}
                }
            }
            m.insert("items".into(), Value::Array(v));
        }
        Item::Trait(t) => {
            if !live(&t.attrs) {
                return None;
            }
            m.insert("k".into(), json!("Trait"));
            m.insert("n".into(), json!(t.ident.to_string()));
            m.insert("attrs".into(), attrs(&t.attrs));
            m.insert("super".into(), bounds(&t.supertraits));
            let mut v = vec![];
            for x in &t.items {
                match x {
                    TraitItem::Fn(f) => {
                        if !live(&f.attrs) {
                            continue;
                        }
                        let mut fm = sig(&f.sig);
                        fm.insert("k".into(), json!("Fn"));
                        fm.insert("attrs".into(), attrs(&f.attrs));
                        if let Some(b) = &f.default {
                            fm.insert("b".into(), block(b));
                        }
                        fm.insert("l".into(), ln(&f.sig.ident));
                        v.push(Value::Object(fm));
                    }
                    TraitItem::Type(t) => {
                        if !live(&t.attrs) {
                            continue;
                        }
                        v.push(json!({"k":"Type","n":t.ident.to_string(),"b":bounds(&t.bounds),"attrs":attrs(&t.attrs)}));
                    }
                    TraitItem::Const(c) => v.push(json!({"k":"Const","n":c.ident.to_string(),"t":ty(&c.ty)})),
                    _ => {}
                }
            }
            m.insert("items".into(), Value::Array(v));
        }
        Item::Mod(md) => {
            if !live(&md.attrs) {
                return None;
            }
            m.insert("k".into(), json!("Mod"));
            m.insert("n".into(), json!(md.ident.to_string()));
            m.insert("attrs".into(), attrs(&md.attrs));
            if let Some((_, c)) = &md.content {
                m.insert("items".into(), items(c));
            }
        }
        Item::Const(c) => {
            if !live(&c.attrs) {
                return None;
            }
            m.insert("k".into(), json!("Const"));
            m.insert("n".into(), json!(c.ident.to_string()));
            m.insert("t".into(), ty(&c.ty));
            m.insert("e".into(), expr(&c.expr));
        }
        Item::Static(c) => {
            m.insert("k".into(), json!("Const"));
            m.insert("n".into(), json!(c.ident.to_string()));
            m.insert("t".into(), ty(&c.ty));
            m.insert("e".into(), expr(&c.expr));
        }
        Item::Type(t) => {
            if !live(&t.attrs) {
                return None;
            }
            m.insert("k".into(), json!("Type"));
            m.insert("n".into(), json!(t.ident.to_string()));
            m.insert("attrs".into(), attrs(&t.attrs));
            m.insert("gen".into(), generics(&t.generics));
            m.insert("t".into(), ty(&t.ty));
            m.insert("l".into(), ln(&t.ident));
        }
        Item::Use(u) => {
            if !live(&u.attrs) {
                return None;
            }
            m.insert("k".into(), json!("Use"));
            let mut out = vec![];
            usetree(&u.tree, &mut vec![], &mut out);
            m.insert("u".into(), Value::Array(out));
        }
        Item::Macro(x) => {
            if !live(&x.attrs) {
                return None;
            }
            let v = mac(&x.mac);
            if let Value::Object(o) = v {
                m = o;
            }
            if let Some(i) = &x.ident {
                m.insert("def".into(), json!(i.to_string()));
                m.insert("rules".into(), rules(&i.to_string(), x.mac.tokens.clone()));
            }
        }
        _ => return None,
    }
    Some(Value::Object(m))
}

// ---- macro_rules ---------------------------------------------------------------------------
// The body of every rule with its metavariables `$x` as plain names `m_x` and its repetitions written once:
// items as they are, statements as the body of a function of the rule's metavariables.
fn plain(t: TokenStream, sig: char) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut o: Vec<TokenTree> = vec![];
    let mut i = 0;
    let punct = |t: Option<&TokenTree>, c: &[char]| matches!(t, Some(TokenTree::Punct(p)) if c.contains(&p.as_char()));
    while i < v.len() {
        match (&v[i], v.get(i + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Group(g))) if p.as_char() == sig && (sig == '$' || g.delimiter() == Delimiter::Parenthesis) => {
                o.extend(plain(g.stream(), sig));
                i += 2;
                if punct(v.get(i), &['*', '+', '?']) {
                    i += 1;
                } else if punct(v.get(i + 1), &['*', '+']) {
                    // an operator between the repetitions
                    if punct(v.get(i), &['&', '|', '^', '+', '-']) {
                        o.push(v[i].clone());
                        o.extend(plain(g.stream(), sig));
                    }
                    i += 2;
                }
            }
            (TokenTree::Punct(p), Some(TokenTree::Ident(d))) if p.as_char() == '$' => {
                let n = d.to_string();
                let n = if n == "crate" { n } else { format!("m_{n}") };
                o.push(TokenTree::Ident(proc_macro2::Ident::new(&n, d.span())));
                i += 2;
            }
            (TokenTree::Ident(d), Some(TokenTree::Punct(p))) if *d == "paste" && p.as_char() == '!' && matches!(v.get(i + 2), Some(TokenTree::Group(_))) => {
                // the pasted path in front of it
                while let Some(l) = o.last() {
                    match l {
                        TokenTree::Punct(p) if p.as_char() == ':' => o.pop(),
                        TokenTree::Ident(x) if ["crate", "data", "m_crate"].contains(&x.to_string().as_str()) => o.pop(),
                        _ => break,
                    };
                }
                if let Some(TokenTree::Group(g)) = v.get(i + 2) {
                    o.extend(plain(g.stream(), sig));
                }
                i += 3;
            }
            (TokenTree::Group(g), _) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), plain(g.stream(), sig));
                n.set_span(g.span());
                o.push(TokenTree::Group(n));
                i += 1;
            }
            (t, _) => {
                o.push(t.clone());
                i += 1;
            }
        }
    }
    o.into_iter().collect()
}
fn metavars(t: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for (i, x) in v.iter().enumerate() {
        match x {
            TokenTree::Group(g) => metavars(g.stream(), out),
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(d)) = v.get(i + 1) {
                    out.push(format!("m_{d}"));
                }
            }
            _ => {}
        }
    }
}
fn rules(name: &str, t: TokenStream) -> Value {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i + 3 < v.len() {
        if let (TokenTree::Group(a), TokenTree::Group(b)) = (&v[i], &v[i + 3]) {
            let body = plain(b.stream(), '$');
            match syn::parse2::<File>(body.clone()) {
                Ok(f) if !f.items.is_empty() => out.push(items(&f.items)),
                _ => {
                    let mut ps = vec![];
                    metavars(a.stream(), &mut ps);
                    let n = proc_macro2::Ident::new(name, a.span());
                    let ps: Vec<_> = ps.iter().map(|p| proc_macro2::Ident::new(p, a.span())).collect();
                    if let Ok(f) = syn::parse2::<File>(quote::quote!(fn #n(#(#ps: ()),*) { #body })) {
                        out.push(items(&f.items));
                    }
                }
            }
        }
        i += 4;
        if matches!(v.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
            i += 1;
        }
    }
    Value::Array(out)
}

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut es: Vec<_> = rd.filter_map(|e| e.ok()).collect();
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let p = e.path();
        let n = e.file_name().to_string_lossy().to_string();
        if p.is_dir() {
            if ["target", ".git", "node_modules", "tests", "e2e", "benches", "examples", "fuzz"].contains(&n.as_str()) {
                continue;
            }
            walk(&p, out);
        } else if n.ends_with(".rs") {
            if ["tests.rs", "test.rs", "mock.rs", "benchmarking.rs", "test_utils.rs", "testing.rs", "build.rs"].contains(&n.as_str()) {
                continue;
            }
            out.push(p);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(&a[1]);
    let mut files = vec![];
    walk(&root, &mut files);
    let n = files.len();
    let chunks: Vec<Vec<PathBuf>> = {
        let t = 8;
        let mut c: Vec<Vec<PathBuf>> = vec![vec![]; t];
        for (i, f) in files.into_iter().enumerate() {
            c[i % t].push(f);
        }
        c
    };
    let root2 = root.clone();
    let hs: Vec<_> = chunks
        .into_iter()
        .map(|c| {
            let root = root2.clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut out: Vec<(String, Value)> = vec![];
                    for f in c {
                        let rel = f.strip_prefix(&root).unwrap().to_string_lossy().to_string();
                        let src = std::fs::read_to_string(&f).unwrap_or_default();
                        let v = match syn::parse_file(&src) {
                            Ok(file) => json!({"file":rel,"items":items(&file.items),"dead": !live(&file.attrs)}),
                            Err(e) => json!({"file":rel,"error":format!("{}", e)}),
                        };
                        out.push((rel, v));
                    }
                    out
                })
                .unwrap()
        })
        .collect();
    let mut all = vec![];
    for h in hs {
        all.extend(h.join().unwrap());
    }
    all.sort_by(|a, b| a.0.cmp(&b.0));
    let v = Value::Array(all.into_iter().map(|x| x.1).collect());
    let s = serde_json::to_string(&v).unwrap();
    if a.len() > 2 {
        std::fs::write(&a[2], s).unwrap();
    } else {
        println!("{}", s);
    }
    eprintln!("parsed {} files", n);
}
