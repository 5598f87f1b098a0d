//! what `#[async_recursion]` does to a method, as far as emitted code needs it
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn refs(ts: TokenStream, n: &mut usize) -> TokenStream {
    let mut out = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        let amp = matches!(&t, TokenTree::Punct(p) if p.as_char() == '&');
        let t = match t {
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), refs(g.stream(), n))),
            t => t,
        };
        out.push(t);
        if amp && !matches!(it.peek(), Some(TokenTree::Punct(p)) if p.as_char() == '\'') {
            out.extend(format!("'life{}", n).parse::<TokenStream>().unwrap());
            *n += 1;
        }
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn async_recursion(_: TokenStream, item: TokenStream) -> TokenStream {
    let ts: Vec<TokenTree> = item.into_iter().collect();
    let mut i = 0;
    let mut head = vec![];
    while !matches!(&ts[i], TokenTree::Ident(x) if x.to_string() == "fn") {
        if !matches!(&ts[i], TokenTree::Ident(x) if x.to_string() == "async") {
            head.push(ts[i].clone());
        }
        i += 1;
    }
    let name = ts[i + 1].to_string();
    i += 2;
    // generics
    let (mut generics, mut depth) = (vec![], 0);
    let mut names = vec![];
    if matches!(&ts[i], TokenTree::Punct(p) if p.as_char() == '<') {
        loop {
            if let TokenTree::Punct(p) = &ts[i] {
                match p.as_char() {
                    '<' => depth += 1,
                    '>' if !matches!(&ts[i - 1], TokenTree::Punct(q) if q.as_char() == '-') => depth -= 1,
                    _ => {}
                }
            }
            if depth == 1 && matches!(&ts[i - 1], TokenTree::Punct(p) if p.as_char() == '<' || p.as_char() == ',') {
                if let TokenTree::Ident(x) = &ts[i] {
                    names.push(x.to_string());
                }
            }
            i += 1;
            if depth == 0 { break; }
            if !(depth == 1 && generics.is_empty() && matches!(&ts[i - 1], TokenTree::Punct(p) if p.as_char() == '<')) {
                generics.push(ts[i - 1].clone());
            }
        }
    }
    let mut n = 0;
    let args = match &ts[i] { TokenTree::Group(g) => refs(g.stream(), &mut n), _ => panic!("arguments") };
    i += 1;
    let mut ret = vec![];
    while !matches!(&ts[i], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace) {
        ret.push(ts[i].clone());
        i += 1;
    }
    let ret: TokenStream = ret.into_iter().skip(2).collect();
    let ret = if ret.is_empty() { "()".to_string() } else { ret.to_string() };
    let lifes: Vec<String> = (0..n).map(|k| format!("'life{}", k)).collect();
    let head: TokenStream = head.into_iter().collect();
    let generics: TokenStream = generics.into_iter().collect();
    let wher: Vec<String> = names.iter().chain(lifes.iter()).map(|x| format!("{}: 'async_recursion", x)).collect();
    format!(
        "{} fn {}<{} 'async_recursion, {}>({}) -> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = {}> + 'async_recursion + ::core::marker::Send>> where {} {{ Box::pin(async move {}) }}",
        head, name, lifes.iter().map(|l| format!("{}, ", l)).collect::<String>(), generics, args, ret, wher.join(", "), ts[i]
    ).parse().unwrap()
}
