//! The system's tokens as the model's.
use crate::text::Tok;
use nanvm_lib::{
    js::js_bigint::Sign,
    mem::manager::{Dealloc, Manager},
    tokenizer::{JsonToken, TokenizerStateIterator},
};

pub fn tok<D: Dealloc>(t: &JsonToken<D>) -> Tok {
    match t {
        JsonToken::String(s) => Tok::Str(s.clone()),
        JsonToken::Number(n) => Tok::Num(n.to_bits()),
        JsonToken::ObjectBegin => Tok::P('{'),
        JsonToken::ObjectEnd => Tok::P('}'),
        JsonToken::ArrayBegin => Tok::P('['),
        JsonToken::ArrayEnd => Tok::P(']'),
        JsonToken::Colon => Tok::P(':'),
        JsonToken::Comma => Tok::P(','),
        JsonToken::Equals => Tok::P('='),
        JsonToken::Dot => Tok::P('.'),
        JsonToken::Semicolon => Tok::P(';'),
        JsonToken::OpeningParenthesis => Tok::P('('),
        JsonToken::ClosingParenthesis => Tok::P(')'),
        JsonToken::ErrorToken(_) => Tok::Err,
        JsonToken::BigInt(b) => Tok::Big(b.sign() == Sign::Negative, b.items().to_vec()),
        JsonToken::Id(s) => Tok::Id(s.clone()),
        JsonToken::NewLine => Tok::NL,
    }
}

pub fn eager<M: Manager + 'static>(m: M, t: &str) -> Vec<Tok> {
    nanvm_lib::tokenizer::tokenize(m, t.to_string())
        .iter()
        .map(tok)
        .collect()
}

/// The lazy reader, asked a few more times after its end.
pub fn lazy<M: Manager + 'static>(m: M, t: &str) -> Result<Vec<Tok>, String> {
    let mut i = TokenizerStateIterator::new(m, t.chars());
    let mut v = vec![];
    for x in i.by_ref() {
        v.push(tok(&x));
        if v.len() > 4 * t.len() + 16 {
            return Err(format!("more than {} tokens", v.len()));
        }
    }
    for _ in 0..3 {
        if let Some(x) = i.next() {
            return Err(format!("{:?} after the end", tok(&x)));
        }
    }
    Ok(v)
}

/// Up to the first error.
pub fn until_error(v: &[Tok]) -> &[Tok] {
    match v.iter().position(|t| *t == Tok::Err) {
        Some(i) => &v[..=i],
        None => v,
    }
}
