//! The system's readers and writers, with its answers in the model's terms.
use crate::{
    io::MemIo,
    run::Rng,
    text::{Dt, Why},
};
use nanvm_lib::{
    js::any::Any,
    mem::manager::{Dealloc, Manager},
    parser::{
        parser::{parse, parse_with_tokens, Context},
        shared::{DataType, ModuleCache, ParseError, ParseResult},
    },
    tokenizer::{tokenize, TokenizerStateIterator},
};

pub fn dt(d: &DataType) -> Dt {
    match d {
        DataType::Json => Dt::Json,
        DataType::Djs => Dt::Djs,
        DataType::Cjs => Dt::Cjs,
        DataType::Mjs => Dt::Mjs,
    }
}

pub fn why(e: &ParseError) -> Why {
    match e {
        ParseError::CannotReadFile => Why::Read,
        ParseError::CircularDependency => Why::Cycle,
        _ => Why::Syntax,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    File,
    Eager,
    Lazy,
}

pub fn any_how(r: &mut Rng) -> How {
    *r.pick(&[How::File, How::File, How::Eager, How::Lazy])
}

/// Reads the text as the file at `path`.
pub fn read_text<M: Manager + 'static>(
    m: M,
    io: &MemIo,
    cache: &mut ModuleCache<M::Dealloc>,
    path: &str,
    text: &str,
    how: How,
) -> Result<(Dt, Any<M::Dealloc>), ParseError> {
    if how == How::File {
        io.put(path, text.as_bytes());
    }
    let mut c = Context::new(m, io, path.to_string(), cache);
    let r = match how {
        How::File => parse(&mut c),
        How::Eager => parse_with_tokens(&mut c, tokenize(m, text.to_string()).into_iter()),
        How::Lazy => parse_with_tokens(&mut c, TokenizerStateIterator::new(m, text.chars())),
    };
    answer(r)
}

pub fn read_file<M: Manager + 'static>(
    m: M,
    io: &MemIo,
    cache: &mut ModuleCache<M::Dealloc>,
    path: &str,
) -> Result<(Dt, Any<M::Dealloc>), ParseError> {
    answer(parse(&mut Context::new(m, io, path.to_string(), cache)))
}

/// Reads over a context which may have been used before: the root is the file or the text.
pub fn read_over<M: Manager + 'static>(
    m: M,
    c: &mut Context<M, MemIo>,
    text: &str,
    how: How,
) -> Result<(Dt, Any<M::Dealloc>), ParseError> {
    answer(match how {
        How::File => parse(c),
        How::Eager => parse_with_tokens(c, tokenize(m, text.to_string()).into_iter()),
        How::Lazy => parse_with_tokens(c, TokenizerStateIterator::new(m, text.chars())),
    })
}

fn answer<D: Dealloc>(r: Result<ParseResult<D>, ParseError>) -> Result<(Dt, Any<D>), ParseError> {
    r.map(|r| (dt(&r.data_type), r.any))
}
