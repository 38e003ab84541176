//! A text type of a user of the crates: any sequence of chunks, empty ones included.

use kul::parser::AllocError;
use kul::{Text, TextBase, TextChunk, TextConcat};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub struct Gappy<C>(pub Vec<C>);

impl<C: TextChunk> From<C> for Gappy<C> {
    fn from(c: C) -> Self {
        Gappy(vec![c])
    }
}
impl<C: TextChunk, TT: Text> PartialEq<TT> for Gappy<C> {
    fn eq(&self, o: &TT) -> bool {
        Text::eq(self, o)
    }
}
impl<C: TextChunk> Eq for Gappy<C> {}
impl<C: TextChunk, TT: Text> PartialOrd<TT> for Gappy<C> {
    fn partial_cmp(&self, o: &TT) -> Option<std::cmp::Ordering> {
        Some(Text::cmp(self, o))
    }
}
impl<C: TextChunk> Ord for Gappy<C> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        Text::cmp(self, o)
    }
}
impl<C: TextChunk> Hash for Gappy<C> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        Text::hash(self, h)
    }
}
impl<C: TextChunk> TextBase for Gappy<C> {
    type Pos = C::Pos;
    fn empty() -> Self {
        Gappy(vec![])
    }
    fn is_empty(&self) -> bool {
        self.0.iter().all(|c| c.is_empty())
    }
}
impl<C: TextChunk> Text for Gappy<C> {
    type Chunk = C;
    type IterChunksState = [C];
    fn iter_chunks_state(&self) -> Option<&[C]> {
        Some(&self.0)
    }
}
impl<C: TextChunk, DA> TextConcat<DA> for Gappy<C> {
    fn concat(mut self, o: Self, _: &mut DA) -> Result<Self, AllocError> {
        self.0.extend(o.0);
        Ok(self)
    }
}
