pub struct Span { _p: u8 }
pub trait Spanned { fn span(&self) -> Span; }
