// written by tools/gen_gtoken.py
//@ item gen mod t >> mod __token_ast_Tok >> struct Token0
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token0 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts0(k: Kind) -> bool { k == Kind::Op(Op::Add) }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token0 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported, and stays.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts0(t.kind) { r == Result::<Self>::Ok(Token0(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts0(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts0(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token0 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token1
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token1 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts1(k: Kind) -> bool { k == Kind::Eof }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token1 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported, and stays.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts1(t.kind) { r == Result::<Self>::Ok(Token1(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts1(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts1(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token1 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token2
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token2 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts2(k: Kind) -> bool { k == Kind::Int(7) }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token2 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported, and stays.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts2(t.kind) { r == Result::<Self>::Ok(Token2(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts2(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts2(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token2 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token3
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token3 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts3(k: Kind) -> bool { k == Kind::Op(Op::Mul(2)) }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token3 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported, and stays.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts3(t.kind) { r == Result::<Self>::Ok(Token3(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts3(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts3(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token3 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token4
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token4 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts4(k: Kind) -> bool { true }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token4 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported and skipped.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts4(t.kind) { r == Result::<Self>::Ok(Token4(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s.shift(1) },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts4(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts4(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token4 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token5
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token5 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts5(k: Kind) -> bool { k is Int }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token5 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported and skipped.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts5(t.kind) { r == Result::<Self>::Ok(Token5(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s.shift(1) },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts5(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts5(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token5 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token6
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token6 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts6(k: Kind) -> bool { k is Int && k->Int_0 > 0 }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token6 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported and skipped.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts6(t.kind) { r == Result::<Self>::Ok(Token6(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s.shift(1) },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts6(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts6(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token6 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token7
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token7 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts7(k: Kind) -> bool { k is Word && is_odd(k->Word_0) }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token7 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported and skipped.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts7(t.kind) { r == Result::<Self>::Ok(Token7(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s.shift(1) },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts7(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts7(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token7 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token8
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token8 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts8(k: Kind) -> bool { k == Kind::Op(Op::Add) || k == Kind::Op(Op::Sub) || k == Kind::Eof }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token8 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported and skipped.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts8(t.kind) { r == Result::<Self>::Ok(Token8(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s.shift(1) },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts8(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts8(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token8 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token9
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token9 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts9(k: Kind) -> bool { (k matches Kind::Op(Op::Mul(a)) && a < 3) || (k matches Kind::Op(Op::Div(a)) && a < 3) }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token9 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported and skipped.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts9(t.kind) { r == Result::<Self>::Ok(Token9(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s.shift(1) },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts9(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts9(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token9 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token10
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token10 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts10(k: Kind) -> bool { k is Int && 1 <= k->Int_0 <= 9 }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token10 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported and skipped.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts10(t.kind) { r == Result::<Self>::Ok(Token10(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s.shift(1) },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts10(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts10(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token10 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token11
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token11 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts11(k: Kind) -> bool { k is Pair && k->Pair_1 == Op::Sub }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token11 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported and skipped.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts11(t.kind) { r == Result::<Self>::Ok(Token11(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s.shift(1) },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts11(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts11(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token11 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> struct Token12
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl Token12 props=C23
//@ fn unwrap
    requires T::tried(self.0.kind) is Ok,
    ensures T::tried(self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ fn unwrap_ref
    requires T::tried(&self.0.kind) is Ok,
    ensures T::tried(&self.0.kind) == core::result::Result::<T, E>::Ok(r),
//@ end
pub open spec fn accepts12(k: Kind) -> bool { k is Named && k->x == 3 }
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::parse::Parse for Token12 props=C23
//@ ghost
  /// An accepted token is taken and held, any other one is reported and skipped.
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    match s.at(0) {
      Ok(t) => if accepts12(t.kind) { r == Result::<Self>::Ok(Token12(t)) && z == s.shift(1) } else { r == Result::<Self>::Err(Error::Normal) && z == s.shift(1) },
      Err(e) => r == Result::<Self>::Err(e) && z == s.shift(1),
    }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    match s.at(0) { Ok(t) => r == Result::<bool>::Ok(accepts12(t.kind)), Err(e) => r == Result::<bool>::Err(e) }
  }
  open spec fn one_token() -> bool { true }
  open spec fn accepts(t: TS::Token) -> bool { accepts12(t.kind) }
//@ fn parse
//@ fn maybe
//@ entry
    proof { peek2_default(tokens.rest()); }
//@ end
//@ item gen mod t >> mod __token_ast_Tok >> impl laps::span::Spanned for Token12 props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.0.span }
//@ fn span
//@ end
