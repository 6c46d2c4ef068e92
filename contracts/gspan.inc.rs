// written by tools/gen_gspan.py
//@ item gen mod s >> struct One
//@ end
//@ item gen mod s >> impl laps::span::Spanned for One props=C26
//@ ghost
  open spec fn sp(&self) -> Span { across(seq![Some(self.0.sp())]) }
  open spec fn wf(&self) -> bool { true }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 2); reveal_with_fuel(last_to, 2); }
//@ end
//@ item gen mod s >> struct Two
//@ end
//@ item gen mod s >> impl laps::span::Spanned for Two props=C26
//@ ghost
  open spec fn sp(&self) -> Span { across(seq![Some(self.a.sp()), Some(self.b.sp())]) }
  open spec fn wf(&self) -> bool { true }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 3); reveal_with_fuel(last_to, 3); }
//@ end
//@ item gen mod s >> struct Front
//@ end
//@ item gen mod s >> impl laps::span::Spanned for Front props=C26
//@ ghost
  open spec fn sp(&self) -> Span { across(seq![self.a.try_sp(), Some(self.b.sp())]) }
  open spec fn wf(&self) -> bool { true }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 3); reveal_with_fuel(last_to, 3); }
//@ end
//@ item gen mod s >> struct Back
//@ end
//@ item gen mod s >> impl laps::span::Spanned for Back props=C26
//@ ghost
  open spec fn sp(&self) -> Span { across(seq![Some(self.a.sp()), self.b.try_sp()]) }
  open spec fn wf(&self) -> bool { true }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 3); reveal_with_fuel(last_to, 3); }
//@ end
//@ item gen mod s >> struct Mid
//@ end
//@ item gen mod s >> impl laps::span::Spanned for Mid props=C26
//@ ghost
  open spec fn sp(&self) -> Span { across(seq![self.a.try_sp(), Some(self.b.sp()), self.c.try_sp()]) }
  open spec fn wf(&self) -> bool { true }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 4); reveal_with_fuel(last_to, 4); }
//@ end
//@ item gen mod s >> struct Outer
//@ end
//@ item gen mod s >> impl laps::span::Spanned for Outer props=C26
//@ ghost
  open spec fn sp(&self) -> Span { across(seq![self.0.try_sp(), self.1.try_sp(), Some(self.2.sp()), self.3.try_sp(), self.4.try_sp()]) }
  open spec fn wf(&self) -> bool { true }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 6); reveal_with_fuel(last_to, 6); }
//@ end
//@ item gen mod s >> struct Wide
//@ end
//@ item gen mod s >> impl laps::span::Spanned for Wide props=C26
//@ ghost
  open spec fn sp(&self) -> Span { across(seq![self.a.try_sp(), Some(self.b.sp()), self.c.try_sp(), Some(self.d.sp()), self.e.try_sp(), self.f.try_sp()]) }
  open spec fn wf(&self) -> bool { true }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 7); reveal_with_fuel(last_to, 7); }
//@ end
//@ item gen mod s >> struct Gen
//@ end
//@ item gen mod s >> impl laps::span::Spanned for Gen props=C26
//@ ghost
  open spec fn sp(&self) -> Span { across(seq![self.a.try_sp(), Some(self.t.sp()), self.b.try_sp()]) }
  open spec fn wf(&self) -> bool { self.t.wf() }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 4); reveal_with_fuel(last_to, 4); }
//@ end
//@ item gen mod s >> enum Sum
//@ end
//@ item gen mod s >> impl laps::span::Spanned for Sum props=C26
//@ ghost
  open spec fn sp(&self) -> Span { match self { Sum::A { 0: x0 } => across(seq![Some(x0.sp())]), Sum::B { 0: x0, 1: x1, 2: x2 } => across(seq![Some(x0.sp()), x1.try_sp(), Some(x2.sp())]), Sum::C { x: x0, y: x1, z: x2 } => across(seq![x0.try_sp(), Some(x1.sp()), x2.try_sp()]), Sum::D { 0: x0, 1: x1, 2: x2 } => across(seq![x0.try_sp(), x1.try_sp(), Some(x2.sp())]), } }
  open spec fn wf(&self) -> bool { match self { Sum::A { 0: x0 } => true, Sum::B { 0: x0, 1: x1, 2: x2 } => true, Sum::C { x: x0, y: x1, z: x2 } => true, Sum::D { 0: x0, 1: x1, 2: x2 } => true, } }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 4); reveal_with_fuel(last_to, 4); }
//@ end
//@ item gen mod s >> struct Ten
//@ end
//@ item gen mod s >> impl laps::span::Spanned for Ten props=C26
//@ ghost
  open spec fn sp(&self) -> Span { across(seq![self.0.try_sp(), self.1.try_sp(), self.2.try_sp(), Some(self.3.sp()), self.4.try_sp(), Some(self.5.sp()), self.6.try_sp(), self.7.try_sp(), self.8.try_sp(), self.9.try_sp()]) }
  open spec fn wf(&self) -> bool { true }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 11); reveal_with_fuel(last_to, 11); }
//@ end
//@ item gen mod s >> struct Raw
//@ end
//@ item gen mod s >> impl laps::span::Spanned for Raw props=C26
//@ ghost
  open spec fn sp(&self) -> Span { across(seq![self.r#type.try_sp(), Some(self.span.sp()), self.r#match.try_sp()]) }
  open spec fn wf(&self) -> bool { true }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 4); reveal_with_fuel(last_to, 4); }
//@ end
//@ item gen mod s >> enum Six
//@ end
//@ item gen mod s >> impl laps::span::Spanned for Six props=C26
//@ ghost
  open spec fn sp(&self) -> Span { match self { Six::A { 0: x0, 1: x1 } => across(seq![Some(x0.sp()), x1.try_sp()]), Six::B { w: x0 } => across(seq![Some(x0.sp())]), Six::C { x: x0, y: x1, z: x2 } => across(seq![x0.try_sp(), x1.try_sp(), Some(x2.sp())]), Six::D { 0: x0, 1: x1, 2: x2, 3: x3 } => across(seq![Some(x0.sp()), Some(x1.sp()), Some(x2.sp()), Some(x3.sp())]), Six::r#If { 0: x0, 1: x1, 2: x2, 3: x3, 4: x4 } => across(seq![x0.try_sp(), Some(x1.sp()), x2.try_sp(), Some(x3.sp()), x4.try_sp()]), Six::F { 0: x0, 1: x1, 2: x2, 3: x3 } => across(seq![Some(x0.sp()), x1.try_sp(), x2.try_sp(), x3.try_sp()]), } }
  open spec fn wf(&self) -> bool { match self { Six::A { 0: x0, 1: x1 } => true, Six::B { w: x0 } => true, Six::C { x: x0, y: x1, z: x2 } => true, Six::D { 0: x0, 1: x1, 2: x2, 3: x3 } => true, Six::r#If { 0: x0, 1: x1, 2: x2, 3: x3, 4: x4 } => true, Six::F { 0: x0, 1: x1, 2: x2, 3: x3 } => true, } }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 6); reveal_with_fuel(last_to, 6); }
//@ end
//@ item gen mod s >> enum GenSum
//@ end
//@ item gen mod s >> impl laps::span::Spanned for GenSum props=C26
//@ ghost
  open spec fn sp(&self) -> Span { match self { GenSum::A { 0: x0, 1: x1 } => across(seq![Some(x0.sp()), x1.try_sp()]), GenSum::B { x: x0, t: x1, y: x2 } => across(seq![x0.try_sp(), Some(x1.sp()), Some(x2.sp())]), } }
  open spec fn wf(&self) -> bool { match self { GenSum::A { 0: x0, 1: x1 } => x0.wf(), GenSum::B { x: x0, t: x1, y: x2 } => x1.wf() && x2.wf(), } }
//@ fn span
//@ entry
    proof { reveal_with_fuel(first_from, 4); reveal_with_fuel(last_to, 4); }
//@ end
