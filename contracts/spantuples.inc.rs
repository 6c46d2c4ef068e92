// written by tools/gen_spantuples.py
//@ expand src/span.rs impl_spanned_for_tuple 0
//@ item src/span.rs!impl_spanned_for_tuple0 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.1.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 1
//@ item src/span.rs!impl_spanned_for_tuple1 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.2.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.2.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 2
//@ item src/span.rs!impl_spanned_for_tuple2 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.3.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.3.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 3
//@ item src/span.rs!impl_spanned_for_tuple3 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.4.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.4.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 4
//@ item src/span.rs!impl_spanned_for_tuple4 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.5.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.5.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 5
//@ item src/span.rs!impl_spanned_for_tuple5 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.6.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.6.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 6
//@ item src/span.rs!impl_spanned_for_tuple6 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.7.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.7.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 7
//@ item src/span.rs!impl_spanned_for_tuple7 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.8.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.8.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 8
//@ item src/span.rs!impl_spanned_for_tuple8 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.9.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.9.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 9
//@ item src/span.rs!impl_spanned_for_tuple9 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.10.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.10.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 10
//@ item src/span.rs!impl_spanned_for_tuple10 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.11.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.11.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 11
//@ item src/span.rs!impl_spanned_for_tuple11 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.12.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.12.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 12
//@ item src/span.rs!impl_spanned_for_tuple12 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.13.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.13.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 13
//@ item src/span.rs!impl_spanned_for_tuple13 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.14.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.14.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 14
//@ item src/span.rs!impl_spanned_for_tuple14 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.15.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.15.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 15
//@ item src/span.rs!impl_spanned_for_tuple15 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.16.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.16.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 16
//@ item src/span.rs!impl_spanned_for_tuple16 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.17.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.17.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 17
//@ item src/span.rs!impl_spanned_for_tuple17 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.18.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.18.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 18
//@ item src/span.rs!impl_spanned_for_tuple18 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.19.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.19.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 19
//@ item src/span.rs!impl_spanned_for_tuple19 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.20.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.20.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 20
//@ item src/span.rs!impl_spanned_for_tuple20 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.21.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.21.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 21
//@ item src/span.rs!impl_spanned_for_tuple21 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.22.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.22.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 22
//@ item src/span.rs!impl_spanned_for_tuple22 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.23.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.23.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 23
//@ item src/span.rs!impl_spanned_for_tuple23 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.24.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.24.wf() }
//@ fn span
//@ end
//@ expand src/span.rs impl_spanned_for_tuple 24
//@ item src/span.rs!impl_spanned_for_tuple24 impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.25.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.25.wf() }
//@ fn span
//@ end
