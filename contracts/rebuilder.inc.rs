// ------------------------------------------------------------ building a matcher from the texts
//@ assume regex-syntax: `parse` and `ParserBuilder::new().utf8(b).build().parse` give the tree of a text (repetitions with min <= max), or an error
//@ rewrite text of a reference :: re.into() ==> string_(re)
//@ rewrite the parser's settings as a function :: self.build_impl(|re| ParserBuilder::new().utf8($b).build().parse(re)) ==> { let f_ = |re: &str| -> (r_: Result<Hir, RegexError>) ensures r_ == parsed($b, re@), r_ is Ok ==> sane(r_->Ok_0.kind) { parse_as_($b, re) }; proof { assert(parses(f_, $b)); } self.build_impl(c_, Ghost($b), f_) }
//@ rewrite function as a closure :: self.build_impl(parse) ==> { let f_ = |re: &str| -> (r_: Result<Hir, RegexError>) ensures r_ == parsed(true, re@), r_ is Ok ==> sane(r_->Ok_0.kind) { parse(re) }; proof { assert(parses(f_, true)); } self.build_impl(c_, Ghost(true), f_) }
//@ rewrite the global counter as a parameter :: fn build<S>(self) ==> fn build<S>(self, c_: &mut Ids)
//@ rewrite the global counter as a parameter :: fn build_bytes<S>(self) ==> fn build_bytes<S>(self, c_: &mut Ids)
//@ rewrite the global counter as a parameter :: fn build_impl<R, S>(self, ==> fn build_impl<R, S>(self, c_: &mut Ids, u_: Ghost<bool>,
//@ rewrite adapters of results to matches :: re_parse(&re).map_err(|e| $g).and_then(|hir| Mir::new(hir).map_err(Error::Mir)).map(|mir| $h) ==> match re_parse(re.as_str()) { Ok(hir) => { let ghost h_ = hir; match Mir::new(hir) { Ok(mir) => { let k_ = $h; Ok(k_) } Err(x_) => Err(Error::Mir(x_)) } } Err(e) => Err($g) }
//@ rewrite clone to a function with its contract :: clone_(tag) ==> clone_(&tag)
//@ rewrite comma :: DFA::new(NFA::new(mir), $b,) ==> DFA::new(NFA::new(mir), $b)
//@ rewrite the global counter as a parameter :: RegexMatcher::new(StateTransTable::new(DFA::new(NFA::new(mir), $b))) ==> { let n_ = NFA::new(c_, mir); let ghost a1_ = n_; let d_ = DFA::new(c_, n_, $b); let ghost d1_ = d_; let t_ = StateTransTable::new(d_); let ghost t1_ = t_; let q_ = RegexMatcher::new(t_); q_ }
//@ rewrite iterator adapters to a loop :: Mir::Alter(self.re_tags.into_iter().map(|(re, tag)| { $e }).collect::<Result<_, _>>()?$o_c).optimize().map(|mir| { $f }).map_err(Error::Mir) ==> { let mut o_: Vec<(Mir<S, T>, Option<T>)> = Vec::new(); for p_ in self.re_tags { let (re, tag) = p_; match $e { Ok(x_) => { o_.push(x_); } Err(x_) => { return Err(x_); } } } let a_ = Mir::Alter(o_); match a_.optimize() { Ok(mir) => { let ghost g_ = mir; let m_ = $f; Ok(m_) } Err(x_) => Err(Error::Mir(x_)) } }
#[verifier::external_body]
pub struct RegexError { x: u8 }
/// What the parser gives for a text, with or without the restriction to UTF-8.
pub uninterp spec fn parsed(utf8: bool, text: Seq<char>) -> Result<Hir, RegexError>;
#[verifier::external_body]
fn parse_as_(utf8: bool, re: &str) -> (r: Result<Hir, RegexError>) ensures r == parsed(utf8, re@), r is Ok ==> sane(r->Ok_0.kind) { unimplemented!() }
#[verifier::external_body]
fn parse(re: &str) -> (r: Result<Hir, RegexError>) ensures r == parsed(true, re@), r is Ok ==> sane(r->Ok_0.kind) { unimplemented!() }
#[verifier::external_body]
fn string_(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub open spec fn texts<T>(p: Seq<(String, T)>) -> Seq<Seq<char>> { Seq::new(p.len(), |j: int| p[j].0@) }
pub open spec fn tags_of<T>(p: Seq<(String, T)>) -> Seq<T> { Seq::new(p.len(), |j: int| p[j].1) }
/// The texts parse to the trees.
pub open spec fn trees(utf8: bool, ts: Seq<Seq<char>>, hs: Seq<Hir>) -> bool { hs.len() == ts.len() && forall|j: int| 0 <= j < ts.len() ==> parsed(utf8, #[trigger] ts[j]) == Ok::<Hir, RegexError>(hs[j]) }
/// The first n texts parse to the trees.
pub open spec fn read_upto<T>(utf8: bool, p: Seq<(String, T)>, n: int, hs: Seq<Hir>) -> bool { trees(utf8, texts(p).take(n), hs) }
/// The function is the parser.
pub open spec fn parses<R: Fn(&str) -> Result<Hir, RegexError>>(f: R, utf8: bool) -> bool {
  &&& forall|s: &str| #[trigger] f.requires((s,))
  &&& forall|s: &str, r: Result<Hir, RegexError>| #[trigger] f.ensures((s,), r) ==> r == parsed(utf8, s@) && (r is Ok ==> sane(r->Ok_0.kind))
}
pub open spec fn told<T>(r: Option<&T>) -> Option<T> { match r { Some(t) => Some(*t), None => None } }
/// The matcher tells the smallest tag of the expressions which match.
pub open spec fn decided<S, T>(hs: Seq<Hir>, ts: Seq<T>, m: RegexMatcher<S, T>) -> bool {
  &&& m.table.wf() && m.state == m.table.init_id
  &&& forall|w: Seq<S>| smallest(hs, ts, w, told(#[trigger] m.verdict(w)))
}
pub open spec fn built_from<S, T>(utf8: bool, p: Seq<(String, T)>, r: Result<RegexMatcher<S, T>, Error<T>>) -> bool {
  match r {
    Ok(m) => p.len() > 0 && exists|hs: Seq<Hir>| #[trigger] trees(utf8, texts(p), hs) && decided(hs, tags_of(p), m),
    Err(Error::EmptyBuilder) => p.len() == 0,
    Err(Error::Regex(e, t)) => exists|j: int| 0 <= j < p.len() && parsed(utf8, (#[trigger] p[j]).0@) == Err::<Hir, RegexError>(*e) && p[j].1 == t,
    Err(Error::Mir(e)) => {
      ||| exists|j: int| 0 <= j < p.len() && parsed(utf8, (#[trigger] p[j]).0@) is Ok && refused::<S>(parsed(utf8, p[j].0@)->Ok_0.kind, e)
      ||| e is MatchesNothing && exists|hs: Seq<Hir>| #[trigger] trees(utf8, texts(p), hs) && !all_regular::<S>(hs)
    }
  }
}
//@ item laps_regex/src/re.rs enum Error
//@ end
//@ item laps_regex/src/re.rs struct RegexBuilder
//@ end
//@ item laps_regex/src/re.rs impl RegexBuilder#0
//@ fn new
    ensures r.re_tags@ == Seq::<(String, T)>::empty(),
//@ fn add
    ensures texts(r.re_tags@) == texts(self.re_tags@).push(re@), tags_of(r.re_tags@) == tags_of(self.re_tags@).push(tag),
//@ fn enable_par
    ensures r.re_tags == self.re_tags,
//@ end
//@ item laps_regex/src/re.rs impl RegexBuilder#1
//@ fn build
    ensures built_from(true, self.re_tags@, r),
//@ fn build_bytes
    ensures built_from(false, self.re_tags@, r),
//@ fn build_impl
    requires parses(re_parse, u_@),
    ensures built_from(u_@, self.re_tags@, r),
//@ entry
    let ghost p = self.re_tags@;
    let ghost mut hs = Seq::<Hir>::empty();
//@ loop 0
    invariant it0.seq() == p, parses(re_parse, u_@), read_upto(u_@, p, it0.index@ as int, hs), all_built(hs, tags_of(p), o_@), p == self.re_tags@,
//@ after let k_ = $s_e;
          proof {
            hs = hs.push(h_);
            assert(texts(p)[it0.index@ as int] == re@);
            assert(tags_of(p)[it0.index@ as int] == tag);
          }
//@ after let a_ = $s_e;
    proof {
      assert(texts(p).take(p.len() as int) =~= texts(p));
      list_means(hs, tags_of(p), a_->Alter_0);
    }
//@ after let d_ = $s_e;
        proof { dfa_wf(d_, a1_, g_); }
//@ after let q_ = $s_e;
        proof {
          let ids = choose|ids: Map<usize, usize>| #[trigger] t1_.of(d1_, ids);
          assert forall|w: Seq<S>| smallest(hs, tags_of(p), w, told(#[trigger] q_.verdict(w))) by {
            assert(told(q_.verdict(w)) == table_verdict(t1_, w));
            table_least(t1_, d1_, ids, a1_, g_, w);
            least_smallest(hs, tags_of(p), a_, g_, w, table_verdict(t1_, w));
          }
          assert(decided(hs, tags_of(p), q_));
        }
//@ end
