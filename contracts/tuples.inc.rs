// written by tools/gen_tuples.py
//@ expand src/parse.rs impl_for_tuple 0
//@ item src/parse.rs!impl_for_tuple0 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && (r == Result::<Self>::Ok((v0,)) && z == q1))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 1
//@ item src/parse.rs!impl_for_tuple1 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && (r == Result::<Self>::Ok((v0, v1,)) && z == q2))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 2
//@ item src/parse.rs!impl_for_tuple2 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && (r == Result::<Self>::Ok((v0, v1, v2,)) && z == q3))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 3
//@ item src/parse.rs!impl_for_tuple3 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && (r == Result::<Self>::Ok((v0, v1, v2, v3,)) && z == q4))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 4
//@ item src/parse.rs!impl_for_tuple4 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4,)) && z == q5))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 5
//@ item src/parse.rs!impl_for_tuple5 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5,)) && z == q6))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 6
//@ item src/parse.rs!impl_for_tuple6 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6,)) && z == q7))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 7
//@ item src/parse.rs!impl_for_tuple7 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7,)) && z == q8))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 8
//@ item src/parse.rs!impl_for_tuple8 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8,)) && z == q9))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 9
//@ item src/parse.rs!impl_for_tuple9 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9,)) && z == q10))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 10
//@ item src/parse.rs!impl_for_tuple10 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10,)) && z == q11))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 11
//@ item src/parse.rs!impl_for_tuple11 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11,)) && z == q12))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 12
//@ item src/parse.rs!impl_for_tuple12 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12,)) && z == q13))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 13
//@ item src/parse.rs!impl_for_tuple13 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13,)) && z == q14))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 14
//@ item src/parse.rs!impl_for_tuple14 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14,)) && z == q15))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 15
//@ item src/parse.rs!impl_for_tuple15 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && ((r is Err && P::parses(q15, Result::<P>::Err(r->Err_0), z))
    || (exists|v15: P, q16: St<TS::Token>| #[trigger] P::parses(q15, Result::<P>::Ok(v15), q16) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15,)) && z == q16))))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 16
//@ item src/parse.rs!impl_for_tuple16 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && ((r is Err && P::parses(q15, Result::<P>::Err(r->Err_0), z))
    || (exists|v15: P, q16: St<TS::Token>| #[trigger] P::parses(q15, Result::<P>::Ok(v15), q16) && ((r is Err && Q::parses(q16, Result::<Q>::Err(r->Err_0), z))
    || (exists|v16: Q, q17: St<TS::Token>| #[trigger] Q::parses(q16, Result::<Q>::Ok(v16), q17) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16,)) && z == q17))))))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 17
//@ item src/parse.rs!impl_for_tuple17 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && ((r is Err && P::parses(q15, Result::<P>::Err(r->Err_0), z))
    || (exists|v15: P, q16: St<TS::Token>| #[trigger] P::parses(q15, Result::<P>::Ok(v15), q16) && ((r is Err && Q::parses(q16, Result::<Q>::Err(r->Err_0), z))
    || (exists|v16: Q, q17: St<TS::Token>| #[trigger] Q::parses(q16, Result::<Q>::Ok(v16), q17) && ((r is Err && R::parses(q17, Result::<R>::Err(r->Err_0), z))
    || (exists|v17: R, q18: St<TS::Token>| #[trigger] R::parses(q17, Result::<R>::Ok(v17), q18) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17,)) && z == q18))))))))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 18
//@ item src/parse.rs!impl_for_tuple18 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && ((r is Err && P::parses(q15, Result::<P>::Err(r->Err_0), z))
    || (exists|v15: P, q16: St<TS::Token>| #[trigger] P::parses(q15, Result::<P>::Ok(v15), q16) && ((r is Err && Q::parses(q16, Result::<Q>::Err(r->Err_0), z))
    || (exists|v16: Q, q17: St<TS::Token>| #[trigger] Q::parses(q16, Result::<Q>::Ok(v16), q17) && ((r is Err && R::parses(q17, Result::<R>::Err(r->Err_0), z))
    || (exists|v17: R, q18: St<TS::Token>| #[trigger] R::parses(q17, Result::<R>::Ok(v17), q18) && ((r is Err && S::parses(q18, Result::<S>::Err(r->Err_0), z))
    || (exists|v18: S, q19: St<TS::Token>| #[trigger] S::parses(q18, Result::<S>::Ok(v18), q19) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18,)) && z == q19))))))))))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 19
//@ item src/parse.rs!impl_for_tuple19 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && ((r is Err && P::parses(q15, Result::<P>::Err(r->Err_0), z))
    || (exists|v15: P, q16: St<TS::Token>| #[trigger] P::parses(q15, Result::<P>::Ok(v15), q16) && ((r is Err && Q::parses(q16, Result::<Q>::Err(r->Err_0), z))
    || (exists|v16: Q, q17: St<TS::Token>| #[trigger] Q::parses(q16, Result::<Q>::Ok(v16), q17) && ((r is Err && R::parses(q17, Result::<R>::Err(r->Err_0), z))
    || (exists|v17: R, q18: St<TS::Token>| #[trigger] R::parses(q17, Result::<R>::Ok(v17), q18) && ((r is Err && S::parses(q18, Result::<S>::Err(r->Err_0), z))
    || (exists|v18: S, q19: St<TS::Token>| #[trigger] S::parses(q18, Result::<S>::Ok(v18), q19) && ((r is Err && T::parses(q19, Result::<T>::Err(r->Err_0), z))
    || (exists|v19: T, q20: St<TS::Token>| #[trigger] T::parses(q19, Result::<T>::Ok(v19), q20) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19,)) && z == q20))))))))))))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 20
//@ item src/parse.rs!impl_for_tuple20 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && ((r is Err && P::parses(q15, Result::<P>::Err(r->Err_0), z))
    || (exists|v15: P, q16: St<TS::Token>| #[trigger] P::parses(q15, Result::<P>::Ok(v15), q16) && ((r is Err && Q::parses(q16, Result::<Q>::Err(r->Err_0), z))
    || (exists|v16: Q, q17: St<TS::Token>| #[trigger] Q::parses(q16, Result::<Q>::Ok(v16), q17) && ((r is Err && R::parses(q17, Result::<R>::Err(r->Err_0), z))
    || (exists|v17: R, q18: St<TS::Token>| #[trigger] R::parses(q17, Result::<R>::Ok(v17), q18) && ((r is Err && S::parses(q18, Result::<S>::Err(r->Err_0), z))
    || (exists|v18: S, q19: St<TS::Token>| #[trigger] S::parses(q18, Result::<S>::Ok(v18), q19) && ((r is Err && T::parses(q19, Result::<T>::Err(r->Err_0), z))
    || (exists|v19: T, q20: St<TS::Token>| #[trigger] T::parses(q19, Result::<T>::Ok(v19), q20) && ((r is Err && U::parses(q20, Result::<U>::Err(r->Err_0), z))
    || (exists|v20: U, q21: St<TS::Token>| #[trigger] U::parses(q20, Result::<U>::Ok(v20), q21) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20,)) && z == q21))))))))))))))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 21
//@ item src/parse.rs!impl_for_tuple21 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && ((r is Err && P::parses(q15, Result::<P>::Err(r->Err_0), z))
    || (exists|v15: P, q16: St<TS::Token>| #[trigger] P::parses(q15, Result::<P>::Ok(v15), q16) && ((r is Err && Q::parses(q16, Result::<Q>::Err(r->Err_0), z))
    || (exists|v16: Q, q17: St<TS::Token>| #[trigger] Q::parses(q16, Result::<Q>::Ok(v16), q17) && ((r is Err && R::parses(q17, Result::<R>::Err(r->Err_0), z))
    || (exists|v17: R, q18: St<TS::Token>| #[trigger] R::parses(q17, Result::<R>::Ok(v17), q18) && ((r is Err && S::parses(q18, Result::<S>::Err(r->Err_0), z))
    || (exists|v18: S, q19: St<TS::Token>| #[trigger] S::parses(q18, Result::<S>::Ok(v18), q19) && ((r is Err && T::parses(q19, Result::<T>::Err(r->Err_0), z))
    || (exists|v19: T, q20: St<TS::Token>| #[trigger] T::parses(q19, Result::<T>::Ok(v19), q20) && ((r is Err && U::parses(q20, Result::<U>::Err(r->Err_0), z))
    || (exists|v20: U, q21: St<TS::Token>| #[trigger] U::parses(q20, Result::<U>::Ok(v20), q21) && ((r is Err && V::parses(q21, Result::<V>::Err(r->Err_0), z))
    || (exists|v21: V, q22: St<TS::Token>| #[trigger] V::parses(q21, Result::<V>::Ok(v21), q22) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21,)) && z == q22))))))))))))))))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 22
//@ item src/parse.rs!impl_for_tuple22 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && ((r is Err && P::parses(q15, Result::<P>::Err(r->Err_0), z))
    || (exists|v15: P, q16: St<TS::Token>| #[trigger] P::parses(q15, Result::<P>::Ok(v15), q16) && ((r is Err && Q::parses(q16, Result::<Q>::Err(r->Err_0), z))
    || (exists|v16: Q, q17: St<TS::Token>| #[trigger] Q::parses(q16, Result::<Q>::Ok(v16), q17) && ((r is Err && R::parses(q17, Result::<R>::Err(r->Err_0), z))
    || (exists|v17: R, q18: St<TS::Token>| #[trigger] R::parses(q17, Result::<R>::Ok(v17), q18) && ((r is Err && S::parses(q18, Result::<S>::Err(r->Err_0), z))
    || (exists|v18: S, q19: St<TS::Token>| #[trigger] S::parses(q18, Result::<S>::Ok(v18), q19) && ((r is Err && T::parses(q19, Result::<T>::Err(r->Err_0), z))
    || (exists|v19: T, q20: St<TS::Token>| #[trigger] T::parses(q19, Result::<T>::Ok(v19), q20) && ((r is Err && U::parses(q20, Result::<U>::Err(r->Err_0), z))
    || (exists|v20: U, q21: St<TS::Token>| #[trigger] U::parses(q20, Result::<U>::Ok(v20), q21) && ((r is Err && V::parses(q21, Result::<V>::Err(r->Err_0), z))
    || (exists|v21: V, q22: St<TS::Token>| #[trigger] V::parses(q21, Result::<V>::Ok(v21), q22) && ((r is Err && W::parses(q22, Result::<W>::Err(r->Err_0), z))
    || (exists|v22: W, q23: St<TS::Token>| #[trigger] W::parses(q22, Result::<W>::Ok(v22), q23) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22,)) && z == q23))))))))))))))))))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 23
//@ item src/parse.rs!impl_for_tuple23 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && ((r is Err && P::parses(q15, Result::<P>::Err(r->Err_0), z))
    || (exists|v15: P, q16: St<TS::Token>| #[trigger] P::parses(q15, Result::<P>::Ok(v15), q16) && ((r is Err && Q::parses(q16, Result::<Q>::Err(r->Err_0), z))
    || (exists|v16: Q, q17: St<TS::Token>| #[trigger] Q::parses(q16, Result::<Q>::Ok(v16), q17) && ((r is Err && R::parses(q17, Result::<R>::Err(r->Err_0), z))
    || (exists|v17: R, q18: St<TS::Token>| #[trigger] R::parses(q17, Result::<R>::Ok(v17), q18) && ((r is Err && S::parses(q18, Result::<S>::Err(r->Err_0), z))
    || (exists|v18: S, q19: St<TS::Token>| #[trigger] S::parses(q18, Result::<S>::Ok(v18), q19) && ((r is Err && T::parses(q19, Result::<T>::Err(r->Err_0), z))
    || (exists|v19: T, q20: St<TS::Token>| #[trigger] T::parses(q19, Result::<T>::Ok(v19), q20) && ((r is Err && U::parses(q20, Result::<U>::Err(r->Err_0), z))
    || (exists|v20: U, q21: St<TS::Token>| #[trigger] U::parses(q20, Result::<U>::Ok(v20), q21) && ((r is Err && V::parses(q21, Result::<V>::Err(r->Err_0), z))
    || (exists|v21: V, q22: St<TS::Token>| #[trigger] V::parses(q21, Result::<V>::Ok(v21), q22) && ((r is Err && W::parses(q22, Result::<W>::Err(r->Err_0), z))
    || (exists|v22: W, q23: St<TS::Token>| #[trigger] W::parses(q22, Result::<W>::Ok(v22), q23) && ((r is Err && X::parses(q23, Result::<X>::Err(r->Err_0), z))
    || (exists|v23: X, q24: St<TS::Token>| #[trigger] X::parses(q23, Result::<X>::Ok(v23), q24) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23,)) && z == q24))))))))))))))))))))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 24
//@ item src/parse.rs!impl_for_tuple24 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && ((r is Err && P::parses(q15, Result::<P>::Err(r->Err_0), z))
    || (exists|v15: P, q16: St<TS::Token>| #[trigger] P::parses(q15, Result::<P>::Ok(v15), q16) && ((r is Err && Q::parses(q16, Result::<Q>::Err(r->Err_0), z))
    || (exists|v16: Q, q17: St<TS::Token>| #[trigger] Q::parses(q16, Result::<Q>::Ok(v16), q17) && ((r is Err && R::parses(q17, Result::<R>::Err(r->Err_0), z))
    || (exists|v17: R, q18: St<TS::Token>| #[trigger] R::parses(q17, Result::<R>::Ok(v17), q18) && ((r is Err && S::parses(q18, Result::<S>::Err(r->Err_0), z))
    || (exists|v18: S, q19: St<TS::Token>| #[trigger] S::parses(q18, Result::<S>::Ok(v18), q19) && ((r is Err && T::parses(q19, Result::<T>::Err(r->Err_0), z))
    || (exists|v19: T, q20: St<TS::Token>| #[trigger] T::parses(q19, Result::<T>::Ok(v19), q20) && ((r is Err && U::parses(q20, Result::<U>::Err(r->Err_0), z))
    || (exists|v20: U, q21: St<TS::Token>| #[trigger] U::parses(q20, Result::<U>::Ok(v20), q21) && ((r is Err && V::parses(q21, Result::<V>::Err(r->Err_0), z))
    || (exists|v21: V, q22: St<TS::Token>| #[trigger] V::parses(q21, Result::<V>::Ok(v21), q22) && ((r is Err && W::parses(q22, Result::<W>::Err(r->Err_0), z))
    || (exists|v22: W, q23: St<TS::Token>| #[trigger] W::parses(q22, Result::<W>::Ok(v22), q23) && ((r is Err && X::parses(q23, Result::<X>::Err(r->Err_0), z))
    || (exists|v23: X, q24: St<TS::Token>| #[trigger] X::parses(q23, Result::<X>::Ok(v23), q24) && ((r is Err && Y::parses(q24, Result::<Y>::Err(r->Err_0), z))
    || (exists|v24: Y, q25: St<TS::Token>| #[trigger] Y::parses(q24, Result::<Y>::Ok(v24), q25) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23, v24,)) && z == q25))))))))))))))))))))))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ expand src/parse.rs impl_for_tuple 25
//@ item src/parse.rs!impl_for_tuple25 impl Parse for props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    (r is Err && A::parses(s, Result::<A>::Err(r->Err_0), z))
    || (exists|v0: A, q1: St<TS::Token>| #[trigger] A::parses(s, Result::<A>::Ok(v0), q1) && ((r is Err && B::parses(q1, Result::<B>::Err(r->Err_0), z))
    || (exists|v1: B, q2: St<TS::Token>| #[trigger] B::parses(q1, Result::<B>::Ok(v1), q2) && ((r is Err && C::parses(q2, Result::<C>::Err(r->Err_0), z))
    || (exists|v2: C, q3: St<TS::Token>| #[trigger] C::parses(q2, Result::<C>::Ok(v2), q3) && ((r is Err && D::parses(q3, Result::<D>::Err(r->Err_0), z))
    || (exists|v3: D, q4: St<TS::Token>| #[trigger] D::parses(q3, Result::<D>::Ok(v3), q4) && ((r is Err && E::parses(q4, Result::<E>::Err(r->Err_0), z))
    || (exists|v4: E, q5: St<TS::Token>| #[trigger] E::parses(q4, Result::<E>::Ok(v4), q5) && ((r is Err && F::parses(q5, Result::<F>::Err(r->Err_0), z))
    || (exists|v5: F, q6: St<TS::Token>| #[trigger] F::parses(q5, Result::<F>::Ok(v5), q6) && ((r is Err && G::parses(q6, Result::<G>::Err(r->Err_0), z))
    || (exists|v6: G, q7: St<TS::Token>| #[trigger] G::parses(q6, Result::<G>::Ok(v6), q7) && ((r is Err && H::parses(q7, Result::<H>::Err(r->Err_0), z))
    || (exists|v7: H, q8: St<TS::Token>| #[trigger] H::parses(q7, Result::<H>::Ok(v7), q8) && ((r is Err && I::parses(q8, Result::<I>::Err(r->Err_0), z))
    || (exists|v8: I, q9: St<TS::Token>| #[trigger] I::parses(q8, Result::<I>::Ok(v8), q9) && ((r is Err && J::parses(q9, Result::<J>::Err(r->Err_0), z))
    || (exists|v9: J, q10: St<TS::Token>| #[trigger] J::parses(q9, Result::<J>::Ok(v9), q10) && ((r is Err && K::parses(q10, Result::<K>::Err(r->Err_0), z))
    || (exists|v10: K, q11: St<TS::Token>| #[trigger] K::parses(q10, Result::<K>::Ok(v10), q11) && ((r is Err && L::parses(q11, Result::<L>::Err(r->Err_0), z))
    || (exists|v11: L, q12: St<TS::Token>| #[trigger] L::parses(q11, Result::<L>::Ok(v11), q12) && ((r is Err && M::parses(q12, Result::<M>::Err(r->Err_0), z))
    || (exists|v12: M, q13: St<TS::Token>| #[trigger] M::parses(q12, Result::<M>::Ok(v12), q13) && ((r is Err && N::parses(q13, Result::<N>::Err(r->Err_0), z))
    || (exists|v13: N, q14: St<TS::Token>| #[trigger] N::parses(q13, Result::<N>::Ok(v13), q14) && ((r is Err && O::parses(q14, Result::<O>::Err(r->Err_0), z))
    || (exists|v14: O, q15: St<TS::Token>| #[trigger] O::parses(q14, Result::<O>::Ok(v14), q15) && ((r is Err && P::parses(q15, Result::<P>::Err(r->Err_0), z))
    || (exists|v15: P, q16: St<TS::Token>| #[trigger] P::parses(q15, Result::<P>::Ok(v15), q16) && ((r is Err && Q::parses(q16, Result::<Q>::Err(r->Err_0), z))
    || (exists|v16: Q, q17: St<TS::Token>| #[trigger] Q::parses(q16, Result::<Q>::Ok(v16), q17) && ((r is Err && R::parses(q17, Result::<R>::Err(r->Err_0), z))
    || (exists|v17: R, q18: St<TS::Token>| #[trigger] R::parses(q17, Result::<R>::Ok(v17), q18) && ((r is Err && S::parses(q18, Result::<S>::Err(r->Err_0), z))
    || (exists|v18: S, q19: St<TS::Token>| #[trigger] S::parses(q18, Result::<S>::Ok(v18), q19) && ((r is Err && T::parses(q19, Result::<T>::Err(r->Err_0), z))
    || (exists|v19: T, q20: St<TS::Token>| #[trigger] T::parses(q19, Result::<T>::Ok(v19), q20) && ((r is Err && U::parses(q20, Result::<U>::Err(r->Err_0), z))
    || (exists|v20: U, q21: St<TS::Token>| #[trigger] U::parses(q20, Result::<U>::Ok(v20), q21) && ((r is Err && V::parses(q21, Result::<V>::Err(r->Err_0), z))
    || (exists|v21: V, q22: St<TS::Token>| #[trigger] V::parses(q21, Result::<V>::Ok(v21), q22) && ((r is Err && W::parses(q22, Result::<W>::Err(r->Err_0), z))
    || (exists|v22: W, q23: St<TS::Token>| #[trigger] W::parses(q22, Result::<W>::Ok(v22), q23) && ((r is Err && X::parses(q23, Result::<X>::Err(r->Err_0), z))
    || (exists|v23: X, q24: St<TS::Token>| #[trigger] X::parses(q23, Result::<X>::Ok(v23), q24) && ((r is Err && Y::parses(q24, Result::<Y>::Err(r->Err_0), z))
    || (exists|v24: Y, q25: St<TS::Token>| #[trigger] Y::parses(q24, Result::<Y>::Ok(v24), q25) && ((r is Err && Z::parses(q25, Result::<Z>::Err(r->Err_0), z))
    || (exists|v25: Z, q26: St<TS::Token>| #[trigger] Z::parses(q25, Result::<Z>::Ok(v25), q26) && (r == Result::<Self>::Ok((v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17, v18, v19, v20, v21, v22, v23, v24, v25,)) && z == q26))))))))))))))))))))))))))))))))))))))))))))))))))))
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { A::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
