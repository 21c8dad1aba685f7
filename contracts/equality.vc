// C13: equality and hashing
spec
pub open spec fn ext_ev(e: Option<extension__Extension>) -> Seq<HashEv> {
    match e { Some(x) => seq![HashEv::U(1), HashEv::S(x.0@)], None => seq![HashEv::U(0)] }
}
pub open spec fn car_ev(e: Option<carrier__Carrier>) -> Seq<HashEv> {
    match e { Some(x) => seq![HashEv::U(1), HashEv::S(x.0@)], None => seq![HashEv::U(0)] }
}
/// the texts are the same, or both are absent
pub open spec fn ext_same(a: Option<extension__Extension>, b: Option<extension__Extension>) -> bool {
    a is Some == b is Some && (a is Some ==> (a->0).0@ == (b->0).0@)
}
pub open spec fn car_same(a: Option<carrier__Carrier>, b: Option<carrier__Carrier>) -> bool {
    a is Some == b is Some && (a is Some ==> (a->0).0@ == (b->0).0@)
}
/// what equality of numbers means: the source of the code is not part of it
pub open spec fn pn_same(a: phone_number__PhoneNumber, b: phone_number__PhoneNumber) -> bool {
    a.code.value == b.code.value && a.national.value == b.national.value && ext_same(a.extension, b.extension) && car_same(a.carrier, b.carrier)
}
/// what a number feeds to a hasher: again without the source
pub open spec fn pn_ev(a: phone_number__PhoneNumber) -> Seq<HashEv> {
    seq![HashEv::U(a.code.value as nat), HashEv::U(a.national.value as nat)] + ext_ev(a.extension) + car_ev(a.carrier)
}

spec[C13]
/// equal numbers are hashed alike, for any two sources
pub proof fn equal_hash_alike(a: phone_number__PhoneNumber, b: phone_number__PhoneNumber)
    ensures pn_same(a, b) ==> pn_ev(a) =~= pn_ev(b)
{
}
pub proof fn source_is_ignored(a: phone_number__PhoneNumber, s: country__Source)
    ensures pn_same(a, phone_number__PhoneNumber { code: country__Code { source: s, ..a.code }, ..a })
{
}
pub proof fn equality_is_an_equivalence(a: phone_number__PhoneNumber, b: phone_number__PhoneNumber, c: phone_number__PhoneNumber)
    ensures pn_same(a, a), pn_same(a, b) ==> pn_same(b, a), pn_same(a, b) && pn_same(b, c) ==> pn_same(a, c)
{
}
/// equal national numbers are written alike, and only those
pub proof fn national_equality(a: national_number__NationalNumber, b: national_number__NationalNumber)
    ensures a.value == b.value <==> nn_value(a) == nn_value(b) && nn_zeros(a) == nn_zeros(b)
{
    let (x, y) = (a.value, b.value);
    assert(x == y <==> (x & 0x00ff_ffff_ffff_ffff == y & 0x00ff_ffff_ffff_ffff && x >> 56 == y >> 56)) by (bit_vector);
}

fn <country::Code as std::cmp::PartialEq>::eq (a, b)
  ensures[*,C13] r == (a.value == b.value)

fn <country::Code as std::hash::Hash>::hash (a, h)
  ensures[*,C13] final(h)@ =~= old(h)@ + seq![HashEv::U(a.value as nat)]

fn <national_number::NationalNumber as std::cmp::PartialEq>::eq (a, b)
  ensures[*,C13] r == (a.value == b.value)

fn <national_number::NationalNumber as std::hash::Hash>::hash (a, h)
  ensures[*,C13] final(h)@ =~= old(h)@ + seq![HashEv::U(a.value as nat)]

fn <phone_number::PhoneNumber as std::cmp::PartialEq>::eq (a, b)
  ensures[*,C13] r == pn_same(a, b)

fn <phone_number::PhoneNumber as std::hash::Hash>::hash (a, h)
  ensures[*,C13] final(h)@ =~= old(h)@ + pn_ev(a)
