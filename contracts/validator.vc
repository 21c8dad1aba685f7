// C09, C10: type, validity, metadata and country of a number
spec
/// the description matches all of s
pub open spec fn d_match(d: metadata__descriptor__Descriptor, s: Seq<char>) -> bool {
    (d.possible_length@.len() == 0 || (blen(s) <= 0xffff && d.possible_length@.contains(blen(s) as u16))) && whole(d.national_number@, s)
}
pub open spec fn o_match(d: Option<metadata__descriptor__Descriptor>, s: Seq<char>) -> bool { d is Some && d_match(d->0, s) }
/// the type of s according to the metadata
pub open spec fn kind_spec(m: metadata__metadata__Metadata, s: Seq<char>) -> phone_number__Type {
    let d = m.descriptors;
    if !d_match(d.general, s) { phone_number__Type::Unknown }
    else if o_match(d.premium_rate, s) { phone_number__Type::PremiumRate }
    else if o_match(d.toll_free, s) { phone_number__Type::TollFree }
    else if o_match(d.shared_cost, s) { phone_number__Type::SharedCost }
    else if o_match(d.voip, s) { phone_number__Type::Voip }
    else if o_match(d.personal_number, s) { phone_number__Type::PersonalNumber }
    else if o_match(d.pager, s) { phone_number__Type::Pager }
    else if o_match(d.uan, s) { phone_number__Type::Uan }
    else if o_match(d.voicemail, s) { phone_number__Type::Voicemail }
    else if o_match(d.fixed_line, s) {
        if o_match(d.mobile, s) || (d.mobile is Some && (d.mobile->0).national_number@.pat == (d.fixed_line->0).national_number@.pat) {
            phone_number__Type::FixedLineOrMobile
        } else { phone_number__Type::FixedLine }
    }
    else if o_match(d.mobile, s) { phone_number__Type::Mobile }
    else { phone_number__Type::Unknown }
}
/// the region claims the number: by its leading digits or, without any, because the number has a type there
pub open spec fn claims(m: metadata__metadata__Metadata, s: Seq<char>) -> bool {
    match m.leading_digits { Some(p) => find0(p@, s), None => kind_spec(m, s) != phone_number__Type::Unknown }
}
/// the first region of the list that claims the number
pub open spec fn pick(db: metadata__database__Database, rs: Seq<Str>, s: Seq<char>) -> Option<Str>
    decreases rs.len()
{
    if rs.len() == 0 { None } else if claims(db.by_id@[rs[0]], s) { Some(rs[0]) } else { pick(db, rs.skip(1), s) }
}
/// the only region of the code, or the first that claims the number
pub open spec fn region_spec(db: metadata__database__Database, code: u16, s: Seq<char>) -> Option<Str> {
    if !db.regions@.dom().contains(code) { None }
    else if db.regions@[code]@.len() == 1 { Some(db.regions@[code]@[0]) }
    else { pick(db, db.regions@[code]@, s) }
}
pub open spec fn sole_world(db: metadata__database__Database, code: u16) -> bool {
    db.regions@[code]@.len() == 1 && db.regions@[code]@[0]@ == "001"@
}
pub open spec fn source_spec(db: metadata__database__Database, code: u16, s: Seq<char>) -> Option<Either<country__Id, u16>> {
    match region_spec(db, code, s) {
        None => None,
        Some(g) => if sole_world(db, code) { Some(Either::Right(code)) }
            else { match id_of(g@) { Some(i) => Some(Either::Left(i)), None => None } },
    }
}
/// the metadata of a number
pub open spec fn meta_spec(db: metadata__database__Database, code: u16, s: Seq<char>) -> Option<metadata__metadata__Metadata> {
    match region_spec(db, code, s) {
        None => None,
        Some(g) => if sole_world(db, code) { Some(db.by_code@[code]@[0]) }
            else if id_of(g@) is Some { Some(db.by_id@[g]) } else { None },
    }
}
pub open spec fn type_spec(db: metadata__database__Database, code: u16, s: Seq<char>) -> phone_number__Type {
    match meta_spec(db, code, s) { Some(m) => kind_spec(m, s), None => phone_number__Type::Unknown }
}
pub open spec fn pn_meta(n: phone_number__PhoneNumber, db: metadata__database__Database) -> Option<metadata__metadata__Metadata> {
    meta_spec(db, n.code.value, nn_str(n.national))
}
pub open spec fn pn_type(n: phone_number__PhoneNumber, db: metadata__database__Database) -> phone_number__Type {
    type_spec(db, n.code.value, nn_str(n.national))
}
pub proof fn lemma_pick(db: metadata__database__Database, rs: Seq<Str>, s: Seq<char>)
    ensures pick(db, rs, s) is Some ==> rs.contains(pick(db, rs, s)->0)
    decreases rs.len()
{
    if rs.len() > 0 && !claims(db.by_id@[rs[0]], s) {
        lemma_pick(db, rs.skip(1), s);
        if pick(db, rs, s) is Some {
            let j = choose|j: int| 0 <= j < rs.skip(1).len() && rs.skip(1)[j] == pick(db, rs, s)->0;
            assert(rs[j + 1] == pick(db, rs, s)->0);
        }
    }
}
pub broadcast proof fn lemma_region(db: metadata__database__Database, code: u16, s: Seq<char>)
    requires db_wf(db)
    ensures (#[trigger] region_spec(db, code, s)) is Some ==> db.by_code@.dom().contains(code) && code_wf(db, code) && db.by_id@.dom().contains(region_spec(db, code, s)->0)
{
    if db.regions@.dom().contains(code) {
        assert(db.by_code@.dom().contains(code));
        assert(code_wf(db, code));
        lemma_pick(db, db.regions@[code]@, s);
    }
}
broadcast use lemma_region;

fn metadata::descriptor::Descriptor::is_match (d, s)
  requires anchored(d.national_number@)
  ensures[*,C09] r == d_match(d, s@)

fn validator::number_type (m, s)
  requires meta_wf(m)
  ensures[*,C09] r == kind_spec(m, s@)

fn validator::source_for (db, code, s)
  requires db_wf(db)
  ensures[*,C10] r == source_spec(db, code, s@)
  loop 0 for SeqV<Str>
    invariant db.regions@.dom().contains(code), db.regions@[code]@.len() != 1, code_wf(db, code),
      pick(db, db.regions@[code]@, s@) == pick(db, it0@, s@),
      forall|j: int| 0 <= j < it0@.len() ==> db.by_id@.dom().contains(#[trigger] it0@[j])
    lensures pick(db, db.regions@[code]@, s@) is None
    ldecreases it0@.len()

fn metadata::database::Database::by_id (db, i)
  ensures[*,C18] r == lookup(db.by_id@, i)

fn metadata::database::Database::by_code (db, c)
  ensures[*,C18] r is Some == db.by_code@.dom().contains(c), r is Some ==> r->0@ == db.by_code@[c]@
  end proof { if r is Some { assert(r->0@ =~= db.by_code@[c]@); } }

fn metadata::database::Database::region (db, c)
  ensures[*,C18] r is Some == db.regions@.dom().contains(c), r is Some ==> r->0@ == db.regions@[c]@
  end proof { if r is Some { assert(r->0@ =~= db.regions@[c]@); } }

fn validator::is_valid_with (db, n)
  requires db_wf(db)
  ensures[*,C10] r == (pn_type(n, db) != phone_number__Type::Unknown)

fn validator::is_valid (n)
  ensures[*,C10] r == (pn_type(n, metadata__database__DEFAULT_spec()) != phone_number__Type::Unknown)

fn phone_number::PhoneNumber::is_valid (n)
  ensures[*,C10] r == (pn_type(n, metadata__database__DEFAULT_spec()) != phone_number__Type::Unknown)

fn phone_number::PhoneNumber::is_valid_with (n, db)
  requires db_wf(db)
  ensures[*,C10] r == (pn_type(n, db) != phone_number__Type::Unknown)

fn phone_number::PhoneNumber::metadata (n, db)
  requires db_wf(db)
  ensures[*,C10] r == pn_meta(n, db)

fn phone_number::PhoneNumber::number_type (n)
  ensures[*,C10] r == pn_type(n, metadata__database__DEFAULT_spec())

fn phone_number::PhoneNumber::number_type_with (n, db)
  requires db_wf(db)
  ensures[*,C10] r == pn_type(n, db)

fn phone_number::Country::id (c)
  ensures[*,C10] r is Ok == (match pn_meta(c.0, metadata__database__DEFAULT_spec()) { Some(m) => id_of(m.id@) is Some, None => true })
  ensures[*,C10] r is Ok ==> r->Ok_0 == (match pn_meta(c.0, metadata__database__DEFAULT_spec()) { Some(m) => id_of(m.id@), None => None })

spec[C10]
/// a number is valid exactly if it has a type
pub proof fn valid_iff_typed(n: phone_number__PhoneNumber, db: metadata__database__Database)
    ensures pn_type(n, db) != phone_number__Type::Unknown <==> pn_meta(n, db) is Some && kind_spec(pn_meta(n, db)->0, nn_str(n.national)) != phone_number__Type::Unknown
{ }
/// the metadata is that of a region of the code, the country its identifier
pub proof fn metadata_of_code(n: phone_number__PhoneNumber, db: metadata__database__Database)
    requires db_wf(db), pn_meta(n, db) is Some
    ensures exists|j: int| 0 <= j < db.regions@[n.code.value]@.len() && db.regions@[n.code.value]@[j] == (pn_meta(n, db)->0).id
{
    let rs = db.regions@[n.code.value]@;
    let s = nn_str(n.national);
    lemma_region(db, n.code.value, s);
    lemma_pick(db, rs, s);
    let g = region_spec(db, n.code.value, s)->0;
    if rs.len() == 1 { assert(rs[0] == g); assert(db.by_code@[n.code.value]@[0].id == rs[0]); }
    else { let j = choose|j: int| 0 <= j < rs.len() && rs[j] == g; assert(rs[j] == g); }
}
spec[C09]
/// a type other than unknown: the general description and that of the type match
pub proof fn type_means_match(m: metadata__metadata__Metadata, s: Seq<char>)
    ensures kind_spec(m, s) != phone_number__Type::Unknown ==> d_match(m.descriptors.general, s) && match kind_spec(m, s) {
        phone_number__Type::PremiumRate => o_match(m.descriptors.premium_rate, s),
        phone_number__Type::TollFree => o_match(m.descriptors.toll_free, s),
        phone_number__Type::SharedCost => o_match(m.descriptors.shared_cost, s),
        phone_number__Type::Voip => o_match(m.descriptors.voip, s),
        phone_number__Type::PersonalNumber => o_match(m.descriptors.personal_number, s),
        phone_number__Type::Pager => o_match(m.descriptors.pager, s),
        phone_number__Type::Uan => o_match(m.descriptors.uan, s),
        phone_number__Type::Voicemail => o_match(m.descriptors.voicemail, s),
        phone_number__Type::FixedLine => o_match(m.descriptors.fixed_line, s) && !o_match(m.descriptors.mobile, s),
        phone_number__Type::FixedLineOrMobile => o_match(m.descriptors.fixed_line, s),
        phone_number__Type::Mobile => o_match(m.descriptors.mobile, s) && !o_match(m.descriptors.fixed_line, s),
        _ => false,
    }
{ }
