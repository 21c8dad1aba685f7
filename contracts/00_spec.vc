// Specifications shared by the properties: databases and regular expressions
spec
/// the pattern matches at the start of s
pub open spec fn find0(r: Re, s: Seq<char>) -> bool { re_find(r, s) is Some && (re_find(r, s)->0).0 == 0 }
/// the pattern matches all of s
pub open spec fn whole(r: Re, s: Seq<char>) -> bool { re_find(r, s) is Some && re_find(r, s)->0 == (0int, s.len() as int) }
/// how the loader wraps the patterns of descriptions
pub open spec fn anchored_pat(p: Seq<char>) -> Seq<char> { "^(?:"@ + p + "\n)$"@ }
pub open spec fn anchored(r: Re) -> bool { r.ws && !r.ic && exists|p: Seq<char>| r.pat == #[trigger] anchored_pat(p) }
/// ASSUMED (regex): a pattern `^(?:P\n)$` that compiles in verbose mode matches whole texts or nothing
#[verifier::external_body]
pub broadcast proof fn axiom_anchored(r: Re, s: Seq<char>)
    requires anchored(r)
    ensures #[trigger] re_caps(r, s) is Some ==> whole(r, s)
{ }
broadcast use axiom_anchored;

pub open spec fn o_anchored(d: Option<metadata__descriptor__Descriptor>) -> bool { d is Some ==> anchored((d->0).national_number@) }
pub open spec fn meta_wf(m: metadata__metadata__Metadata) -> bool {
    let d = m.descriptors;
    &&& anchored(d.general.national_number@)
    &&& increasing(d.general.possible_length@)
    &&& o_anchored(d.fixed_line) && o_anchored(d.mobile) && o_anchored(d.toll_free) && o_anchored(d.premium_rate)
    &&& o_anchored(d.shared_cost) && o_anchored(d.personal_number) && o_anchored(d.voip) && o_anchored(d.pager)
    &&& o_anchored(d.uan) && o_anchored(d.emergency) && o_anchored(d.voicemail) && o_anchored(d.short_code)
    &&& o_anchored(d.standard_rate) && o_anchored(d.carrier) && o_anchored(d.no_international)
}
pub open spec fn code_wf(db: metadata__database__Database, c: u16) -> bool {
    let rs = db.regions@[c]@;
    let ms = db.by_code@[c]@;
    &&& db.regions@.dom().contains(c)
    &&& rs.len() == ms.len() && rs.len() > 0
    &&& forall|j: int| 0 <= j < ms.len() ==> (#[trigger] ms[j]).country_code == c && ms[j].id == rs[j] && meta_wf(ms[j])
    &&& forall|j: int| 0 <= j < rs.len() ==> db.by_id@.dom().contains(#[trigger] rs[j])
}
/// what Database::from establishes and nothing changes afterwards
pub open spec fn db_wf(db: metadata__database__Database) -> bool {
    &&& forall|c: u16| #[trigger] db.by_code@.dom().contains(c) ==> code_wf(db, c)
    &&& forall|c: u16| #[trigger] db.regions@.dom().contains(c) ==> db.by_code@.dom().contains(c)
    &&& forall|i: Str| #[trigger] db.by_id@.dom().contains(i) ==> meta_wf(db.by_id@[i]) && db.by_id@[i].id == i && db.by_code@.dom().contains(db.by_id@[i].country_code)
}
pub open spec fn str_of(s: Seq<char>) -> Str { Str { s: Ghost(s) } }

spec[C10]
/// country::Id: the text of an identifier is its name, and a name is read as its identifier
pub closed spec fn id_str(i: country__Id) -> Seq<char> { country__Id_name(i) }
pub closed spec fn id_of(s: Seq<char>) -> Option<country__Id> { country__Id_of(s) }
pub broadcast proof fn lemma_id(s: Seq<char>)
    ensures (#[trigger] id_of(s)) is Some ==> id_str(id_of(s)->0) == s
{ lemma_country__Id_of(s); }
broadcast use lemma_id;
pub proof fn lemma_id_inverse(i: country__Id)
    ensures id_of(id_str(i)) == Some(i)
{ lemma_country__Id_inv(i); }
pub proof fn lemma_id_def(s: Seq<char>)
    ensures id_of(s) == country__Id_of(s)
{ }
pub proof fn lemma_id_str(i: country__Id)
    ensures id_str(i) == country__Id_name(i)
{ }

spec[!C10]
/// country::Id (under contract in C10)
pub uninterp spec fn id_of(s: Seq<char>) -> Option<country__Id>;
pub uninterp spec fn id_str(i: country__Id) -> Seq<char>;
#[verifier::external_body]
pub broadcast proof fn lemma_id(s: Seq<char>)
    ensures (#[trigger] id_of(s)) is Some ==> id_str(id_of(s)->0) == s
{ }
broadcast use lemma_id;

fn <country::Id as std::str::FromStr>::from_str (s)
  opts once
  opts noreveal
  ensures[*,C10] match r { Ok(i) => id_of(s@) == Some(i), Err(_) => id_of(s@) is None }
  start proof { lemma_id_def(s@); }

fn <country::Id as std::convert::AsRef<str>>::as_ref (i)
  opts once
  opts noreveal
  ensures[*,C10] r@ == id_str(i)
  start proof { lemma_id_str(i); }

static metadata::database::DEFAULT ()
  opts once
  ensures[*,C18] db_wf(r)
