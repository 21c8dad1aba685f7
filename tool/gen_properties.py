import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
PAR="src/parser/mod.rs"; HLP="src/parser/helper.rs"; NAT="src/parser/natural.rs"; RFC="src/parser/rfc3966.rs"; VAL="src/parser/valid.rs"
FMT="src/formatter.rs"; VLD="src/validator.rs"; PN="src/phone_number.rs"; NN="src/national_number.rs"; DB="src/metadata/database.rs"; LD="src/metadata/loader.rs"; DE="src/metadata/descriptor.rs"; MD="src/metadata/metadata.rs"; CN="src/consts.rs"; CO="src/country.rs"

p("C01","Parsing and viability checks never panic and always return",
  "For every string (any Unicode, any length), every optional region and every database that loaded, parsing a phone number returns a number or an error, and the viability test returns a truth value. Neither panics, overflows an integer, slices inside a character or loops forever.",
  ["inputs","configurations"],"all strings x all regions (including none and regions the database lacks) x all loadable databases",
  "Tests parse a few dozen well-formed numbers; byte-offset slicing, unwraps and arithmetic fail only on particular Unicode text or on a region or metadata shape no test uses.",
  [PAR,HLP,NAT,RFC,VAL,VLD],[("parse_with",PAR),("country_code, international_prefix, national_number, trim, extract",HLP),("nom grammars",RFC),("viability grammar",VAL)],["phonenumber::parse","phonenumber::parse_with","phonenumber::is_viable"])
p("C02","Formatting and classifying a parsed number never panics or fails",
  "Every number obtained by parsing can, with the database it was parsed with, be written in every format mode (with or without an explicitly chosen format of that database), and its type, validity, metadata and country can be asked for. None of this panics or reports a formatting error.",
  ["inputs","configurations"],"all parsed numbers x four modes x all formats of the database x all loadable databases",
  "The formatter panics when metadata, a format rule or the first group is missing; tests format a handful of numbers of well-known regions.",
  [FMT,VLD,PN,HLP],[("Display for Formatter, formatter, replace",FMT),("number_type, source_for",VLD),("Country::id",PN)],["Display of Formatter","PhoneNumber::{is_valid,number_type,metadata,country}"])
p("C03","Every successfully parsed number is well formed",
  "Whenever parsing succeeds, the country code is one the database has metadata for, the national number consists of 2 to 17 decimal digits, and an extension, if present, is a nonempty string of ASCII digits, and a carrier code, if present, consists of ASCII digits only.",
  ["inputs","configurations"],"all strings x regions x loadable databases",
  "Tests compare a few results; they cannot show that no input yields a number with an unknown code, a one-digit national number or an extension containing other characters.",
  [PAR,HLP,NN],[("length and code checks of parse_with",PAR),("country_code, normalize",HLP)],["phonenumber::parse_with"])
p("C04","National numbers keep value and leading zeros exactly",
  "A national number built from a value below 2^56 and a zero count, or read from a nonempty digit string with at most 255 leading zeros (the last digit not counted) and such a value, reports exactly that value, converts to exactly that integer, reports that number of zeros and is written as exactly those digits. A value of 2^56 or more, more zeros than that, or a text that is not digits is refused with an error.",
  ["inputs"],"all 64-bit values x all 8-bit zero counts; all digit strings",
  "Value and zero count share one 64-bit word; tests use small values and one or two zeros, never the edges of the packing or all-zero strings.",
  [NN],[("bit packing of NationalNumber",NN)],["NationalNumber::{new,value,zeros}","Display, FromStr, From for u64"],[("NationalNumber.value","zeros in the top 8 bits, value in the low 56","src/national_number.rs")])
p("C05","Digits of all scripts and vanity letters are read as the keypad digits",
  "In a parsed number every decimal digit of a supported script counts as its ASCII digit, in the order written, and punctuation is dropped. Letters A to Z in either case become their telephone keypad digits when the number as written contains at least three ASCII letters, and are dropped otherwise.",
  ["inputs"],"all national texts over digits of the sixteen supported scripts, ASCII letters and punctuation; all regions",
  "Tests try one or two scripts and vanity numbers; a wrong row in the digit or keypad table or a changed threshold shows only for particular characters.",
  [HLP,CN,PAR],[("normalize",HLP),("as_dec_digit",HLP),("ALPHA_PHONE_MAPPINGS",CN)],["phonenumber::parse_with"])
p("C06","Numbers with a leading plus do not depend on the region",
  "A number written with a leading plus sign (ASCII or fullwidth) followed by a digit other than zero yields the same result, number or failure, whichever region is supplied or none. In particular no international prefix of the region is looked for in it.",
  ["inputs","configurations"],"all strings that begin with a plus and a nonzero digit x all pairs of regions x all loadable databases",
  "Tests parse international numbers with one region each; a region whose dialling prefix coincides with leading digits of the number is needed to see a difference.",
  [PAR,HLP,VLD],[("country_code, international_prefix",HLP),("choice of metadata in parse_with",PAR)],["phonenumber::parse_with"])
p("C07","Dialling with the international prefix equals writing a plus",
  "When the digits of a number start with the region's international dialling prefix ('00' if no region is given) and what follows does not begin with zero, the number is read as if a plus stood in place of the prefix: same country code, national number and extension. Its source is then recorded as the dialling prefix.",
  ["inputs","configurations"],"all regions' dialling prefixes x all digit strings after them x all loadable databases",
  "Tests use two or three dialling prefixes; prefixes are regular expressions and overlap with national numbers in ways only particular digits show.",
  [HLP,PAR],[("international_prefix, country_code",HLP)],["phonenumber::parse_with","country::Code::source"])
p("C08","National prefix and carrier code are stripped only when that is safe",
  "The national prefix (with its carrier code and transform rule) is removed, once, only if it matches at the start and a national number that was valid under the region's general pattern is still valid afterwards; the carrier code is recorded only when the prefix pattern captured one and the number was stripped. Stripping that would leave a number shorter than every possible length of the region is undone altogether.",
  ["inputs","configurations"],"all national digit strings x all regions' prefix rules x all loadable databases",
  "Depends on the interplay of prefix pattern, transform rule, capture groups and possible lengths of each region; tests cover a handful of regions.",
  [HLP,PAR,VLD],[("national_number",HLP),("length guard in parse_with",PAR),("length",VLD)],["phonenumber::parse_with","PhoneNumber::carrier"])
p("C09","The number type follows the metadata, in the documented precedence",
  "A number has a type other than unknown only if its metadata's general description and that type's description match it completely, by an anchored pattern and, if lengths are listed, by exact length. Types are tried in the order premium rate, toll free, shared cost, VoIP, personal, pager, UAN, voicemail, then fixed line and mobile, and 'fixed line or mobile' is reported exactly when both match or fixed line matches and both share one pattern.",
  ["inputs","configurations"],"all numbers x all metadata of all loadable databases",
  "Tests check a few example numbers per type; partial pattern matches, equal lengths and overlapping types need particular digits.",
  [VLD,DE],[("number_type",VLD),("Descriptor::is_match",DE)],["PhoneNumber::number_type_with","Descriptor::is_match"])
p("C10","Validity, type, country and metadata of a number agree",
  "A number is valid exactly when its type is not unknown. Its metadata (and country) is that of the only region with its country code, or of the first region of that code, in database order, whose leading digits match at the start or, if it lists none, in which the number has a type; leading zeros count in all of this.",
  ["inputs","configurations"],"all numbers (any code, any national number with leading zeros) x all loadable databases",
  "Shared calling codes (+1, +44, +7, +39) resolve by leading digits or by type; tests sample a few numbers and rarely ones with leading zeros.",
  [VLD,PN],[("source_for, is_valid_with, number_type",VLD),("metadata, country, number_type_with",PN)],["PhoneNumber::{is_valid_with,number_type_with,metadata,country}"])
p("C12","The viability test accepts exactly the viable texts",
  "The viability test accepts a text exactly if it consists of two digits, or of any number of plus signs, then at least three digits with only punctuation or stars before and between them, followed by nothing but further digits, ASCII letters, punctuation and stars. Digits of all supported scripts count, and the whole text has to be of this form.",
  ["inputs"],"all strings",
  "Tests try about twenty strings; the accepted language is defined over all Unicode strings.",
  [VLD,VAL,HLP],[("is_viable",VLD),("nom grammar of viable numbers",VAL),("punctuation, digit, plus, star, ieof",HLP)],["phonenumber::is_viable"])
p("C13","Equality and hashing ignore how the country code was found",
  "Two phone numbers are equal exactly if country code value, national number, extension and carrier agree; how the country code was determined plays no role. Equal numbers, and equal country codes, feed identical data to every hasher.",
  ["inputs"],"all pairs of phone numbers with all four sources",
  "Tests compare a few pairs; that no fifth component or the source enters equality or the hash is a statement about all pairs.",
  [PN,CO,NN],[("PartialEq and Hash of country::Code",CO),("derived PartialEq and Hash of PhoneNumber",PN)],["== and Hash of PhoneNumber and country::Code"])
p("C14","E.164 output is exactly plus, country code and national number",
  "Written in E.164 mode, which is the default of formatting and of Display, a number is exactly a plus sign, the country code in decimal without leading zeros and the national number with its leading zeros. No metadata, format, extension or carrier changes that, and no other character appears.",
  ["inputs","configurations"],"all phone numbers whose code the database knows x all formats x all loadable databases",
  "Tests print a few numbers; leading zeros, extensions, carriers or explicit formats are not combined with this mode.",
  [FMT,PN],[("Display for Formatter, E164 arm",FMT)],["Display of Formatter and PhoneNumber"])
p("C15","Other modes are assembled as documented around the formatted number",
  "International is '+', code, a space and the national number formatted without national prefix; National is the national number formatted with the rule's national prefix or, if the number has a carrier and the format a carrier rule, with the carrier; both append the region's extension prefix (or ' ext. ') and the extension when there is one. RFC 3966 is 'tel:+', code, '-', the international body with every run of separators turned into one hyphen, and ';ext=' with the extension when there is one.",
  ["inputs","configurations"],"all phone numbers whose code the database knows x three modes x chosen or explicit format x all loadable databases",
  "Tests format a few numbers and hardly combine extensions, carriers, explicit formats and modes.",
  [FMT],[("Display for Formatter, replace",FMT)],["Display of Formatter"])
p("C16","The format used is the first that applies",
  "The format of a number is the first in the list of the mode (the international list if it is nonempty and the mode is not National, else the national list) of the code's main region whose last leading-digits pattern, if any, matches at the start and whose own pattern matches the entire national number. If none applies the national number is written as its plain digits; an explicitly chosen format takes precedence.",
  ["inputs","configurations"],"all phone numbers x all format lists of all loadable databases",
  "Which rule wins depends on the digits; tests cover few rules of few regions and no overlapping rules.",
  [FMT],[("formatter",FMT)],["Display of Formatter"])
p("C17","Formatting keeps the digits of the national number",
  "In the International and RFC 3966 output of a number the digits of the national number appear complete and in order after the country code, with nothing but separators (in RFC 3966: hyphens) between them. This holds with every database whose formats for these modes show the groups of their pattern in order; all shipped formats do.",
  ["inputs","configurations"],"all phone numbers x all databases with such formats, the shipped one included",
  "Which format applies and what it makes of the digits depends on the number; there are about 700 shipped formats for these modes, of which tests use a few.",
  [FMT],[("replace",FMT)],["Display of Formatter"])
p("C18","The database indexes agree with the metadata it was built from",
  "Looking a region up by identifier yields the metadata last given for it, looking a code up yields exactly the metadata with that code with the main country first and otherwise in the order given, and the regions of a code are listed in that same order. Every metadata keeps the attributes and descriptions it was loaded with, and its general description lists, sorted and without duplicates, exactly the lengths that any of its descriptions lists (not counting no-international), and as local-only lengths those listed as local-only and not otherwise possible.",
  ["configurations"],"all lists of territories that load",
  "Tests look up a few regions of the shipped database; ordering and union depend on how territories are arranged.",
  [DB,MD],[("Database::from",DB),("general_lengths",DB)],["Database::{by_id,by_code,region}","Metadata accessors"])
p("C19","Loading metadata reports defects as errors and never panics",
  "Loading any text as metadata returns a database or an error and never panics, overflows the stack or loops. Metadata lacking an identifier, country code, general description or a description's pattern, or holding an invalid pattern, code or possible length, is refused; lists and ranges of possible lengths are expanded exactly.",
  ["inputs"],"all XML and non-XML texts; all possible-length texts",
  "Tests load one well-formed file; each missing or malformed element is a separate path.",
  [LD,DB],[("territory, descriptor, format, lengths, ignore",LD),("Database::from",DB)],["Database::parse","metadata::loader::load"])
p("C20","An extension is recognised and split off exactly",
  "A number followed by a recognised extension marker and one to seven digits parses to the same number as without it, with exactly these digits (as ASCII) as the extension. A text without a marker, or whose marker has no digits, has no extension.",
  ["inputs"],"all numbers x all extension markers of the grammar in any case x all digit strings of one to seven digits of any script",
  "Tests try a few marker spellings; the marker grammar has several alternatives with separate capture groups.",
  [HLP,NAT,CN,PAR],[("extract, trim",HLP),("EXTN_PATTERN",CN),("natural::phone_number",NAT)],["phonenumber::parse_with","PhoneNumber::extension"])
p("C21","RFC 3966 numbers take their country code from plus or phone-context",
  "In an RFC 3966 text (optional 'tel:', no spaces, parameters after semicolons, and after a plus at least one separator) the digits after a plus up to the first separator are tried as country code, otherwise the phone-context parameter is, without its plus; if these digits are not themselves a known code they are read together with the digits that follow. The ext parameter is the extension, and later parameters of the same name win.",
  ["inputs","configurations"],"all RFC 3966 texts x regions x loadable databases",
  "Tests hold three such numbers; where separators stand, unknown prefixes and repeated parameters are not covered.",
  [RFC,PAR,HLP],[("rfc3966::phone_number",RFC),("country_code",HLP)],["phonenumber::parse_with"])
p("C22","Parsing the E.164 form of a parsed number gives the number back",
  "If a parsed number's national number does not itself begin with its region's national prefix and no shorter known country code is a prefix of its country code, then parsing its E.164 form, with any region or none, yields the same country code and national number. The result has no extension and no carrier.",
  ["inputs","configurations"],"all parsed numbers of at most three code digits, nonzero code x all regions x all loadable databases",
  "Tests round-trip a few numbers; the round trip goes through viability, normalisation, code lookup, prefix stripping and packing.",
  [PAR,HLP,FMT,NN],[("parse_with",PAR),("Display for Formatter",FMT)],["phonenumber::parse_with","Display of PhoneNumber"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
