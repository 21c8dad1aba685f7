//! The databases the checks run against, each with its reference reading.
use crate::xml::*;
use phonenumber::metadata::{Database, DATABASE};

pub struct Db {
    pub name: &'static str,
    pub xml: &'static str,
    pub real: &'static Database,
    pub rf: RDb,
}

pub const REAL: &str = include_str!("/repo/assets/PhoneNumberMetadata.xml");
pub const TESTING: &str = include_str!("/repo/assets/PhoneNumberMetadataForTesting.xml");

/// what the shipped metadata does not use
pub const ODD: &str = r#"<!DOCTYPE x [
]>
<phoneNumberMetadata>
  <territories>
    <!-- two regions for one code, the main one second, leading digits first -->
    <territory id="FR" countryCode="31" leadingDigits="7|82" internationalPrefix="00|011" nationalPrefix="0" preferredExtnPrefix=" poste "
      nationalPrefixForParsing="0(?:(8\d)(\d+)|9)?" nationalPrefixTransformRule="7$2" carrierCodeFormattingRule="$NP$CC $FG">
      <references><sourceUrl>x</sourceUrl></references>
      <generalDesc><nationalNumberPattern>7\d{3,7}|82\d{4}</nationalNumberPattern></generalDesc>
      <noInternationalDialling><possibleLengths national="3"/><nationalNumberPattern>799</nationalNumberPattern></noInternationalDialling>
      <fixedLine><possibleLengths national="[4-6]" localOnly="3,12"/><exampleNumber>71234</exampleNumber><nationalNumberPattern>7[1-4]\d{2,4}</nationalNumberPattern></fixedLine>
      <mobile><possibleLengths national="5,8"/><exampleNumber>73234567</exampleNumber><nationalNumberPattern>7[3-5]\d{3}(?:\d{3})?</nationalNumberPattern></mobile>
      <voip><possibleLengths national="6"/><exampleNumber>821234</exampleNumber><nationalNumberPattern>82\d{4}</nationalNumberPattern></voip>
      <availableFormats>
        <numberFormat pattern="(\d{2})(\d{3})" nationalPrefixFormattingRule="($NP$FG)"><leadingDigits>9</leadingDigits><leadingDigits>7[12]</leadingDigits><format>$1-$2</format></numberFormat>
        <numberFormat pattern="(\d{2})(\d{3})"><leadingDigits>7</leadingDigits><format>$1.$2</format><intlFormat>NA</intlFormat></numberFormat>
        <numberFormat pattern="(\d)(\d{3,7})" carrierCodeFormattingRule="$CC~$FG~$NP"><format>$1/$2</format><intlFormat>$1 (0) $2</intlFormat></numberFormat>
      </availableFormats>
    </territory>
    <territory id="NL" countryCode="31" mainCountryForCode="true" internationalPrefix="00" nationalPrefix="0">
      <generalDesc><nationalNumberPattern>[1-6]\d{4,8}|0\d{5}</nationalNumberPattern></generalDesc>
      <fixedLine><possibleLengths national="[5-7]"/><exampleNumber>2012345</exampleNumber><nationalNumberPattern>[12]\d{4,6}|0\d{5}</nationalNumberPattern></fixedLine>
      <mobile><possibleLengths national="9"/><exampleNumber>612345678</exampleNumber><nationalNumberPattern>6\d{8}</nationalNumberPattern></mobile>
      <tollFree><possibleLengths national="6"/><exampleNumber>123456</exampleNumber><nationalNumberPattern>12\d{4}</nationalNumberPattern></tollFree>
      <pager><possibleLengths national="6"/><exampleNumber>123456</exampleNumber><nationalNumberPattern>12[34]\d{3}</nationalNumberPattern></pager>
      <availableFormats>
        <numberFormat pattern="(\d{2})(\d{3,5})" nationalPrefixFormattingRule="$NP$FG"><leadingDigits>[12]</leadingDigits><format>$1 $2</format></numberFormat>
        <numberFormat pattern="\d{6}"><format>six</format></numberFormat>
        <numberFormat pattern="(\d)(\d{5})(\d{3})" nationalPrefixFormattingRule="$FG"><leadingDigits>6</leadingDigits><format>$1-$2-$3</format></numberFormat>
      </availableFormats>
    </territory>
    <!-- lengths everywhere, no national prefix pattern, prefix looks like a number -->
    <territory id="BE" countryCode="4" internationalPrefix="9(?:9|8)?" nationalPrefix="12">
      <generalDesc><nationalNumberPattern>\d{4,6}</nationalNumberPattern></generalDesc>
      <fixedLine><possibleLengths national="4,6" localOnly="2"/><exampleNumber>1234</exampleNumber><nationalNumberPattern>[1-5]\d{3}(?:\d\d)?</nationalNumberPattern></fixedLine>
      <mobile><possibleLengths national="4,6" localOnly="2"/><exampleNumber>1234</exampleNumber><nationalNumberPattern>[1-5]\d{3}(?:\d\d)?</nationalNumberPattern></mobile>
      <uan><possibleLengths national="6"/><exampleNumber>612345</exampleNumber><nationalNumberPattern>61\d{4}</nationalNumberPattern></uan>
    </territory>
    <territory id="001" countryCode="800" internationalPrefix="" >
      <generalDesc><nationalNumberPattern>\d{8}</nationalNumberPattern></generalDesc>
      <tollFree><possibleLengths national="8"/><exampleNumber>12345678</exampleNumber><nationalNumberPattern>\d{8}</nationalNumberPattern></tollFree>
      <availableFormats><numberFormat pattern="(\d{4})(\d{4})"><format>$1 $2</format></numberFormat></availableFormats>
    </territory>
    <!-- not a region anybody can ask for -->
    <territory id="QQ" countryCode="97" internationalPrefix="00" nationalPrefix="8" nationalPrefixForParsing="8">
      <generalDesc><nationalNumberPattern>[2-8]\d{2,16}</nationalNumberPattern></generalDesc>
      <personalNumber><possibleLengths national="[3-17]"/><exampleNumber>2345</exampleNumber><nationalNumberPattern>2\d+</nationalNumberPattern></personalNumber>
    </territory>
    <!-- a rule that does not yield digits -->
    <territory id="GR" countryCode="96" internationalPrefix="00" nationalPrefixForParsing="8(\d)" nationalPrefixTransformRule="+$1">
      <generalDesc><nationalNumberPattern>[2-7]\d{1,9}</nationalNumberPattern></generalDesc>
    </territory>
    <territory id="QR" countryCode="98" internationalPrefix="00">
      <generalDesc><nationalNumberPattern>\d+</nationalNumberPattern></generalDesc>
    </territory>
    <territory id="IT" countryCode="98" internationalPrefix="00">
      <generalDesc><nationalNumberPattern>0?[1-9]\d+</nationalNumberPattern></generalDesc>
      <fixedLine><exampleNumber>0612345</exampleNumber><nationalNumberPattern>0\d{4,18}</nationalNumberPattern></fixedLine>
      <sharedCost><possibleLengths national="7"/><exampleNumber>8412345</exampleNumber><nationalNumberPattern>84\d{5}</nationalNumberPattern></sharedCost>
      <voicemail><possibleLengths national="7"/><exampleNumber>8412345</exampleNumber><nationalNumberPattern>8[45]\d{5}</nationalNumberPattern></voicemail>
      <premiumRate><possibleLengths national="7"/><exampleNumber>8512345</exampleNumber><nationalNumberPattern>85\d{5}</nationalNumberPattern></premiumRate>
    </territory>
    <!-- one pattern for fixed lines and mobiles, but other lengths -->
    <territory id="CH" countryCode="93" internationalPrefix="00">
      <generalDesc><nationalNumberPattern>\d{6,8}</nationalNumberPattern></generalDesc>
      <fixedLine><possibleLengths national="6,7"/><exampleNumber>234567</exampleNumber><nationalNumberPattern>[2-9]\d{5,7}</nationalNumberPattern></fixedLine>
      <mobile><possibleLengths national="8"/><exampleNumber>23456789</exampleNumber><nationalNumberPattern>[2-9]\d{5,7}</nationalNumberPattern></mobile>
    </territory>
    <!-- any two types overlap -->
    <territory id="PT" countryCode="95" internationalPrefix="00">
      <generalDesc><nationalNumberPattern>[2-9]\d{11}</nationalNumberPattern></generalDesc>
      <sharedCost><exampleNumber>1111111111</exampleNumber><nationalNumberPattern>[2-9]\d{2}[135]\d{8}</nationalNumberPattern></sharedCost>
      <voip><exampleNumber>1111111111</exampleNumber><nationalNumberPattern>[2-9]\d{3}[135]\d{7}</nationalNumberPattern></voip>
      <tollFree><exampleNumber>1111111111</exampleNumber><nationalNumberPattern>[2-9]\d{1}[135]\d{9}</nationalNumberPattern></tollFree>
      <premiumRate><exampleNumber>1111111111</exampleNumber><nationalNumberPattern>[2-9]\d{0}[135]\d{10}</nationalNumberPattern></premiumRate>
      <fixedLine><exampleNumber>1111111111</exampleNumber><nationalNumberPattern>[2-9]\d{8}[135]\d{2}</nationalNumberPattern></fixedLine>
      <voicemail><exampleNumber>1111111111</exampleNumber><nationalNumberPattern>[2-9]\d{7}[135]\d{3}</nationalNumberPattern></voicemail>
      <uan><exampleNumber>1111111111</exampleNumber><nationalNumberPattern>[2-9]\d{6}[135]\d{4}</nationalNumberPattern></uan>
      <pager><exampleNumber>1111111111</exampleNumber><nationalNumberPattern>[2-9]\d{5}[135]\d{5}</nationalNumberPattern></pager>
      <personalNumber><exampleNumber>1111111111</exampleNumber><nationalNumberPattern>[2-9]\d{4}[135]\d{6}</nationalNumberPattern></personalNumber>
      <mobile><exampleNumber>1111111111</exampleNumber><nationalNumberPattern>[2-9]\d{9}[135]\d{1}</nationalNumberPattern></mobile>
    </territory>
    <!-- a transform rule that makes valid numbers of some and invalid ones of others -->
    <territory id="ES" countryCode="94" internationalPrefix="00" nationalPrefix="0" nationalPrefixForParsing="0([78])" nationalPrefixTransformRule="$1">
      <generalDesc><nationalNumberPattern>0\d{5,6}|7\d{5}</nationalNumberPattern></generalDesc>
    </territory>
  </territories>
</phoneNumberMetadata>
"#;

fn leak(xml: &str) -> &'static Database {
    Box::leak(Box::new(Database::parse(xml).expect("loadable")))
}

pub fn all() -> Vec<Db> {
    let real: &'static Database = &DATABASE;
    // two of its descriptors have no pattern, which the loader refuses
    let t = TESTING
        .replace("<possibleLengths national=\"10\" localOnly=\"7\"/>\n        <exampleNumber>2464567890<", "<nationalNumberPattern>246\\d{7}</nationalNumberPattern><possibleLengths national=\"10\" localOnly=\"7\"/>\n        <exampleNumber>2464567890<")
        .replace("<possibleLengths national=\"9\"/>\n        <exampleNumber>123456789<", "<nationalNumberPattern>\\d{9}</nationalNumberPattern><possibleLengths national=\"9\"/>\n        <exampleNumber>123456789<");
    let testing: &'static str = Box::leak(t.into_boxed_str());
    vec![
        Db { name: "default", xml: REAL, real, rf: RDb::load(REAL) },
        Db { name: "odd", xml: ODD, real: leak(ODD), rf: RDb::load(ODD) },
        Db { name: "testing", xml: testing, real: leak(testing), rf: RDb::load(testing) },
    ]
}
