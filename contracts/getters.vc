// C18: what the accessors of the metadata return

fn metadata::metadata::Metadata::descriptors (m)
  ensures[*,C18] r == m.descriptors

fn metadata::metadata::Metadata::id (m)
  ensures[*,C18] r == m.id

fn metadata::metadata::Metadata::country_code (m)
  ensures[*,C18] r == m.country_code

fn metadata::metadata::Metadata::international_prefix (m)
  ensures[*,C18] r == m.international_prefix

fn metadata::metadata::Metadata::preferred_international_prefix (m)
  ensures[*,C18] r == m.preferred_international_prefix

fn metadata::metadata::Metadata::national_prefix (m)
  ensures[*,C18] r == m.national_prefix

fn metadata::metadata::Metadata::preferred_extension_prefix (m)
  ensures[*,C18] r == m.preferred_extension_prefix

fn metadata::metadata::Metadata::national_prefix_for_parsing (m)
  ensures[*,C18] r == m.national_prefix_for_parsing

fn metadata::metadata::Metadata::national_prefix_transform_rule (m)
  ensures[*,C18] r == m.national_prefix_transform_rule

fn metadata::metadata::Metadata::formats (m)
  ensures[*,C18] r == m.formats

fn metadata::metadata::Metadata::international_formats (m)
  ensures[*,C18] r == m.international_formats

fn metadata::metadata::Metadata::leading_digits (m)
  ensures[*,C18] r == m.leading_digits

fn metadata::metadata::Metadata::is_main_country_for_code (m)
  ensures[*,C18] r == m.main_country_for_code

fn metadata::metadata::Metadata::is_mobile_number_portable (m)
  ensures[*,C18] r == m.mobile_number_portable

fn metadata::metadata::Descriptors::general (d)
  ensures[*,C18] r == d.general

fn metadata::metadata::Descriptors::fixed_line (d)
  ensures[*,C18] r == d.fixed_line

fn metadata::metadata::Descriptors::mobile (d)
  ensures[*,C18] r == d.mobile

fn metadata::metadata::Descriptors::toll_free (d)
  ensures[*,C18] r == d.toll_free

fn metadata::metadata::Descriptors::premium_rate (d)
  ensures[*,C18] r == d.premium_rate

fn metadata::metadata::Descriptors::shared_cost (d)
  ensures[*,C18] r == d.shared_cost

fn metadata::metadata::Descriptors::personal_number (d)
  ensures[*,C18] r == d.personal_number

fn metadata::metadata::Descriptors::voip (d)
  ensures[*,C18] r == d.voip

fn metadata::metadata::Descriptors::pager (d)
  ensures[*,C18] r == d.pager

fn metadata::metadata::Descriptors::uan (d)
  ensures[*,C18] r == d.uan

fn metadata::metadata::Descriptors::emergency (d)
  ensures[*,C18] r == d.emergency

fn metadata::metadata::Descriptors::voicemail (d)
  ensures[*,C18] r == d.voicemail

fn metadata::metadata::Descriptors::short_code (d)
  ensures[*,C18] r == d.short_code

fn metadata::metadata::Descriptors::standard_rate (d)
  ensures[*,C18] r == d.standard_rate

fn metadata::metadata::Descriptors::carrier (d)
  ensures[*,C18] r == d.carrier

fn metadata::metadata::Descriptors::no_international (d)
  ensures[*,C18] r == d.no_international

fn metadata::descriptor::Descriptor::national_number (d)
  ensures[*,C18] r == d.national_number

fn metadata::descriptor::Descriptor::possible_length (d)
  ensures[*,C18] r == d.possible_length

fn metadata::descriptor::Descriptor::possible_local_length (d)
  ensures[*,C18] r == d.possible_local_length

fn metadata::descriptor::Descriptor::example (d)
  ensures[*,C18] r == d.example

fn metadata::format::Format::pattern (f)
  ensures[*,C18] r == f.pattern

fn metadata::format::Format::format (f)
  ensures[*,C18] r == f.format

fn metadata::format::Format::leading_digits (f)
  ensures[*,C18] r == f.leading_digits

fn metadata::format::Format::national_prefix (f)
  ensures[*,C18] r == f.national_prefix

fn metadata::format::Format::domestic_carrier (f)
  ensures[*,C18] r == f.domestic_carrier

fn metadata::format::Format::is_national_prefix_optional (f)
  ensures[*,C18] r == f.national_prefix_optional

fn metadata::metadata::Descriptors::get (d, k)
  ensures[*,C18] r == match k {
    phone_number__Type::Unknown => Some(d.general),
    phone_number__Type::FixedLine => d.fixed_line,
    phone_number__Type::FixedLineOrMobile => d.fixed_line,
    phone_number__Type::Mobile => d.mobile,
    phone_number__Type::TollFree => d.toll_free,
    phone_number__Type::PremiumRate => d.premium_rate,
    phone_number__Type::SharedCost => d.shared_cost,
    phone_number__Type::PersonalNumber => d.personal_number,
    phone_number__Type::Voip => d.voip,
    phone_number__Type::Pager => d.pager,
    phone_number__Type::Uan => d.uan,
    phone_number__Type::Emergency => d.emergency,
    phone_number__Type::Voicemail => d.voicemail,
    phone_number__Type::ShortCode => d.short_code,
    phone_number__Type::StandardRate => d.standard_rate,
    phone_number__Type::Carrier => d.carrier,
    phone_number__Type::NoInternational => d.no_international,
  }
