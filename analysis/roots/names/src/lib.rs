//! Entry points of the analysis of `rdftk_names`: one for each function of the vocabulary modules.
//! Nothing here is ever executed.
#![allow(clippy::all, unused)]
use rdftk_iri::Iri;
use rdftk_names::*;

fn text(iri: &Iri) -> String {
    let s: &str = iri.as_ref();
    s.to_string()
}

pub fn dc_dcam__vocabulary() -> (String, &'static str, String) { (text(dc::dcam::namespace()), dc::dcam::namespace_str(), dc::dcam::default_prefix().to_string()) }
pub fn dc_dcam__vocabulary_encoding_scheme() -> (String, &'static str, &'static str) { (text(dc::dcam::vocabulary_encoding_scheme()), dc::dcam::vocabulary_encoding_scheme_str(), dc::dcam::vocabulary_encoding_scheme_qname()) }
pub fn dc_dcam__domain_includes() -> (String, &'static str, &'static str) { (text(dc::dcam::domain_includes()), dc::dcam::domain_includes_str(), dc::dcam::domain_includes_qname()) }
pub fn dc_dcam__member_of() -> (String, &'static str, &'static str) { (text(dc::dcam::member_of()), dc::dcam::member_of_str(), dc::dcam::member_of_qname()) }
pub fn dc_dcam__range_includes() -> (String, &'static str, &'static str) { (text(dc::dcam::range_includes()), dc::dcam::range_includes_str(), dc::dcam::range_includes_qname()) }
pub fn dc_dcmi_type__vocabulary() -> (String, &'static str, String) { (text(dc::dcmi_type::namespace()), dc::dcmi_type::namespace_str(), dc::dcmi_type::default_prefix().to_string()) }
pub fn dc_dcmi_type__collection() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::collection()), dc::dcmi_type::collection_str(), dc::dcmi_type::collection_qname()) }
pub fn dc_dcmi_type__dataset() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::dataset()), dc::dcmi_type::dataset_str(), dc::dcmi_type::dataset_qname()) }
pub fn dc_dcmi_type__event() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::event()), dc::dcmi_type::event_str(), dc::dcmi_type::event_qname()) }
pub fn dc_dcmi_type__image() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::image()), dc::dcmi_type::image_str(), dc::dcmi_type::image_qname()) }
pub fn dc_dcmi_type__interactive_resource() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::interactive_resource()), dc::dcmi_type::interactive_resource_str(), dc::dcmi_type::interactive_resource_qname()) }
pub fn dc_dcmi_type__moving_image() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::moving_image()), dc::dcmi_type::moving_image_str(), dc::dcmi_type::moving_image_qname()) }
pub fn dc_dcmi_type__physical_object() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::physical_object()), dc::dcmi_type::physical_object_str(), dc::dcmi_type::physical_object_qname()) }
pub fn dc_dcmi_type__service() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::service()), dc::dcmi_type::service_str(), dc::dcmi_type::service_qname()) }
pub fn dc_dcmi_type__software() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::software()), dc::dcmi_type::software_str(), dc::dcmi_type::software_qname()) }
pub fn dc_dcmi_type__sound() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::sound()), dc::dcmi_type::sound_str(), dc::dcmi_type::sound_qname()) }
pub fn dc_dcmi_type__still_image() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::still_image()), dc::dcmi_type::still_image_str(), dc::dcmi_type::still_image_qname()) }
pub fn dc_dcmi_type__text() -> (String, &'static str, &'static str) { (text(dc::dcmi_type::text()), dc::dcmi_type::text_str(), dc::dcmi_type::text_qname()) }
pub fn dc_elements__vocabulary() -> (String, &'static str, String) { (text(dc::elements::namespace()), dc::elements::namespace_str(), dc::elements::default_prefix().to_string()) }
pub fn dc_elements__contributor() -> (String, &'static str, &'static str) { (text(dc::elements::contributor()), dc::elements::contributor_str(), dc::elements::contributor_qname()) }
pub fn dc_elements__coverage() -> (String, &'static str, &'static str) { (text(dc::elements::coverage()), dc::elements::coverage_str(), dc::elements::coverage_qname()) }
pub fn dc_elements__creator() -> (String, &'static str, &'static str) { (text(dc::elements::creator()), dc::elements::creator_str(), dc::elements::creator_qname()) }
pub fn dc_elements__date() -> (String, &'static str, &'static str) { (text(dc::elements::date()), dc::elements::date_str(), dc::elements::date_qname()) }
pub fn dc_elements__description() -> (String, &'static str, &'static str) { (text(dc::elements::description()), dc::elements::description_str(), dc::elements::description_qname()) }
pub fn dc_elements__format() -> (String, &'static str, &'static str) { (text(dc::elements::format()), dc::elements::format_str(), dc::elements::format_qname()) }
pub fn dc_elements__identifier() -> (String, &'static str, &'static str) { (text(dc::elements::identifier()), dc::elements::identifier_str(), dc::elements::identifier_qname()) }
pub fn dc_elements__language() -> (String, &'static str, &'static str) { (text(dc::elements::language()), dc::elements::language_str(), dc::elements::language_qname()) }
pub fn dc_elements__publisher() -> (String, &'static str, &'static str) { (text(dc::elements::publisher()), dc::elements::publisher_str(), dc::elements::publisher_qname()) }
pub fn dc_elements__relation() -> (String, &'static str, &'static str) { (text(dc::elements::relation()), dc::elements::relation_str(), dc::elements::relation_qname()) }
pub fn dc_elements__rights() -> (String, &'static str, &'static str) { (text(dc::elements::rights()), dc::elements::rights_str(), dc::elements::rights_qname()) }
pub fn dc_elements__source() -> (String, &'static str, &'static str) { (text(dc::elements::source()), dc::elements::source_str(), dc::elements::source_qname()) }
pub fn dc_elements__subject() -> (String, &'static str, &'static str) { (text(dc::elements::subject()), dc::elements::subject_str(), dc::elements::subject_qname()) }
pub fn dc_elements__title() -> (String, &'static str, &'static str) { (text(dc::elements::title()), dc::elements::title_str(), dc::elements::title_qname()) }
pub fn dc_elements__a_type() -> (String, &'static str, &'static str) { (text(dc::elements::a_type()), dc::elements::a_type_str(), dc::elements::a_type_qname()) }
pub fn dc_terms__vocabulary() -> (String, &'static str, String) { (text(dc::terms::namespace()), dc::terms::namespace_str(), dc::terms::default_prefix().to_string()) }
pub fn dc_terms__agent() -> (String, &'static str, &'static str) { (text(dc::terms::agent()), dc::terms::agent_str(), dc::terms::agent_qname()) }
pub fn dc_terms__agent_class() -> (String, &'static str, &'static str) { (text(dc::terms::agent_class()), dc::terms::agent_class_str(), dc::terms::agent_class_qname()) }
pub fn dc_terms__bibliographic_resource() -> (String, &'static str, &'static str) { (text(dc::terms::bibliographic_resource()), dc::terms::bibliographic_resource_str(), dc::terms::bibliographic_resource_qname()) }
pub fn dc_terms__a_box() -> (String, &'static str, &'static str) { (text(dc::terms::a_box()), dc::terms::a_box_str(), dc::terms::a_box_qname()) }
pub fn dc_terms__dcmi_type() -> (String, &'static str, &'static str) { (text(dc::terms::dcmi_type()), dc::terms::dcmi_type_str(), dc::terms::dcmi_type_qname()) }
pub fn dc_terms__ddc_classify() -> (String, &'static str, &'static str) { (text(dc::terms::ddc_classify()), dc::terms::ddc_classify_str(), dc::terms::ddc_classify_qname()) }
pub fn dc_terms__file_format() -> (String, &'static str, &'static str) { (text(dc::terms::file_format()), dc::terms::file_format_str(), dc::terms::file_format_qname()) }
pub fn dc_terms__frequency() -> (String, &'static str, &'static str) { (text(dc::terms::frequency()), dc::terms::frequency_str(), dc::terms::frequency_qname()) }
pub fn dc_terms__imt_classify() -> (String, &'static str, &'static str) { (text(dc::terms::imt_classify()), dc::terms::imt_classify_str(), dc::terms::imt_classify_qname()) }
pub fn dc_terms__iso_3166() -> (String, &'static str, &'static str) { (text(dc::terms::iso_3166()), dc::terms::iso_3166_str(), dc::terms::iso_3166_qname()) }
pub fn dc_terms__iso_639_2() -> (String, &'static str, &'static str) { (text(dc::terms::iso_639_2()), dc::terms::iso_639_2_str(), dc::terms::iso_639_2_qname()) }
pub fn dc_terms__iso_639_3() -> (String, &'static str, &'static str) { (text(dc::terms::iso_639_3()), dc::terms::iso_639_3_str(), dc::terms::iso_639_3_qname()) }
pub fn dc_terms__jurisdiction() -> (String, &'static str, &'static str) { (text(dc::terms::jurisdiction()), dc::terms::jurisdiction_str(), dc::terms::jurisdiction_qname()) }
pub fn dc_terms__lcc_classify() -> (String, &'static str, &'static str) { (text(dc::terms::lcc_classify()), dc::terms::lcc_classify_str(), dc::terms::lcc_classify_qname()) }
pub fn dc_terms__lcsh_classify() -> (String, &'static str, &'static str) { (text(dc::terms::lcsh_classify()), dc::terms::lcsh_classify_str(), dc::terms::lcsh_classify_qname()) }
pub fn dc_terms__license_document() -> (String, &'static str, &'static str) { (text(dc::terms::license_document()), dc::terms::license_document_str(), dc::terms::license_document_qname()) }
pub fn dc_terms__linguistic_system() -> (String, &'static str, &'static str) { (text(dc::terms::linguistic_system()), dc::terms::linguistic_system_str(), dc::terms::linguistic_system_qname()) }
pub fn dc_terms__location() -> (String, &'static str, &'static str) { (text(dc::terms::location()), dc::terms::location_str(), dc::terms::location_qname()) }
pub fn dc_terms__location_period_or_jurisdiction() -> (String, &'static str, &'static str) { (text(dc::terms::location_period_or_jurisdiction()), dc::terms::location_period_or_jurisdiction_str(), dc::terms::location_period_or_jurisdiction_qname()) }
pub fn dc_terms__mesh_classify() -> (String, &'static str, &'static str) { (text(dc::terms::mesh_classify()), dc::terms::mesh_classify_str(), dc::terms::mesh_classify_qname()) }
pub fn dc_terms__media_type() -> (String, &'static str, &'static str) { (text(dc::terms::media_type()), dc::terms::media_type_str(), dc::terms::media_type_qname()) }
pub fn dc_terms__media_type_or_extent() -> (String, &'static str, &'static str) { (text(dc::terms::media_type_or_extent()), dc::terms::media_type_or_extent_str(), dc::terms::media_type_or_extent_qname()) }
pub fn dc_terms__method_of_accrual() -> (String, &'static str, &'static str) { (text(dc::terms::method_of_accrual()), dc::terms::method_of_accrual_str(), dc::terms::method_of_accrual_qname()) }
pub fn dc_terms__method_of_instruction() -> (String, &'static str, &'static str) { (text(dc::terms::method_of_instruction()), dc::terms::method_of_instruction_str(), dc::terms::method_of_instruction_qname()) }
pub fn dc_terms__nlm_classify() -> (String, &'static str, &'static str) { (text(dc::terms::nlm_classify()), dc::terms::nlm_classify_str(), dc::terms::nlm_classify_qname()) }
pub fn dc_terms__period() -> (String, &'static str, &'static str) { (text(dc::terms::period()), dc::terms::period_str(), dc::terms::period_qname()) }
pub fn dc_terms__period_of_time() -> (String, &'static str, &'static str) { (text(dc::terms::period_of_time()), dc::terms::period_of_time_str(), dc::terms::period_of_time_qname()) }
pub fn dc_terms__physical_medium() -> (String, &'static str, &'static str) { (text(dc::terms::physical_medium()), dc::terms::physical_medium_str(), dc::terms::physical_medium_qname()) }
pub fn dc_terms__physical_resource() -> (String, &'static str, &'static str) { (text(dc::terms::physical_resource()), dc::terms::physical_resource_str(), dc::terms::physical_resource_qname()) }
pub fn dc_terms__point() -> (String, &'static str, &'static str) { (text(dc::terms::point()), dc::terms::point_str(), dc::terms::point_qname()) }
pub fn dc_terms__policy() -> (String, &'static str, &'static str) { (text(dc::terms::policy()), dc::terms::policy_str(), dc::terms::policy_qname()) }
pub fn dc_terms__rfc_1766() -> (String, &'static str, &'static str) { (text(dc::terms::rfc_1766()), dc::terms::rfc_1766_str(), dc::terms::rfc_1766_qname()) }
pub fn dc_terms__rfc_3066() -> (String, &'static str, &'static str) { (text(dc::terms::rfc_3066()), dc::terms::rfc_3066_str(), dc::terms::rfc_3066_qname()) }
pub fn dc_terms__rfc_4646() -> (String, &'static str, &'static str) { (text(dc::terms::rfc_4646()), dc::terms::rfc_4646_str(), dc::terms::rfc_4646_qname()) }
pub fn dc_terms__rfc_5646() -> (String, &'static str, &'static str) { (text(dc::terms::rfc_5646()), dc::terms::rfc_5646_str(), dc::terms::rfc_5646_qname()) }
pub fn dc_terms__rights_statement() -> (String, &'static str, &'static str) { (text(dc::terms::rights_statement()), dc::terms::rights_statement_str(), dc::terms::rights_statement_qname()) }
pub fn dc_terms__size_or_duration() -> (String, &'static str, &'static str) { (text(dc::terms::size_or_duration()), dc::terms::size_or_duration_str(), dc::terms::size_or_duration_qname()) }
pub fn dc_terms__standard() -> (String, &'static str, &'static str) { (text(dc::terms::standard()), dc::terms::standard_str(), dc::terms::standard_qname()) }
pub fn dc_terms__tgn_classify() -> (String, &'static str, &'static str) { (text(dc::terms::tgn_classify()), dc::terms::tgn_classify_str(), dc::terms::tgn_classify_qname()) }
pub fn dc_terms__udc_classify() -> (String, &'static str, &'static str) { (text(dc::terms::udc_classify()), dc::terms::udc_classify_str(), dc::terms::udc_classify_qname()) }
pub fn dc_terms__uri() -> (String, &'static str, &'static str) { (text(dc::terms::uri()), dc::terms::uri_str(), dc::terms::uri_qname()) }
pub fn dc_terms__w3c_dtf() -> (String, &'static str, &'static str) { (text(dc::terms::w3c_dtf()), dc::terms::w3c_dtf_str(), dc::terms::w3c_dtf_qname()) }
pub fn dc_terms__an_abstract() -> (String, &'static str, &'static str) { (text(dc::terms::an_abstract()), dc::terms::an_abstract_str(), dc::terms::an_abstract_qname()) }
pub fn dc_terms__access_rights() -> (String, &'static str, &'static str) { (text(dc::terms::access_rights()), dc::terms::access_rights_str(), dc::terms::access_rights_qname()) }
pub fn dc_terms__accrual_method() -> (String, &'static str, &'static str) { (text(dc::terms::accrual_method()), dc::terms::accrual_method_str(), dc::terms::accrual_method_qname()) }
pub fn dc_terms__accrual_periodicity() -> (String, &'static str, &'static str) { (text(dc::terms::accrual_periodicity()), dc::terms::accrual_periodicity_str(), dc::terms::accrual_periodicity_qname()) }
pub fn dc_terms__accrual_policy() -> (String, &'static str, &'static str) { (text(dc::terms::accrual_policy()), dc::terms::accrual_policy_str(), dc::terms::accrual_policy_qname()) }
pub fn dc_terms__alternative() -> (String, &'static str, &'static str) { (text(dc::terms::alternative()), dc::terms::alternative_str(), dc::terms::alternative_qname()) }
pub fn dc_terms__audience() -> (String, &'static str, &'static str) { (text(dc::terms::audience()), dc::terms::audience_str(), dc::terms::audience_qname()) }
pub fn dc_terms__available() -> (String, &'static str, &'static str) { (text(dc::terms::available()), dc::terms::available_str(), dc::terms::available_qname()) }
pub fn dc_terms__bibliographic_citation() -> (String, &'static str, &'static str) { (text(dc::terms::bibliographic_citation()), dc::terms::bibliographic_citation_str(), dc::terms::bibliographic_citation_qname()) }
pub fn dc_terms__conforms_to() -> (String, &'static str, &'static str) { (text(dc::terms::conforms_to()), dc::terms::conforms_to_str(), dc::terms::conforms_to_qname()) }
pub fn dc_terms__contributor() -> (String, &'static str, &'static str) { (text(dc::terms::contributor()), dc::terms::contributor_str(), dc::terms::contributor_qname()) }
pub fn dc_terms__coverage() -> (String, &'static str, &'static str) { (text(dc::terms::coverage()), dc::terms::coverage_str(), dc::terms::coverage_qname()) }
pub fn dc_terms__created() -> (String, &'static str, &'static str) { (text(dc::terms::created()), dc::terms::created_str(), dc::terms::created_qname()) }
pub fn dc_terms__creator() -> (String, &'static str, &'static str) { (text(dc::terms::creator()), dc::terms::creator_str(), dc::terms::creator_qname()) }
pub fn dc_terms__date() -> (String, &'static str, &'static str) { (text(dc::terms::date()), dc::terms::date_str(), dc::terms::date_qname()) }
pub fn dc_terms__date_accepted() -> (String, &'static str, &'static str) { (text(dc::terms::date_accepted()), dc::terms::date_accepted_str(), dc::terms::date_accepted_qname()) }
pub fn dc_terms__date_copyrighted() -> (String, &'static str, &'static str) { (text(dc::terms::date_copyrighted()), dc::terms::date_copyrighted_str(), dc::terms::date_copyrighted_qname()) }
pub fn dc_terms__date_submitted() -> (String, &'static str, &'static str) { (text(dc::terms::date_submitted()), dc::terms::date_submitted_str(), dc::terms::date_submitted_qname()) }
pub fn dc_terms__description() -> (String, &'static str, &'static str) { (text(dc::terms::description()), dc::terms::description_str(), dc::terms::description_qname()) }
pub fn dc_terms__education_level() -> (String, &'static str, &'static str) { (text(dc::terms::education_level()), dc::terms::education_level_str(), dc::terms::education_level_qname()) }
pub fn dc_terms__extent() -> (String, &'static str, &'static str) { (text(dc::terms::extent()), dc::terms::extent_str(), dc::terms::extent_qname()) }
pub fn dc_terms__format() -> (String, &'static str, &'static str) { (text(dc::terms::format()), dc::terms::format_str(), dc::terms::format_qname()) }
pub fn dc_terms__has_format() -> (String, &'static str, &'static str) { (text(dc::terms::has_format()), dc::terms::has_format_str(), dc::terms::has_format_qname()) }
pub fn dc_terms__has_part() -> (String, &'static str, &'static str) { (text(dc::terms::has_part()), dc::terms::has_part_str(), dc::terms::has_part_qname()) }
pub fn dc_terms__has_version() -> (String, &'static str, &'static str) { (text(dc::terms::has_version()), dc::terms::has_version_str(), dc::terms::has_version_qname()) }
pub fn dc_terms__identifier() -> (String, &'static str, &'static str) { (text(dc::terms::identifier()), dc::terms::identifier_str(), dc::terms::identifier_qname()) }
pub fn dc_terms__instructional_method() -> (String, &'static str, &'static str) { (text(dc::terms::instructional_method()), dc::terms::instructional_method_str(), dc::terms::instructional_method_qname()) }
pub fn dc_terms__is_format_of() -> (String, &'static str, &'static str) { (text(dc::terms::is_format_of()), dc::terms::is_format_of_str(), dc::terms::is_format_of_qname()) }
pub fn dc_terms__is_part_of() -> (String, &'static str, &'static str) { (text(dc::terms::is_part_of()), dc::terms::is_part_of_str(), dc::terms::is_part_of_qname()) }
pub fn dc_terms__is_referenced_by() -> (String, &'static str, &'static str) { (text(dc::terms::is_referenced_by()), dc::terms::is_referenced_by_str(), dc::terms::is_referenced_by_qname()) }
pub fn dc_terms__is_replaced_by() -> (String, &'static str, &'static str) { (text(dc::terms::is_replaced_by()), dc::terms::is_replaced_by_str(), dc::terms::is_replaced_by_qname()) }
pub fn dc_terms__is_required_by() -> (String, &'static str, &'static str) { (text(dc::terms::is_required_by()), dc::terms::is_required_by_str(), dc::terms::is_required_by_qname()) }
pub fn dc_terms__is_version_of() -> (String, &'static str, &'static str) { (text(dc::terms::is_version_of()), dc::terms::is_version_of_str(), dc::terms::is_version_of_qname()) }
pub fn dc_terms__issued() -> (String, &'static str, &'static str) { (text(dc::terms::issued()), dc::terms::issued_str(), dc::terms::issued_qname()) }
pub fn dc_terms__language() -> (String, &'static str, &'static str) { (text(dc::terms::language()), dc::terms::language_str(), dc::terms::language_qname()) }
pub fn dc_terms__license() -> (String, &'static str, &'static str) { (text(dc::terms::license()), dc::terms::license_str(), dc::terms::license_qname()) }
pub fn dc_terms__mediator() -> (String, &'static str, &'static str) { (text(dc::terms::mediator()), dc::terms::mediator_str(), dc::terms::mediator_qname()) }
pub fn dc_terms__medium() -> (String, &'static str, &'static str) { (text(dc::terms::medium()), dc::terms::medium_str(), dc::terms::medium_qname()) }
pub fn dc_terms__modified() -> (String, &'static str, &'static str) { (text(dc::terms::modified()), dc::terms::modified_str(), dc::terms::modified_qname()) }
pub fn dc_terms__provenance() -> (String, &'static str, &'static str) { (text(dc::terms::provenance()), dc::terms::provenance_str(), dc::terms::provenance_qname()) }
pub fn dc_terms__publisher() -> (String, &'static str, &'static str) { (text(dc::terms::publisher()), dc::terms::publisher_str(), dc::terms::publisher_qname()) }
pub fn dc_terms__references() -> (String, &'static str, &'static str) { (text(dc::terms::references()), dc::terms::references_str(), dc::terms::references_qname()) }
pub fn dc_terms__relation() -> (String, &'static str, &'static str) { (text(dc::terms::relation()), dc::terms::relation_str(), dc::terms::relation_qname()) }
pub fn dc_terms__replaces() -> (String, &'static str, &'static str) { (text(dc::terms::replaces()), dc::terms::replaces_str(), dc::terms::replaces_qname()) }
pub fn dc_terms__requires() -> (String, &'static str, &'static str) { (text(dc::terms::requires()), dc::terms::requires_str(), dc::terms::requires_qname()) }
pub fn dc_terms__rights() -> (String, &'static str, &'static str) { (text(dc::terms::rights()), dc::terms::rights_str(), dc::terms::rights_qname()) }
pub fn dc_terms__rights_holder() -> (String, &'static str, &'static str) { (text(dc::terms::rights_holder()), dc::terms::rights_holder_str(), dc::terms::rights_holder_qname()) }
pub fn dc_terms__source() -> (String, &'static str, &'static str) { (text(dc::terms::source()), dc::terms::source_str(), dc::terms::source_qname()) }
pub fn dc_terms__spatial() -> (String, &'static str, &'static str) { (text(dc::terms::spatial()), dc::terms::spatial_str(), dc::terms::spatial_qname()) }
pub fn dc_terms__subject() -> (String, &'static str, &'static str) { (text(dc::terms::subject()), dc::terms::subject_str(), dc::terms::subject_qname()) }
pub fn dc_terms__temporal() -> (String, &'static str, &'static str) { (text(dc::terms::temporal()), dc::terms::temporal_str(), dc::terms::temporal_qname()) }
pub fn dc_terms__title() -> (String, &'static str, &'static str) { (text(dc::terms::title()), dc::terms::title_str(), dc::terms::title_qname()) }
pub fn dc_terms__a_type() -> (String, &'static str, &'static str) { (text(dc::terms::a_type()), dc::terms::a_type_str(), dc::terms::a_type_qname()) }
pub fn dc_terms__valid() -> (String, &'static str, &'static str) { (text(dc::terms::valid()), dc::terms::valid_str(), dc::terms::valid_qname()) }
pub fn foaf__vocabulary() -> (String, &'static str, String) { (text(foaf::namespace()), foaf::namespace_str(), foaf::default_prefix().to_string()) }
pub fn foaf__agent() -> (String, &'static str, &'static str) { (text(foaf::agent()), foaf::agent_str(), foaf::agent_qname()) }
pub fn foaf__person() -> (String, &'static str, &'static str) { (text(foaf::person()), foaf::person_str(), foaf::person_qname()) }
pub fn foaf__name() -> (String, &'static str, &'static str) { (text(foaf::name()), foaf::name_str(), foaf::name_qname()) }
pub fn foaf__title() -> (String, &'static str, &'static str) { (text(foaf::title()), foaf::title_str(), foaf::title_qname()) }
pub fn foaf__img() -> (String, &'static str, &'static str) { (text(foaf::img()), foaf::img_str(), foaf::img_qname()) }
pub fn foaf__depiction() -> (String, &'static str, &'static str) { (text(foaf::depiction()), foaf::depiction_str(), foaf::depiction_qname()) }
pub fn foaf__depicts() -> (String, &'static str, &'static str) { (text(foaf::depicts()), foaf::depicts_str(), foaf::depicts_qname()) }
pub fn foaf__family_name() -> (String, &'static str, &'static str) { (text(foaf::family_name()), foaf::family_name_str(), foaf::family_name_qname()) }
pub fn foaf__given_name() -> (String, &'static str, &'static str) { (text(foaf::given_name()), foaf::given_name_str(), foaf::given_name_qname()) }
pub fn foaf__knows() -> (String, &'static str, &'static str) { (text(foaf::knows()), foaf::knows_str(), foaf::knows_qname()) }
pub fn foaf__based_near() -> (String, &'static str, &'static str) { (text(foaf::based_near()), foaf::based_near_str(), foaf::based_near_qname()) }
pub fn foaf__age() -> (String, &'static str, &'static str) { (text(foaf::age()), foaf::age_str(), foaf::age_qname()) }
pub fn foaf__made() -> (String, &'static str, &'static str) { (text(foaf::made()), foaf::made_str(), foaf::made_qname()) }
pub fn foaf__maker() -> (String, &'static str, &'static str) { (text(foaf::maker()), foaf::maker_str(), foaf::maker_qname()) }
pub fn foaf__primary_topic() -> (String, &'static str, &'static str) { (text(foaf::primary_topic()), foaf::primary_topic_str(), foaf::primary_topic_qname()) }
pub fn foaf__primary_topic_of() -> (String, &'static str, &'static str) { (text(foaf::primary_topic_of()), foaf::primary_topic_of_str(), foaf::primary_topic_of_qname()) }
pub fn foaf__project() -> (String, &'static str, &'static str) { (text(foaf::project()), foaf::project_str(), foaf::project_qname()) }
pub fn foaf__organization() -> (String, &'static str, &'static str) { (text(foaf::organization()), foaf::organization_str(), foaf::organization_qname()) }
pub fn foaf__group() -> (String, &'static str, &'static str) { (text(foaf::group()), foaf::group_str(), foaf::group_qname()) }
pub fn foaf__member() -> (String, &'static str, &'static str) { (text(foaf::member()), foaf::member_str(), foaf::member_qname()) }
pub fn foaf__document() -> (String, &'static str, &'static str) { (text(foaf::document()), foaf::document_str(), foaf::document_qname()) }
pub fn foaf__image() -> (String, &'static str, &'static str) { (text(foaf::image()), foaf::image_str(), foaf::image_qname()) }
pub fn foaf__nick() -> (String, &'static str, &'static str) { (text(foaf::nick()), foaf::nick_str(), foaf::nick_qname()) }
pub fn foaf__mbox() -> (String, &'static str, &'static str) { (text(foaf::mbox()), foaf::mbox_str(), foaf::mbox_qname()) }
pub fn foaf__homepage() -> (String, &'static str, &'static str) { (text(foaf::homepage()), foaf::homepage_str(), foaf::homepage_qname()) }
pub fn foaf__weblog() -> (String, &'static str, &'static str) { (text(foaf::weblog()), foaf::weblog_str(), foaf::weblog_qname()) }
pub fn foaf__openid() -> (String, &'static str, &'static str) { (text(foaf::openid()), foaf::openid_str(), foaf::openid_qname()) }
pub fn foaf__jabber_id() -> (String, &'static str, &'static str) { (text(foaf::jabber_id()), foaf::jabber_id_str(), foaf::jabber_id_qname()) }
pub fn foaf__mbox_sha1sum() -> (String, &'static str, &'static str) { (text(foaf::mbox_sha1sum()), foaf::mbox_sha1sum_str(), foaf::mbox_sha1sum_qname()) }
pub fn foaf__interest() -> (String, &'static str, &'static str) { (text(foaf::interest()), foaf::interest_str(), foaf::interest_qname()) }
pub fn foaf__topic_interest() -> (String, &'static str, &'static str) { (text(foaf::topic_interest()), foaf::topic_interest_str(), foaf::topic_interest_qname()) }
pub fn foaf__topic() -> (String, &'static str, &'static str) { (text(foaf::topic()), foaf::topic_str(), foaf::topic_qname()) }
pub fn foaf__page() -> (String, &'static str, &'static str) { (text(foaf::page()), foaf::page_str(), foaf::page_qname()) }
pub fn foaf__workplace_homepage() -> (String, &'static str, &'static str) { (text(foaf::workplace_homepage()), foaf::workplace_homepage_str(), foaf::workplace_homepage_qname()) }
pub fn foaf__work_info_homepage() -> (String, &'static str, &'static str) { (text(foaf::work_info_homepage()), foaf::work_info_homepage_str(), foaf::work_info_homepage_qname()) }
pub fn foaf__school_homepage() -> (String, &'static str, &'static str) { (text(foaf::school_homepage()), foaf::school_homepage_str(), foaf::school_homepage_qname()) }
pub fn foaf__publications() -> (String, &'static str, &'static str) { (text(foaf::publications()), foaf::publications_str(), foaf::publications_qname()) }
pub fn foaf__current_project() -> (String, &'static str, &'static str) { (text(foaf::current_project()), foaf::current_project_str(), foaf::current_project_qname()) }
pub fn foaf__past_project() -> (String, &'static str, &'static str) { (text(foaf::past_project()), foaf::past_project_str(), foaf::past_project_qname()) }
pub fn foaf__account() -> (String, &'static str, &'static str) { (text(foaf::account()), foaf::account_str(), foaf::account_qname()) }
pub fn foaf__online_account() -> (String, &'static str, &'static str) { (text(foaf::online_account()), foaf::online_account_str(), foaf::online_account_qname()) }
pub fn foaf__account_name() -> (String, &'static str, &'static str) { (text(foaf::account_name()), foaf::account_name_str(), foaf::account_name_qname()) }
pub fn foaf__account_service_homepage() -> (String, &'static str, &'static str) { (text(foaf::account_service_homepage()), foaf::account_service_homepage_str(), foaf::account_service_homepage_qname()) }
pub fn foaf__personal_profile_document() -> (String, &'static str, &'static str) { (text(foaf::personal_profile_document()), foaf::personal_profile_document_str(), foaf::personal_profile_document_qname()) }
pub fn foaf__tipjar() -> (String, &'static str, &'static str) { (text(foaf::tipjar()), foaf::tipjar_str(), foaf::tipjar_qname()) }
pub fn foaf__sha1() -> (String, &'static str, &'static str) { (text(foaf::sha1()), foaf::sha1_str(), foaf::sha1_qname()) }
pub fn foaf__thumbnail() -> (String, &'static str, &'static str) { (text(foaf::thumbnail()), foaf::thumbnail_str(), foaf::thumbnail_qname()) }
pub fn foaf__logo() -> (String, &'static str, &'static str) { (text(foaf::logo()), foaf::logo_str(), foaf::logo_qname()) }
pub fn geo__vocabulary() -> (String, &'static str, String) { (text(geo::namespace()), geo::namespace_str(), geo::default_prefix().to_string()) }
pub fn geo__spatial_thing() -> (String, &'static str, &'static str) { (text(geo::spatial_thing()), geo::spatial_thing_str(), geo::spatial_thing_qname()) }
pub fn geo__temporal_thing() -> (String, &'static str, &'static str) { (text(geo::temporal_thing()), geo::temporal_thing_str(), geo::temporal_thing_qname()) }
pub fn geo__event() -> (String, &'static str, &'static str) { (text(geo::event()), geo::event_str(), geo::event_qname()) }
pub fn geo__point() -> (String, &'static str, &'static str) { (text(geo::point()), geo::point_str(), geo::point_qname()) }
pub fn geo__lat() -> (String, &'static str, &'static str) { (text(geo::lat()), geo::lat_str(), geo::lat_qname()) }
pub fn geo__location() -> (String, &'static str, &'static str) { (text(geo::location()), geo::location_str(), geo::location_qname()) }
pub fn geo__long() -> (String, &'static str, &'static str) { (text(geo::long()), geo::long_str(), geo::long_qname()) }
pub fn geo__alt() -> (String, &'static str, &'static str) { (text(geo::alt()), geo::alt_str(), geo::alt_qname()) }
pub fn geo__lat_long() -> (String, &'static str, &'static str) { (text(geo::lat_long()), geo::lat_long_str(), geo::lat_long_qname()) }
pub fn owl__vocabulary() -> (String, &'static str, String) { (text(owl::namespace()), owl::namespace_str(), owl::default_prefix().to_string()) }
pub fn owl__thing() -> (String, &'static str, &'static str) { (text(owl::thing()), owl::thing_str(), owl::thing_qname()) }
pub fn owl__nothing() -> (String, &'static str, &'static str) { (text(owl::nothing()), owl::nothing_str(), owl::nothing_qname()) }
pub fn owl__intersection_of() -> (String, &'static str, &'static str) { (text(owl::intersection_of()), owl::intersection_of_str(), owl::intersection_of_qname()) }
pub fn owl__union_of() -> (String, &'static str, &'static str) { (text(owl::union_of()), owl::union_of_str(), owl::union_of_qname()) }
pub fn owl__complement_of() -> (String, &'static str, &'static str) { (text(owl::complement_of()), owl::complement_of_str(), owl::complement_of_qname()) }
pub fn owl__one_of() -> (String, &'static str, &'static str) { (text(owl::one_of()), owl::one_of_str(), owl::one_of_qname()) }
pub fn owl__restriction() -> (String, &'static str, &'static str) { (text(owl::restriction()), owl::restriction_str(), owl::restriction_qname()) }
pub fn owl__on_property() -> (String, &'static str, &'static str) { (text(owl::on_property()), owl::on_property_str(), owl::on_property_qname()) }
pub fn owl__on_class() -> (String, &'static str, &'static str) { (text(owl::on_class()), owl::on_class_str(), owl::on_class_qname()) }
pub fn owl__on_datatype() -> (String, &'static str, &'static str) { (text(owl::on_datatype()), owl::on_datatype_str(), owl::on_datatype_qname()) }
pub fn owl__all_values_from() -> (String, &'static str, &'static str) { (text(owl::all_values_from()), owl::all_values_from_str(), owl::all_values_from_qname()) }
pub fn owl__some_values_from() -> (String, &'static str, &'static str) { (text(owl::some_values_from()), owl::some_values_from_str(), owl::some_values_from_qname()) }
pub fn owl__has_value() -> (String, &'static str, &'static str) { (text(owl::has_value()), owl::has_value_str(), owl::has_value_qname()) }
pub fn owl__has_self() -> (String, &'static str, &'static str) { (text(owl::has_self()), owl::has_self_str(), owl::has_self_qname()) }
pub fn owl__cardinality() -> (String, &'static str, &'static str) { (text(owl::cardinality()), owl::cardinality_str(), owl::cardinality_qname()) }
pub fn owl__qualified_cardinality() -> (String, &'static str, &'static str) { (text(owl::qualified_cardinality()), owl::qualified_cardinality_str(), owl::qualified_cardinality_qname()) }
pub fn owl__max_cardinality() -> (String, &'static str, &'static str) { (text(owl::max_cardinality()), owl::max_cardinality_str(), owl::max_cardinality_qname()) }
pub fn owl__max_qualified_cardinality() -> (String, &'static str, &'static str) { (text(owl::max_qualified_cardinality()), owl::max_qualified_cardinality_str(), owl::max_qualified_cardinality_qname()) }
pub fn owl__min_cardinality() -> (String, &'static str, &'static str) { (text(owl::min_cardinality()), owl::min_cardinality_str(), owl::min_cardinality_qname()) }
pub fn owl__min_qualified_cardinality() -> (String, &'static str, &'static str) { (text(owl::min_qualified_cardinality()), owl::min_qualified_cardinality_str(), owl::min_qualified_cardinality_qname()) }
pub fn owl__datatype_complement_of() -> (String, &'static str, &'static str) { (text(owl::datatype_complement_of()), owl::datatype_complement_of_str(), owl::datatype_complement_of_qname()) }
pub fn owl__with_restrictions() -> (String, &'static str, &'static str) { (text(owl::with_restrictions()), owl::with_restrictions_str(), owl::with_restrictions_qname()) }
pub fn owl__equivalent_class() -> (String, &'static str, &'static str) { (text(owl::equivalent_class()), owl::equivalent_class_str(), owl::equivalent_class_qname()) }
pub fn owl__disjoint_with() -> (String, &'static str, &'static str) { (text(owl::disjoint_with()), owl::disjoint_with_str(), owl::disjoint_with_qname()) }
pub fn owl__all_disjoint_classes() -> (String, &'static str, &'static str) { (text(owl::all_disjoint_classes()), owl::all_disjoint_classes_str(), owl::all_disjoint_classes_qname()) }
pub fn owl__members() -> (String, &'static str, &'static str) { (text(owl::members()), owl::members_str(), owl::members_qname()) }
pub fn owl__disjoint_union_of() -> (String, &'static str, &'static str) { (text(owl::disjoint_union_of()), owl::disjoint_union_of_str(), owl::disjoint_union_of_qname()) }
pub fn owl__property_chain_axiom() -> (String, &'static str, &'static str) { (text(owl::property_chain_axiom()), owl::property_chain_axiom_str(), owl::property_chain_axiom_qname()) }
pub fn owl__equivalent_property() -> (String, &'static str, &'static str) { (text(owl::equivalent_property()), owl::equivalent_property_str(), owl::equivalent_property_qname()) }
pub fn owl__property_disjoint_with() -> (String, &'static str, &'static str) { (text(owl::property_disjoint_with()), owl::property_disjoint_with_str(), owl::property_disjoint_with_qname()) }
pub fn owl__all_disjoint_properties() -> (String, &'static str, &'static str) { (text(owl::all_disjoint_properties()), owl::all_disjoint_properties_str(), owl::all_disjoint_properties_qname()) }
pub fn owl__inverse_of() -> (String, &'static str, &'static str) { (text(owl::inverse_of()), owl::inverse_of_str(), owl::inverse_of_qname()) }
pub fn owl__functional_property() -> (String, &'static str, &'static str) { (text(owl::functional_property()), owl::functional_property_str(), owl::functional_property_qname()) }
pub fn owl__inverse_functional_property() -> (String, &'static str, &'static str) { (text(owl::inverse_functional_property()), owl::inverse_functional_property_str(), owl::inverse_functional_property_qname()) }
pub fn owl__reflexive_property() -> (String, &'static str, &'static str) { (text(owl::reflexive_property()), owl::reflexive_property_str(), owl::reflexive_property_qname()) }
pub fn owl__irreflexive_property() -> (String, &'static str, &'static str) { (text(owl::irreflexive_property()), owl::irreflexive_property_str(), owl::irreflexive_property_qname()) }
pub fn owl__symmetric_property() -> (String, &'static str, &'static str) { (text(owl::symmetric_property()), owl::symmetric_property_str(), owl::symmetric_property_qname()) }
pub fn owl__asymmetric_property() -> (String, &'static str, &'static str) { (text(owl::asymmetric_property()), owl::asymmetric_property_str(), owl::asymmetric_property_qname()) }
pub fn owl__transitive_property() -> (String, &'static str, &'static str) { (text(owl::transitive_property()), owl::transitive_property_str(), owl::transitive_property_qname()) }
pub fn owl__same_as() -> (String, &'static str, &'static str) { (text(owl::same_as()), owl::same_as_str(), owl::same_as_qname()) }
pub fn owl__different_from() -> (String, &'static str, &'static str) { (text(owl::different_from()), owl::different_from_str(), owl::different_from_qname()) }
pub fn owl__all_different() -> (String, &'static str, &'static str) { (text(owl::all_different()), owl::all_different_str(), owl::all_different_qname()) }
pub fn owl__negative_property_assertion() -> (String, &'static str, &'static str) { (text(owl::negative_property_assertion()), owl::negative_property_assertion_str(), owl::negative_property_assertion_qname()) }
pub fn owl__source_individual() -> (String, &'static str, &'static str) { (text(owl::source_individual()), owl::source_individual_str(), owl::source_individual_qname()) }
pub fn owl__assertion_property() -> (String, &'static str, &'static str) { (text(owl::assertion_property()), owl::assertion_property_str(), owl::assertion_property_qname()) }
pub fn owl__target_individual() -> (String, &'static str, &'static str) { (text(owl::target_individual()), owl::target_individual_str(), owl::target_individual_qname()) }
pub fn owl__target_value() -> (String, &'static str, &'static str) { (text(owl::target_value()), owl::target_value_str(), owl::target_value_qname()) }
pub fn owl__has_key() -> (String, &'static str, &'static str) { (text(owl::has_key()), owl::has_key_str(), owl::has_key_qname()) }
pub fn owl__class() -> (String, &'static str, &'static str) { (text(owl::class()), owl::class_str(), owl::class_qname()) }
pub fn owl__object_property() -> (String, &'static str, &'static str) { (text(owl::object_property()), owl::object_property_str(), owl::object_property_qname()) }
pub fn owl__datatype_property() -> (String, &'static str, &'static str) { (text(owl::datatype_property()), owl::datatype_property_str(), owl::datatype_property_qname()) }
pub fn owl__annotation_property() -> (String, &'static str, &'static str) { (text(owl::annotation_property()), owl::annotation_property_str(), owl::annotation_property_qname()) }
pub fn owl__named_individual() -> (String, &'static str, &'static str) { (text(owl::named_individual()), owl::named_individual_str(), owl::named_individual_qname()) }
pub fn owl__axiom() -> (String, &'static str, &'static str) { (text(owl::axiom()), owl::axiom_str(), owl::axiom_qname()) }
pub fn owl__annotated_source() -> (String, &'static str, &'static str) { (text(owl::annotated_source()), owl::annotated_source_str(), owl::annotated_source_qname()) }
pub fn owl__annotated_property() -> (String, &'static str, &'static str) { (text(owl::annotated_property()), owl::annotated_property_str(), owl::annotated_property_qname()) }
pub fn owl__annotated_target() -> (String, &'static str, &'static str) { (text(owl::annotated_target()), owl::annotated_target_str(), owl::annotated_target_qname()) }
pub fn owl__version_info() -> (String, &'static str, &'static str) { (text(owl::version_info()), owl::version_info_str(), owl::version_info_qname()) }
pub fn owl__deprecated() -> (String, &'static str, &'static str) { (text(owl::deprecated()), owl::deprecated_str(), owl::deprecated_qname()) }
pub fn owl__backward_compatible_with() -> (String, &'static str, &'static str) { (text(owl::backward_compatible_with()), owl::backward_compatible_with_str(), owl::backward_compatible_with_qname()) }
pub fn owl__incompatible_with() -> (String, &'static str, &'static str) { (text(owl::incompatible_with()), owl::incompatible_with_str(), owl::incompatible_with_qname()) }
pub fn owl__prior_version() -> (String, &'static str, &'static str) { (text(owl::prior_version()), owl::prior_version_str(), owl::prior_version_qname()) }
pub fn owl__ontology() -> (String, &'static str, &'static str) { (text(owl::ontology()), owl::ontology_str(), owl::ontology_qname()) }
pub fn owl__version() -> (String, &'static str, &'static str) { (text(owl::version()), owl::version_str(), owl::version_qname()) }
pub fn owl__imports() -> (String, &'static str, &'static str) { (text(owl::imports()), owl::imports_str(), owl::imports_qname()) }
pub fn owl__rational() -> (String, &'static str, &'static str) { (text(owl::rational()), owl::rational_str(), owl::rational_qname()) }
pub fn owl__real() -> (String, &'static str, &'static str) { (text(owl::real()), owl::real_str(), owl::real_qname()) }
pub fn owl__distinct_members() -> (String, &'static str, &'static str) { (text(owl::distinct_members()), owl::distinct_members_str(), owl::distinct_members_qname()) }
pub fn owl__ontology_property() -> (String, &'static str, &'static str) { (text(owl::ontology_property()), owl::ontology_property_str(), owl::ontology_property_qname()) }
pub fn owl__deprecated_class() -> (String, &'static str, &'static str) { (text(owl::deprecated_class()), owl::deprecated_class_str(), owl::deprecated_class_qname()) }
pub fn owl__deprecated_property() -> (String, &'static str, &'static str) { (text(owl::deprecated_property()), owl::deprecated_property_str(), owl::deprecated_property_qname()) }
pub fn rdf__vocabulary() -> (String, &'static str, String) { (text(rdf::namespace()), rdf::namespace_str(), rdf::default_prefix().to_string()) }
pub fn rdf__html() -> (String, &'static str, &'static str) { (text(rdf::html()), rdf::html_str(), rdf::html_qname()) }
pub fn rdf__lang_string() -> (String, &'static str, &'static str) { (text(rdf::lang_string()), rdf::lang_string_str(), rdf::lang_string_qname()) }
pub fn rdf__plain_literal() -> (String, &'static str, &'static str) { (text(rdf::plain_literal()), rdf::plain_literal_str(), rdf::plain_literal_qname()) }
pub fn rdf__a_type() -> (String, &'static str, &'static str) { (text(rdf::a_type()), rdf::a_type_str(), rdf::a_type_qname()) }
pub fn rdf__property() -> (String, &'static str, &'static str) { (text(rdf::property()), rdf::property_str(), rdf::property_qname()) }
pub fn rdf__statement() -> (String, &'static str, &'static str) { (text(rdf::statement()), rdf::statement_str(), rdf::statement_qname()) }
pub fn rdf__subject() -> (String, &'static str, &'static str) { (text(rdf::subject()), rdf::subject_str(), rdf::subject_qname()) }
pub fn rdf__predicate() -> (String, &'static str, &'static str) { (text(rdf::predicate()), rdf::predicate_str(), rdf::predicate_qname()) }
pub fn rdf__object() -> (String, &'static str, &'static str) { (text(rdf::object()), rdf::object_str(), rdf::object_qname()) }
pub fn rdf__bag() -> (String, &'static str, &'static str) { (text(rdf::bag()), rdf::bag_str(), rdf::bag_qname()) }
pub fn rdf__seq() -> (String, &'static str, &'static str) { (text(rdf::seq()), rdf::seq_str(), rdf::seq_qname()) }
pub fn rdf__alt() -> (String, &'static str, &'static str) { (text(rdf::alt()), rdf::alt_str(), rdf::alt_qname()) }
pub fn rdf__value() -> (String, &'static str, &'static str) { (text(rdf::value()), rdf::value_str(), rdf::value_qname()) }
pub fn rdf__list() -> (String, &'static str, &'static str) { (text(rdf::list()), rdf::list_str(), rdf::list_qname()) }
pub fn rdf__nil() -> (String, &'static str, &'static str) { (text(rdf::nil()), rdf::nil_str(), rdf::nil_qname()) }
pub fn rdf__first() -> (String, &'static str, &'static str) { (text(rdf::first()), rdf::first_str(), rdf::first_qname()) }
pub fn rdf__rest() -> (String, &'static str, &'static str) { (text(rdf::rest()), rdf::rest_str(), rdf::rest_qname()) }
pub fn rdf__li() -> (String, &'static str, &'static str) { (text(rdf::li()), rdf::li_str(), rdf::li_qname()) }
pub fn rdf__xml_literal() -> (String, &'static str, &'static str) { (text(rdf::xml_literal()), rdf::xml_literal_str(), rdf::xml_literal_qname()) }
pub fn rdf__json() -> (String, &'static str, &'static str) { (text(rdf::json()), rdf::json_str(), rdf::json_qname()) }
pub fn rdf__compound_literal() -> (String, &'static str, &'static str) { (text(rdf::compound_literal()), rdf::compound_literal_str(), rdf::compound_literal_qname()) }
pub fn rdf__language() -> (String, &'static str, &'static str) { (text(rdf::language()), rdf::language_str(), rdf::language_qname()) }
pub fn rdf__direction() -> (String, &'static str, &'static str) { (text(rdf::direction()), rdf::direction_str(), rdf::direction_qname()) }
pub fn rdfs__vocabulary() -> (String, &'static str, String) { (text(rdfs::namespace()), rdfs::namespace_str(), rdfs::default_prefix().to_string()) }
pub fn rdfs__resource() -> (String, &'static str, &'static str) { (text(rdfs::resource()), rdfs::resource_str(), rdfs::resource_qname()) }
pub fn rdfs__class() -> (String, &'static str, &'static str) { (text(rdfs::class()), rdfs::class_str(), rdfs::class_qname()) }
pub fn rdfs__literal() -> (String, &'static str, &'static str) { (text(rdfs::literal()), rdfs::literal_str(), rdfs::literal_qname()) }
pub fn rdfs__data_type() -> (String, &'static str, &'static str) { (text(rdfs::data_type()), rdfs::data_type_str(), rdfs::data_type_qname()) }
pub fn rdfs__lang_string() -> (String, &'static str, &'static str) { (text(rdfs::lang_string()), rdfs::lang_string_str(), rdfs::lang_string_qname()) }
pub fn rdfs__html_literal() -> (String, &'static str, &'static str) { (text(rdfs::html_literal()), rdfs::html_literal_str(), rdfs::html_literal_qname()) }
pub fn rdfs__xml_literal() -> (String, &'static str, &'static str) { (text(rdfs::xml_literal()), rdfs::xml_literal_str(), rdfs::xml_literal_qname()) }
pub fn rdfs__property() -> (String, &'static str, &'static str) { (text(rdfs::property()), rdfs::property_str(), rdfs::property_qname()) }
pub fn rdfs__range() -> (String, &'static str, &'static str) { (text(rdfs::range()), rdfs::range_str(), rdfs::range_qname()) }
pub fn rdfs__domain() -> (String, &'static str, &'static str) { (text(rdfs::domain()), rdfs::domain_str(), rdfs::domain_qname()) }
pub fn rdfs__subclass_of() -> (String, &'static str, &'static str) { (text(rdfs::subclass_of()), rdfs::subclass_of_str(), rdfs::subclass_of_qname()) }
pub fn rdfs__subproperty_of() -> (String, &'static str, &'static str) { (text(rdfs::subproperty_of()), rdfs::subproperty_of_str(), rdfs::subproperty_of_qname()) }
pub fn rdfs__label() -> (String, &'static str, &'static str) { (text(rdfs::label()), rdfs::label_str(), rdfs::label_qname()) }
pub fn rdfs__comment() -> (String, &'static str, &'static str) { (text(rdfs::comment()), rdfs::comment_str(), rdfs::comment_qname()) }
pub fn rdfs__container() -> (String, &'static str, &'static str) { (text(rdfs::container()), rdfs::container_str(), rdfs::container_qname()) }
pub fn rdfs__container_membership_property() -> (String, &'static str, &'static str) { (text(rdfs::container_membership_property()), rdfs::container_membership_property_str(), rdfs::container_membership_property_qname()) }
pub fn rdfs__member() -> (String, &'static str, &'static str) { (text(rdfs::member()), rdfs::member_str(), rdfs::member_qname()) }
pub fn rdfs__see_also() -> (String, &'static str, &'static str) { (text(rdfs::see_also()), rdfs::see_also_str(), rdfs::see_also_qname()) }
pub fn rdfs__is_defined_by() -> (String, &'static str, &'static str) { (text(rdfs::is_defined_by()), rdfs::is_defined_by_str(), rdfs::is_defined_by_qname()) }
pub fn rdfs__value() -> (String, &'static str, &'static str) { (text(rdfs::value()), rdfs::value_str(), rdfs::value_qname()) }
pub fn skos__vocabulary() -> (String, &'static str, String) { (text(skos::namespace()), skos::namespace_str(), skos::default_prefix().to_string()) }
pub fn skos__collection() -> (String, &'static str, &'static str) { (text(skos::collection()), skos::collection_str(), skos::collection_qname()) }
pub fn skos__concept() -> (String, &'static str, &'static str) { (text(skos::concept()), skos::concept_str(), skos::concept_qname()) }
pub fn skos__concept_scheme() -> (String, &'static str, &'static str) { (text(skos::concept_scheme()), skos::concept_scheme_str(), skos::concept_scheme_qname()) }
pub fn skos__ordered_collection() -> (String, &'static str, &'static str) { (text(skos::ordered_collection()), skos::ordered_collection_str(), skos::ordered_collection_qname()) }
pub fn skos__alt_label() -> (String, &'static str, &'static str) { (text(skos::alt_label()), skos::alt_label_str(), skos::alt_label_qname()) }
pub fn skos__broad_match() -> (String, &'static str, &'static str) { (text(skos::broad_match()), skos::broad_match_str(), skos::broad_match_qname()) }
pub fn skos__broader() -> (String, &'static str, &'static str) { (text(skos::broader()), skos::broader_str(), skos::broader_qname()) }
pub fn skos__broader_transitive() -> (String, &'static str, &'static str) { (text(skos::broader_transitive()), skos::broader_transitive_str(), skos::broader_transitive_qname()) }
pub fn skos__change_note() -> (String, &'static str, &'static str) { (text(skos::change_note()), skos::change_note_str(), skos::change_note_qname()) }
pub fn skos__close_match() -> (String, &'static str, &'static str) { (text(skos::close_match()), skos::close_match_str(), skos::close_match_qname()) }
pub fn skos__definition() -> (String, &'static str, &'static str) { (text(skos::definition()), skos::definition_str(), skos::definition_qname()) }
pub fn skos__editorial_note() -> (String, &'static str, &'static str) { (text(skos::editorial_note()), skos::editorial_note_str(), skos::editorial_note_qname()) }
pub fn skos__exact_match() -> (String, &'static str, &'static str) { (text(skos::exact_match()), skos::exact_match_str(), skos::exact_match_qname()) }
pub fn skos__example() -> (String, &'static str, &'static str) { (text(skos::example()), skos::example_str(), skos::example_qname()) }
pub fn skos__has_top_concept() -> (String, &'static str, &'static str) { (text(skos::has_top_concept()), skos::has_top_concept_str(), skos::has_top_concept_qname()) }
pub fn skos__hidden_label() -> (String, &'static str, &'static str) { (text(skos::hidden_label()), skos::hidden_label_str(), skos::hidden_label_qname()) }
pub fn skos__history_note() -> (String, &'static str, &'static str) { (text(skos::history_note()), skos::history_note_str(), skos::history_note_qname()) }
pub fn skos__in_scheme() -> (String, &'static str, &'static str) { (text(skos::in_scheme()), skos::in_scheme_str(), skos::in_scheme_qname()) }
pub fn skos__mapping_relation() -> (String, &'static str, &'static str) { (text(skos::mapping_relation()), skos::mapping_relation_str(), skos::mapping_relation_qname()) }
pub fn skos__member() -> (String, &'static str, &'static str) { (text(skos::member()), skos::member_str(), skos::member_qname()) }
pub fn skos__member_list() -> (String, &'static str, &'static str) { (text(skos::member_list()), skos::member_list_str(), skos::member_list_qname()) }
pub fn skos__narrow_match() -> (String, &'static str, &'static str) { (text(skos::narrow_match()), skos::narrow_match_str(), skos::narrow_match_qname()) }
pub fn skos__narrower() -> (String, &'static str, &'static str) { (text(skos::narrower()), skos::narrower_str(), skos::narrower_qname()) }
pub fn skos__narrower_transitive() -> (String, &'static str, &'static str) { (text(skos::narrower_transitive()), skos::narrower_transitive_str(), skos::narrower_transitive_qname()) }
pub fn skos__notation() -> (String, &'static str, &'static str) { (text(skos::notation()), skos::notation_str(), skos::notation_qname()) }
pub fn skos__note() -> (String, &'static str, &'static str) { (text(skos::note()), skos::note_str(), skos::note_qname()) }
pub fn skos__pref_label() -> (String, &'static str, &'static str) { (text(skos::pref_label()), skos::pref_label_str(), skos::pref_label_qname()) }
pub fn skos__related() -> (String, &'static str, &'static str) { (text(skos::related()), skos::related_str(), skos::related_qname()) }
pub fn skos__related_match() -> (String, &'static str, &'static str) { (text(skos::related_match()), skos::related_match_str(), skos::related_match_qname()) }
pub fn skos__scope_note() -> (String, &'static str, &'static str) { (text(skos::scope_note()), skos::scope_note_str(), skos::scope_note_qname()) }
pub fn skos__semantic_relation() -> (String, &'static str, &'static str) { (text(skos::semantic_relation()), skos::semantic_relation_str(), skos::semantic_relation_qname()) }
pub fn skos__top_concept_of() -> (String, &'static str, &'static str) { (text(skos::top_concept_of()), skos::top_concept_of_str(), skos::top_concept_of_qname()) }
pub fn skos_iso__vocabulary() -> (String, &'static str, String) { (text(skos::iso::namespace()), skos::iso::namespace_str(), skos::iso::default_prefix().to_string()) }
pub fn skos_iso__compound_equivalence() -> (String, &'static str, &'static str) { (text(skos::iso::compound_equivalence()), skos::iso::compound_equivalence_str(), skos::iso::compound_equivalence_qname()) }
pub fn skos_iso__concept_group() -> (String, &'static str, &'static str) { (text(skos::iso::concept_group()), skos::iso::concept_group_str(), skos::iso::concept_group_qname()) }
pub fn skos_iso__preferred_term() -> (String, &'static str, &'static str) { (text(skos::iso::preferred_term()), skos::iso::preferred_term_str(), skos::iso::preferred_term_qname()) }
pub fn skos_iso__thesaurus_array() -> (String, &'static str, &'static str) { (text(skos::iso::thesaurus_array()), skos::iso::thesaurus_array_str(), skos::iso::thesaurus_array_qname()) }
pub fn skos_iso__micro_thesaurus_of() -> (String, &'static str, &'static str) { (text(skos::iso::micro_thesaurus_of()), skos::iso::micro_thesaurus_of_str(), skos::iso::micro_thesaurus_of_qname()) }
pub fn skos_iso__plus_uf_term() -> (String, &'static str, &'static str) { (text(skos::iso::plus_uf_term()), skos::iso::plus_uf_term_str(), skos::iso::plus_uf_term_qname()) }
pub fn skos_iso__plus_use_term() -> (String, &'static str, &'static str) { (text(skos::iso::plus_use_term()), skos::iso::plus_use_term_str(), skos::iso::plus_use_term_qname()) }
pub fn skos_iso__sub_group() -> (String, &'static str, &'static str) { (text(skos::iso::sub_group()), skos::iso::sub_group_str(), skos::iso::sub_group_qname()) }
pub fn skos_iso__subordinate_array() -> (String, &'static str, &'static str) { (text(skos::iso::subordinate_array()), skos::iso::subordinate_array_str(), skos::iso::subordinate_array_qname()) }
pub fn skos_iso__super_group() -> (String, &'static str, &'static str) { (text(skos::iso::super_group()), skos::iso::super_group_str(), skos::iso::super_group_qname()) }
pub fn skos_iso__super_ordinate() -> (String, &'static str, &'static str) { (text(skos::iso::super_ordinate()), skos::iso::super_ordinate_str(), skos::iso::super_ordinate_qname()) }
pub fn skos_iso__broader_generic() -> (String, &'static str, &'static str) { (text(skos::iso::broader_generic()), skos::iso::broader_generic_str(), skos::iso::broader_generic_qname()) }
pub fn skos_iso__broader_instantial() -> (String, &'static str, &'static str) { (text(skos::iso::broader_instantial()), skos::iso::broader_instantial_str(), skos::iso::broader_instantial_qname()) }
pub fn skos_iso__broader_partitive() -> (String, &'static str, &'static str) { (text(skos::iso::broader_partitive()), skos::iso::broader_partitive_str(), skos::iso::broader_partitive_qname()) }
pub fn skos_iso__narrower_generic() -> (String, &'static str, &'static str) { (text(skos::iso::narrower_generic()), skos::iso::narrower_generic_str(), skos::iso::narrower_generic_qname()) }
pub fn skos_iso__narrower_instantial() -> (String, &'static str, &'static str) { (text(skos::iso::narrower_instantial()), skos::iso::narrower_instantial_str(), skos::iso::narrower_instantial_qname()) }
pub fn skos_iso__narrower_partitive() -> (String, &'static str, &'static str) { (text(skos::iso::narrower_partitive()), skos::iso::narrower_partitive_str(), skos::iso::narrower_partitive_qname()) }
pub fn skos_term_status__vocabulary() -> (String, &'static str, String) { (text(skos::term_status::namespace()), skos::term_status::namespace_str(), skos::term_status::default_prefix().to_string()) }
pub fn skos_term_status__term_status() -> (String, &'static str, &'static str) { (text(skos::term_status::term_status()), skos::term_status::term_status_str(), skos::term_status::term_status_qname()) }
pub fn skos_xl__vocabulary() -> (String, &'static str, String) { (text(skos::xl::namespace()), skos::xl::namespace_str(), skos::xl::default_prefix().to_string()) }
pub fn skos_xl__label() -> (String, &'static str, &'static str) { (text(skos::xl::label()), skos::xl::label_str(), skos::xl::label_qname()) }
pub fn skos_xl__literal_form() -> (String, &'static str, &'static str) { (text(skos::xl::literal_form()), skos::xl::literal_form_str(), skos::xl::literal_form_qname()) }
pub fn skos_xl__pref_label() -> (String, &'static str, &'static str) { (text(skos::xl::pref_label()), skos::xl::pref_label_str(), skos::xl::pref_label_qname()) }
pub fn skos_xl__alt_label() -> (String, &'static str, &'static str) { (text(skos::xl::alt_label()), skos::xl::alt_label_str(), skos::xl::alt_label_qname()) }
pub fn skos_xl__label_relation() -> (String, &'static str, &'static str) { (text(skos::xl::label_relation()), skos::xl::label_relation_str(), skos::xl::label_relation_qname()) }
pub fn xsd__vocabulary() -> (String, &'static str, String) { (text(xsd::namespace()), xsd::namespace_str(), xsd::default_prefix().to_string()) }
pub fn xsd__any_uri() -> (String, &'static str, &'static str) { (text(xsd::any_uri()), xsd::any_uri_str(), xsd::any_uri_qname()) }
pub fn xsd__base64_binary() -> (String, &'static str, &'static str) { (text(xsd::base64_binary()), xsd::base64_binary_str(), xsd::base64_binary_qname()) }
pub fn xsd__date() -> (String, &'static str, &'static str) { (text(xsd::date()), xsd::date_str(), xsd::date_qname()) }
pub fn xsd__date_time() -> (String, &'static str, &'static str) { (text(xsd::date_time()), xsd::date_time_str(), xsd::date_time_qname()) }
pub fn xsd__date_time_stamp() -> (String, &'static str, &'static str) { (text(xsd::date_time_stamp()), xsd::date_time_stamp_str(), xsd::date_time_stamp_qname()) }
pub fn xsd__day_time_duration() -> (String, &'static str, &'static str) { (text(xsd::day_time_duration()), xsd::day_time_duration_str(), xsd::day_time_duration_qname()) }
pub fn xsd__decimal() -> (String, &'static str, &'static str) { (text(xsd::decimal()), xsd::decimal_str(), xsd::decimal_qname()) }
pub fn xsd__duration() -> (String, &'static str, &'static str) { (text(xsd::duration()), xsd::duration_str(), xsd::duration_qname()) }
pub fn xsd__entity() -> (String, &'static str, &'static str) { (text(xsd::entity()), xsd::entity_str(), xsd::entity_qname()) }
pub fn xsd__g_day() -> (String, &'static str, &'static str) { (text(xsd::g_day()), xsd::g_day_str(), xsd::g_day_qname()) }
pub fn xsd__g_month() -> (String, &'static str, &'static str) { (text(xsd::g_month()), xsd::g_month_str(), xsd::g_month_qname()) }
pub fn xsd__g_month_day() -> (String, &'static str, &'static str) { (text(xsd::g_month_day()), xsd::g_month_day_str(), xsd::g_month_day_qname()) }
pub fn xsd__g_year() -> (String, &'static str, &'static str) { (text(xsd::g_year()), xsd::g_year_str(), xsd::g_year_qname()) }
pub fn xsd__g_year_month() -> (String, &'static str, &'static str) { (text(xsd::g_year_month()), xsd::g_year_month_str(), xsd::g_year_month_qname()) }
pub fn xsd__hex_binary() -> (String, &'static str, &'static str) { (text(xsd::hex_binary()), xsd::hex_binary_str(), xsd::hex_binary_qname()) }
pub fn xsd__id() -> (String, &'static str, &'static str) { (text(xsd::id()), xsd::id_str(), xsd::id_qname()) }
pub fn xsd__id_ref() -> (String, &'static str, &'static str) { (text(xsd::id_ref()), xsd::id_ref_str(), xsd::id_ref_qname()) }
pub fn xsd__id_refs() -> (String, &'static str, &'static str) { (text(xsd::id_refs()), xsd::id_refs_str(), xsd::id_refs_qname()) }
pub fn xsd__integer() -> (String, &'static str, &'static str) { (text(xsd::integer()), xsd::integer_str(), xsd::integer_qname()) }
pub fn xsd__language() -> (String, &'static str, &'static str) { (text(xsd::language()), xsd::language_str(), xsd::language_qname()) }
pub fn xsd__name() -> (String, &'static str, &'static str) { (text(xsd::name()), xsd::name_str(), xsd::name_qname()) }
pub fn xsd__nc_name() -> (String, &'static str, &'static str) { (text(xsd::nc_name()), xsd::nc_name_str(), xsd::nc_name_qname()) }
pub fn xsd__nm_token() -> (String, &'static str, &'static str) { (text(xsd::nm_token()), xsd::nm_token_str(), xsd::nm_token_qname()) }
pub fn xsd__nm_tokens() -> (String, &'static str, &'static str) { (text(xsd::nm_tokens()), xsd::nm_tokens_str(), xsd::nm_tokens_qname()) }
pub fn xsd__non_negative_integer() -> (String, &'static str, &'static str) { (text(xsd::non_negative_integer()), xsd::non_negative_integer_str(), xsd::non_negative_integer_qname()) }
pub fn xsd__non_positive_integer() -> (String, &'static str, &'static str) { (text(xsd::non_positive_integer()), xsd::non_positive_integer_str(), xsd::non_positive_integer_qname()) }
pub fn xsd__normalized_string() -> (String, &'static str, &'static str) { (text(xsd::normalized_string()), xsd::normalized_string_str(), xsd::normalized_string_qname()) }
pub fn xsd__notation() -> (String, &'static str, &'static str) { (text(xsd::notation()), xsd::notation_str(), xsd::notation_qname()) }
pub fn xsd__ns() -> (String, &'static str, &'static str) { (text(xsd::ns()), xsd::ns_str(), xsd::ns_qname()) }
pub fn xsd__positive_integer() -> (String, &'static str, &'static str) { (text(xsd::positive_integer()), xsd::positive_integer_str(), xsd::positive_integer_qname()) }
pub fn xsd__q_name() -> (String, &'static str, &'static str) { (text(xsd::q_name()), xsd::q_name_str(), xsd::q_name_qname()) }
pub fn xsd__time() -> (String, &'static str, &'static str) { (text(xsd::time()), xsd::time_str(), xsd::time_qname()) }
pub fn xsd__token() -> (String, &'static str, &'static str) { (text(xsd::token()), xsd::token_str(), xsd::token_qname()) }
pub fn xsd__unsigned_byte() -> (String, &'static str, &'static str) { (text(xsd::unsigned_byte()), xsd::unsigned_byte_str(), xsd::unsigned_byte_qname()) }
pub fn xsd__unsigned_int() -> (String, &'static str, &'static str) { (text(xsd::unsigned_int()), xsd::unsigned_int_str(), xsd::unsigned_int_qname()) }
pub fn xsd__unsigned_long() -> (String, &'static str, &'static str) { (text(xsd::unsigned_long()), xsd::unsigned_long_str(), xsd::unsigned_long_qname()) }
pub fn xsd__unsigned_short() -> (String, &'static str, &'static str) { (text(xsd::unsigned_short()), xsd::unsigned_short_str(), xsd::unsigned_short_qname()) }
pub fn xsd__boolean() -> (String, &'static str, &'static str) { (text(xsd::boolean()), xsd::boolean_str(), xsd::boolean_qname()) }
pub fn xsd__byte() -> (String, &'static str, &'static str) { (text(xsd::byte()), xsd::byte_str(), xsd::byte_qname()) }
pub fn xsd__double() -> (String, &'static str, &'static str) { (text(xsd::double()), xsd::double_str(), xsd::double_qname()) }
pub fn xsd__float() -> (String, &'static str, &'static str) { (text(xsd::float()), xsd::float_str(), xsd::float_qname()) }
pub fn xsd__int() -> (String, &'static str, &'static str) { (text(xsd::int()), xsd::int_str(), xsd::int_qname()) }
pub fn xsd__long() -> (String, &'static str, &'static str) { (text(xsd::long()), xsd::long_str(), xsd::long_qname()) }
pub fn xsd__short() -> (String, &'static str, &'static str) { (text(xsd::short()), xsd::short_str(), xsd::short_qname()) }
pub fn xsd__string() -> (String, &'static str, &'static str) { (text(xsd::string()), xsd::string_str(), xsd::string_qname()) }
pub fn xsd__year_month_duration() -> (String, &'static str, &'static str) { (text(xsd::year_month_duration()), xsd::year_month_duration_str(), xsd::year_month_duration_qname()) }

pub fn rdf_member(n: usize) -> String { text(&rdf::member(n)) }
pub fn rdf_member_qname(n: usize) -> String { rdf::member_qname(n) }

/// A violation the analysis has to find on every run.
pub fn selftest_names() -> (String, &'static str, &'static str) { (text(owl::class()), owl::class_str(), rdfs::class_qname()) }
