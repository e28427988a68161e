// The crate's public predicates and shape functions, one call per case: [name, settings, arguments...].
use crate::{err, jl, js, settings, ty};
use latkerlo_jvotci::tarmi::{self, Tarmi};
use latkerlo_jvotci::*;

fn shape(t: Tarmi) -> &'static str {
    match t {
        Tarmi::Hyphen => "hyphen",
        Tarmi::Cvccv => "CVCCV",
        Tarmi::Cvcc => "CVCC",
        Tarmi::Ccvcv => "CCVCV",
        Tarmi::Ccvc => "CCVC",
        Tarmi::Cvc => "CVC",
        Tarmi::Cvhv => "CVhV",
        Tarmi::Ccv => "CCV",
        Tarmi::Cvv => "CVV",
        Tarmi::OtherRafsi => "other",
    }
}
fn ok<T: std::fmt::Display>(x: T) -> String { format!("[\"ok\",{x}]") }
fn res<T>(r: Result<T, exceptions::Jvonunfli>, f: impl Fn(T) -> String) -> String {
    match r {
        Ok(x) => ok(f(x)),
        Err(e) => err(e),
    }
}
fn list(s: &str) -> Vec<String> { if s.is_empty() { vec![] } else { s.split('|').map(String::from).collect() } }

pub fn run(a: &[String]) -> String {
    let (name, o, s) = (a[0].as_str(), settings(&a[1]), a[2].as_str());
    let one = || s.chars().next().unwrap();
    match name {
        "vowel" => ok(tarmi::is_vowel(one())),
        "consonant" => ok(tarmi::is_consonant(one())),
        "glide" => ok(tarmi::is_glide(s)),
        "letters" => ok(tarmi::is_only_lojban_characters(s)),
        "hascons" => ok(tarmi::contains_consonant(s)),
        "gismushape" => ok(tarmi::is_gismu_shape(s)),
        "gismu" => ok(tarmi::is_gismu(s, &o)),
        "validrafsi" => ok(tarmi::is_valid_rafsi(s, &o)),
        "shape" => ok(js(shape(tarmi::rafsi_tarmi(s)))),
        "shapeh" => ok(js(shape(tarmi::tarmi_ignoring_hyphen(s)))),
        "strip" => ok(js(&tarmi::strip_hyphens(s))),
        "initial" => ok(tarmi::is_zihevla_initial_cluster(s)),
        "middle" => ok(tarmi::is_zihevla_middle_cluster(s)),
        "split" => res(tarmi::split_vowel_cluster(s), |x| jl(&x)),
        "gismulujvo" => res(tools::is_gismu_or_lujvo(s, &o), |x| x.to_string()),
        "slinkuhi" => res(tools::is_slinkuhi(s, &o), |x| x.to_string()),
        "zihevla" => res(tools::check_zihevla_or_rafsi(s, &o, true), |x| js(ty(x))),
        "zihevlaorrafsi" => res(tools::check_zihevla_or_rafsi(s, &o, false), |x| js(ty(x))),
        "jvokaha" => res(katna::jvokaha(s, &o), |x| jl(&x)),
        "jvokaha2" => res(katna::jvokaha2(s, &o), |x| jl(&x)),
        "compare" => ok(katna::compare_lujvo_pieces(&list(s), &list(&a[3]))),
        "selrafsi" => res(katna::selrafsi_list_from_rafsi_list(&list(s), &o), |x| jl(&x)),
        "score" => ok(jvozba::score(s)),
        "tanru" => ok(jl(&jvozba::process_tanru(s))),
        _ => "[\"err\",\"BadOp\",\"\"]".into(),
    }
}
