// Batch driver for the Rust crate: reads cases (one per line, tab-separated,
// \t \n \\ \r escaped) from argv[1], prints one JSON array per case.
// argv[2] == "each" flushes after every case; "work" prints [kind, allocations, seconds].
#[cfg(feature = "helpers")]
mod helpers;
use latkerlo_jvotci::exceptions::Jvonunfli;
use latkerlo_jvotci::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Counts what the calling thread allocates.
struct Counting;
thread_local! { static WORK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = WORK.try_with(|w| w.set(w.get() + 1));
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('t') => o.push('\t'),
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<S: AsRef<str>>(v: &[S]) -> String {
    format!("[{}]", v.iter().map(|x| js(x.as_ref())).collect::<Vec<_>>().join(","))
}
fn ji(v: &[[usize; 2]]) -> String {
    format!("[{}]", v.iter().map(|x| format!("[{},{}]", x[0], x[1])).collect::<Vec<_>>().join(","))
}
fn err(e: Jvonunfli) -> String {
    let k = match e {
        Jvonunfli::DecompositionError(_) => "DecompositionError",
        Jvonunfli::InvalidClusterError(_) => "InvalidClusterError",
        Jvonunfli::NoLujvoFoundError(_) => "NoLujvoFoundError",
        Jvonunfli::NonLojbanCharacterError(_) => "NonLojbanCharacterError",
        Jvonunfli::NotBrivlaError(_) => "NotBrivlaError",
        Jvonunfli::NotZihevlaError(_) => "NotZihevlaError",
        Jvonunfli::FakeTypeError(_) => "FakeTypeError",
    };
    format!("[\"err\",{},{}]", js(k), js(&e.text()))
}
fn ty(b: tarmi::BrivlaType) -> &'static str {
    use tarmi::BrivlaType::*;
    match b {
        Gismu => "GISMU",
        Zihevla => "ZIhEVLA",
        Lujvo => "LUJVO",
        ExtendedLujvo => "EXTENDED_LUJVO",
        Rafsi => "RAFSI",
        Cmevla => "CMEVLA",
    }
}
// Built from the fields, so that a defect in the flag parser cannot hide here.
fn settings(s: &str) -> Settings {
    Settings {
        generate_cmevla: s.contains('c'),
        y_hyphens: if s.contains('A') { AllowY } else if s.contains('F') { ForceY } else { Standard },
        consonants: if s.contains('2') { TwoConsonants } else if s.contains('1') { OneConsonant } else { Cluster },
        exp_rafsi: s.contains('r'),
        glides: s.contains('g'),
        allow_mz: s.contains('z'),
    }
}
fn sdesc(s: &Settings) -> String {
    let mut o = String::new();
    if s.generate_cmevla { o.push('c') }
    match s.y_hyphens { Standard => {}, AllowY => o.push('A'), ForceY => o.push('F') }
    match s.consonants { Cluster => {}, TwoConsonants => o.push('2'), OneConsonant => o.push('1') }
    if s.exp_rafsi { o.push('r') }
    if s.glides { o.push('g') }
    if s.allow_mz { o.push('z') }
    o
}
fn run(op: &str, a: &[String]) -> String {
    match op {
        "Z" => match get_lujvo_with_analytics(&a[0], &settings(&a[1])) {
            Ok((l, s, i)) => format!("[\"ok\",{},{},{}]", js(&l), s, ji(&i)),
            Err(e) => err(e),
        },
        "z" => match get_lujvo(&a[0], &settings(&a[1])) {
            Ok(l) => format!("[\"ok\",{}]", js(&l)),
            Err(e) => err(e),
        },
        #[cfg(feature = "internals")]
        "ZL" => match jvozba::get_lujvo_from_list(&a[1..], &settings(&a[0])) {
            Ok((l, s, i)) => format!("[\"ok\",{},{},{}]", js(&l), s, ji(&i)),
            Err(e) => err(e),
        },
        "B" => match analyze_brivla(&a[0], &settings(&a[1])) {
            Ok((t, p)) => format!("[\"ok\",{},{}]", js(ty(t)), jl(&p)),
            Err(e) => err(e),
        },
        "K" => match get_veljvo(&a[0], &settings(&a[1])) {
            Ok(p) => format!("[\"ok\",{}]", jl(&p)),
            Err(e) => err(e),
        },
        "S" => match score_lujvo(&a[0], &settings(&a[1])) {
            Ok(p) => format!("[\"ok\",{}]", p),
            Err(e) => err(e),
        },
        "I" => format!("[\"ok\",{}]", is_brivla(&a[0], &settings(&a[1]))),
        "N" => format!("[\"ok\",{}]", js(&normalize(&a[0]))),
        #[cfg(not(feature = "internals"))]
        "X" | "F" | "ZL" => "[\"err\",\"Missing\",\"\"]".into(),
        #[cfg(feature = "internals")]
        "X" => {
            let v: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
            format!("[\"ok\",{}]", ji(&tools::get_rafsi_indices(&v)))
        }
        #[cfg(feature = "internals")]
        "F" => match katna::search_selrafsi_from_rafsi(&a[0]) {
            Some(s) => format!("[\"ok\",{}]", js(&s)),
            None => "[\"ok\",null]".into(),
        },
        #[cfg(feature = "helpers")]
        "H" => helpers::run(a),
        #[cfg(not(feature = "helpers"))]
        "H" => "[\"err\",\"Missing\",\"\"]".into(),
        "P" => match a[0].parse::<Settings>() {
            Ok(s) => format!("[\"ok\",{},{}]", js(&sdesc(&s)), js(&s.to_string())),
            Err(_) => "[\"err\",\"SettingsError\",\"\"]".into(),
        },
        "A" => {
            let mut s = settings(&a[0]);
            match s.apply_flags(&a[1]) {
                Some(()) => format!("[\"ok\",{},{}]", js(&sdesc(&s)), js(&s.to_string())),
                None => "[\"err\",\"SettingsError\",\"\"]".into(),
            }
        }
        "T" => match a[0].as_str() {
            "rafsi" => {
                let mut v: Vec<_> = RAFSI.iter().map(|(k, r)| (k.to_string(), r.clone())).collect();
                v.sort();
                format!("[\"ok\",[{}]]", v.iter().map(|(k, r)| format!("[{},{}]", js(k), jl(r))).collect::<Vec<_>>().join(","))
            }
            "settings" => {
                let v: Vec<String> = SETTINGS_ITERATOR.iter().map(sdesc).collect();
                format!("[\"ok\",{}]", jl(&v))
            }
            #[cfg(feature = "internals")]
            t => {
                let mut v: Vec<String> = match t {
                    "VALID" => data::VALID.iter().map(|x| x.to_string()).collect(),
                    "MZ_VALID" => data::MZ_VALID.iter().map(|x| x.to_string()).collect(),
                    "INITIAL" => data::INITIAL.iter().map(|x| x.to_string()).collect(),
                    "ZIhEVLA_INITIAL" => data::ZIHEVLA_INITIAL.iter().map(|x| x.to_string()).collect(),
                    "BANNED_TRIPLES" => data::BANNED_TRIPLES.iter().map(|x| x.to_string()).collect(),
                    "START_VOWEL_CLUSTERS" => data::START_VOWEL_CLUSTERS.iter().map(|x| x.to_string()).collect(),
                    "FOLLOW_VOWEL_CLUSTERS" => data::FOLLOW_VOWEL_CLUSTERS.iter().map(|x| x.to_string()).collect(),
                    "HYPHENS" => data::HYPHENS.iter().map(|x| x.to_string()).collect(),
                    _ => vec![],
                };
                v.sort();
                format!("[\"ok\",{}]", jl(&v))
            }
            #[cfg(not(feature = "internals"))]
            _ => "[\"err\",\"Missing\",\"\"]".into(),
        },
        _ => "[\"err\",\"BadOp\",\"\"]".into(),
    }
}
fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let each = args.get(2).is_some_and(|x| x == "each");
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    if args.get(2).is_some_and(|x| x == "threads") {
        // every thread runs every case, each starting somewhere else and going its own way
        let lines: Vec<&str> = text.split('\n').filter(|l| !l.is_empty()).collect();
        let n = lines.len();
        let steps = [1usize, 3, 7, 11, 13, 17, 19, 23];
        let all: Vec<Vec<String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8)
                .map(|t| {
                    let lines = &lines;
                    sc.spawn(move || {
                        let mut step = steps[t];
                        while gcd(step, n) != 1 { step += 1 }
                        let mut r = vec![String::new(); n];
                        for k in 0..n {
                            let i = (t * n / 8 + k * step) % n;
                            let f: Vec<String> = lines[i].split('\t').map(unesc).collect();
                            r[i] = catch_unwind(AssertUnwindSafe(|| run(&f[0], &f[1..])))
                                .unwrap_or_else(|_| "[\"err\",\"PANIC\",\"\"]".into());
                        }
                        r
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for i in 0..n {
            let other = all.iter().find(|r| r[i] != all[0][i]);
            match other {
                None => writeln!(out, "{}", all[0][i]).unwrap(),
                Some(o) => writeln!(out, "[\"differs\",{},{}]", js(&all[0][i]), js(&o[i])).unwrap(),
            }
        }
        return;
    }
    let work = args.get(2).is_some_and(|x| x == "work");
    if work {
        for f in [["Z", "klama xekri", "A1rgz"], ["B", "brablmnrta", "A1rgz"], ["K", "klaxekri", "."], ["S", "spageti'yspageti", "A1rgz"]] {
            let f = f.map(String::from);
            let _ = catch_unwind(AssertUnwindSafe(|| run(&f[0], &f[1..])));   // what is made once does not count
        }
    }
    for line in text.split('\n') {
        if line.is_empty() { continue }
        let f: Vec<String> = line.split('\t').map(unesc).collect();
        if work {
            let (t, w) = (std::time::Instant::now(), WORK.with(|w| w.get()));
            let r = catch_unwind(AssertUnwindSafe(|| run(&f[0], &f[1..])));
            let (t, w) = (t.elapsed().as_secs_f64(), WORK.with(|w| w.get()) - w);
            let k = match r { Ok(s) if s.starts_with("[\"ok") => "ok", Ok(_) => "err", Err(_) => "PANIC" };
            writeln!(out, "[\"{k}\",{w},{t:.4}]").unwrap();
            out.flush().unwrap();
            continue;
        }
        let r = catch_unwind(AssertUnwindSafe(|| run(&f[0], &f[1..]))).unwrap_or_else(|p| {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            format!("[\"err\",\"PANIC\",{}]", js(&m))
        });
        writeln!(out, "{r}").unwrap();
        if each { out.flush().unwrap() }
    }
}
